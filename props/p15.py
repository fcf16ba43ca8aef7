"""A room draws only inside its own tiles, the same in every direction."""
from sim.core import fail
from sim.rng import SIM
from . import placement
from .placement import rot, add, sub, tup, quarter

RUNS = {'quick': 900, 'thorough': 6000}
RULE = 'a run that drew at least one room, with an event log unlike any other'
MEASURE = 'distinct (room type, options, orientation, random policy, texture manager)'
REAL = ['redeclipse.prefabs (all procedural and modelled rooms)', 'redeclipse.prefabs.construction_kit', 'redeclipse.vector',
        'redeclipse.voxel', 'redeclipse.textures', 'redeclipse.lighting', 'redeclipse.magicavoxel.reader (shipped .vox models)']
STUB = ['random module source (simulated, seeded, outcomes forced on some draws)', 'time, os.urandom (simulated)']
ASSUME = ['Rooms face one of the four cardinal directions and lie at whole tiles 0 to 31.',
          'Rooms that colour themselves by where they stand (castle_flag_room, station_flagroom) are compared in shape only.',
          'DigitalRoom leaves every voxel to chance, so it may draw none; it draws them in an order that depends on direction, so it is compared across directions only under constant random outcomes.']
BY_PLACE = ('m:castle.castle_flag_room', 'm:spacestation.station_flagroom')
ORDERED = ('p:DigitalRoom',)


def catalogue():
    return ['p:' + r for r in placement.PROC + ['Room']] + \
        ['m:' + r for r in dict.fromkeys(placement.SMALL + placement.LARGE + placement.CAPS)]


# How many random options the shipped types have; a type not listed has none.
OPTIONS = {'p:AltarRoom': 3, 'p:Corridor2way': 2, 'p:Corridor4way': 3, 'p:CrossingWalkways': 1, 'p:DigitalRoom': 3, 'p:ImposingBlockRoom': 3,
           'p:ImposingRingRoom': 5, 'p:JumpCorridorVertical': 1, 'p:JumpCorridorVerticalCenter': 1, 'p:MultiPlatform': 1, 'p:NLongCorridor': 4,
           'p:PoleRoom': 2, 'p:SpawnRoom': 1, 'p:Stair': 1}
CELLS = [(w, bits) for w in catalogue() for bits in range(2 ** OPTIONS.get(w, 0))]


def gen(rng, tier, index):
    cat = catalogue()
    steps = []
    cell = CELLS[index * 37 % len(CELLS)]
    turn = index // len(CELLS) + index
    for i in range(rng.choice((1, 2, 3))):
        what = cell[0] if i == 0 else rng.choice(cat if rng.random() < 0.3 else cat[:len(placement.PROC) + 1])
        if i and rng.random() < 0.3:
            what = steps[0]['what']
        flags = [rng.random() < 0.5 for _ in range(8)]
        if i == 0:
            flags = [bool(cell[1] >> k & 1) for k in range(max(1, OPTIONS.get(what, 0)))]
        steps.append({'what': what, 'pos': [rng.randrange(0, 32) for _ in range(3)], 'o': rng.randrange(4) if i else turn % 4,
                      'flags': flags, 'seed': rng.randrange(2 ** 32),
                      'mode': rng.choice(('natural', 'natural', 'natural', 'low', 'high', 'mid', 'mixed', 'runs')), 'p': rng.choice((0.1, 0.5, 0.9))})
    return {'steps': steps, 'noise': rng.choice((0, 40, 400)), 'nseed': rng.randrange(2 ** 32), 'base': (turn + rng.choice((1, 2, 3, 3, 0))) % 4,
            'basepos': [rng.randrange(0, 32) for _ in range(3)]}


class Entities:
    def __init__(self):
        self.ents = []


def turned(p, at, q):
    """A voxel relative to a room at tile `at`, turned q quarters about the middle of that tile."""
    x, y, z = p
    x -= 8 * at[0]
    y -= 8 * at[1]
    for _ in range(q % 4):
        x, y = 7 - y, x
    return (x, y, z - 8 * at[2])


def flags_of(types, s):
    return types.flags(types[s['what']], s['flags'] or [True])


def make(types, s, pos, o):
    from redeclipse.vector import CoarseVector
    from redeclipse.vector.orientations import CARDINALS
    kw = {'orientation': CARDINALS[o % 4]}
    fl = flags_of(types, s)
    if fl is not None and len(fl):
        kw['randflags'] = fl
    return types[s['what']](pos=CoarseVector(*pos), **kw)


def draw(types, s, pos, o, world):
    SIM.begin(s['seed'], s['mode'], s['p'])
    r = make(types, s, pos, o)
    x = Entities()
    try:
        r.render(world, x)
    finally:
        SIM.begin(1)
    return r


def whole(v, what):
    out = {}
    for k, q in v.world.items():
        if any(c != int(c) for c in k):
            fail('between', '%s drew at %r, which is no whole position', what, tuple(k))
        out[tuple(int(c) for c in k)] = q
    return out


def run(sc, ctx):
    from redeclipse.objects import cube
    from redeclipse.voxel import VoxelWorld
    from sim.rng import StockRandom
    types = placement.Types({'specs': [], 'capspecs': []})
    r = StockRandom(sc['nseed'])
    shared = VoxelWorld(size=256)

    def reference(s):
        v = VoxelWorld(size=256)
        room = draw(types, s, sc['basepos'], sc['base'], v)
        vox = whole(v, s['what'])
        if not vox and s['what'] not in ORDERED:
            fail('nothing', '%s with options %r drew nothing', s['what'], flags_of(types, s))
        q = -sc['base'] % 4
        shape = {turned(p, sc['basepos'], q): tuple(c.texture) for p, c in vox.items()}
        return (shape, sorted(rot(sub(tup(p), sc['basepos']), q) for p in room.get_positions()),
                sorted((rot(sub(tup(d['offset']), sc['basepos']), q), (quarter(d['orientation']) + q) % 4) for d in room.get_doorways()))

    for s in sc['steps']:
        what, o, pos = s['what'], s['o'] % 4, s['pos']
        first = reference(s) if r.random() < 0.5 else None
        SIM.begin(1)
        room = make(types, s, pos, o)
        tiles = [tup(p) for p in room.get_positions()]
        tileset = set(tiles)
        if len(tileset) != len(tiles):
            fail('tiles', '%s claims a tile twice: %r', what, tiles)
        for _ in range(sc['noise']):
            t = r.choice(tiles)
            p = tuple(8 * t[i] + r.randrange(-9, 17) for i in range(3))
            shared.set_point(*p, cube.newtexcube(tex=r.randrange(40000, 60000)))
        before = {tuple(int(c) for c in k): (q, tuple(q.texture)) for k, q in shared.world.items()}
        try:
            room = draw(types, s, pos, o, shared)
        except Exception as e:
            from sim.core import in_library
            import traceback
            f = in_library(e.__traceback__)
            if f is None:
                raise
            fail('drawing-fails', '%s at %r facing %d with options %r: %s: %s (%s line %d)', what, pos, o, flags_of(types, s),
                 type(e).__name__, e, f.name, f.lineno)
        after = whole(shared, what)
        if sorted(tup(p) for p in room.get_positions()) != sorted(tiles):
            fail('tiles', '%s claims other tiles after it was drawn', what)
        for p, (q, t) in before.items():
            if (p[0] // 8, p[1] // 8, p[2] // 8) not in tileset and (p not in after or tuple(after[p].texture) != t):
                fail('outside', '%s at %r facing %d with options %r changed the voxel at %r, outside its tiles', what, pos, o,
                     flags_of(types, s), p)
        for p in after:
            if p not in before and (p[0] // 8, p[1] // 8, p[2] // 8) not in tileset:
                fail('outside', '%s at %r facing %d with options %r drew at %r, outside its tiles %r', what, pos, o, flags_of(types, s), p, tiles)
        # the same room, drawn elsewhere and in another direction
        shape, rtiles, rdoors = first or reference(s)
        const = s['mode'] in ('low', 'high')
        sameway = (sc['base'] - o) % 4 == 0
        here = {turned(p, pos, -o % 4): tuple(q.texture) for p, q in after.items()
                if (p[0] // 8, p[1] // 8, p[2] // 8) in tileset}
        old = {turned(p, pos, -o % 4): t for p, (q, t) in before.items() if (p[0] // 8, p[1] // 8, p[2] // 8) in tileset}
        if what not in ORDERED or const or sameway:
            for p, t in shape.items():
                if p not in here:
                    fail('turned', '%s with options %r drawn at %r facing %d lacks the voxel %r (relative, facing east) it has at %r facing %d',
                         what, flags_of(types, s), pos, o, p, sc['basepos'], sc['base'])
                if here[p] != t and what not in BY_PLACE:
                    fail('turned-texture', '%s drawn at %r facing %d has texture %r at %r, %r at %r facing %d', what, pos, o, here[p], p, t,
                         sc['basepos'], sc['base'])
            for p, t in here.items():
                if p not in shape and old.get(p) != t:
                    fail('turned', '%s with options %r drawn at %r facing %d has a voxel at %r (relative, facing east) that it lacks at %r facing %d',
                         what, flags_of(types, s), pos, o, p, sc['basepos'], sc['base'])
            ctx.probe('compared across places')
            if not sameway:
                ctx.probe('compared across directions')
        mine = sorted(rot(sub(t, pos), -o % 4) for t in tiles)
        if mine != rtiles:
            fail('tiles', '%s claims tiles %r at %r facing %d but %r at %r facing %d', what, mine, pos, o, rtiles, sc['basepos'], sc['base'])
        doors = sorted((rot(sub(tup(d['offset']), pos), -o % 4), (quarter(d['orientation']) - o) % 4) for d in room.get_doorways())
        if doors != rdoors:
            fail('doorways', '%s has doorways %r at %r facing %d but %r at %r facing %d', what, doors, pos, o, rdoors, sc['basepos'], sc['base'])
        ctx.nontrivial = True
        ctx.state(what, flags_of(types, s), o, s['mode'])
        ctx.log(what, pos, o, flags_of(types, s), s['mode'], len(shape), len(tiles))
        ctx.meta['type'] = what
