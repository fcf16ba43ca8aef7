"""Rooms open into each other."""
import traceback
from sim.core import fail, in_library, Invalid
from sim.rng import SIM, StockRandom
from . import p15, placement
from .placement import DIRS, add, sub, tup, quarter

RUNS = {'quick': 1500, 'thorough': 24000}
RULE = 'a run that drew at least one room with a doorway, with an event log unlike any other'
MEASURE = 'distinct (room type, options, direction, random policy) drawn alone, and (types joined, how they are turned to each other) in maps'
REAL = ['redeclipse.prefabs (all procedural and modelled rooms)', 'redeclipse.prefabs.construction_kit', 'redeclipse.upm', 'redeclipse.vector',
        'redeclipse.voxel', 'redeclipse.textures', 'redeclipse.lighting', 'redeclipse.magicavoxel.reader (shipped .vox models)']
STUB = ['random module source (simulated, seeded, outcomes forced on some draws)', 'time, os.urandom (simulated)', 'tqdm progress bar (disabled)']
ASSUME = ['Rooms face one of the four cardinal directions and lie at whole tiles 0 to 31.',
          'Poles of PoleRoom and blocks of DigitalRoom stand where chance puts them; MultiPlatform may be without its floor; '
          'castle_gate_simple has two passages, one over the other; the debugging placeholder (TestRoom) has no floor.']
CHANCE = ('PoleRoom', 'DigitalRoom')
APART = ('castle_gate_simple',)
TALL = 3


def gen(rng, tier, index):
    noise = {'rng': {'seed': rng.randrange(2 ** 32), 'mode': rng.choice(('natural', 'natural', 'natural', 'low', 'high', 'mid', 'mixed', 'runs')),
                     'p': rng.choice((0.1, 0.5, 0.9))}}
    if index % 10 < 8:
        sc = p15.gen(rng, tier, index // 10 * 8 + index % 10)     # every type and set of options in turn
        return {'kind': 'alone', 'steps': [dict(s, again=rng.random() < 0.3, other=rng.randrange(2 ** 32)) for s in sc['steps']]}
    cat = ['p:' + x for x in rng.sample(placement.PROC, rng.choice((1, 3, 6)))]
    k = rng.random()
    if k < 0.6:
        cat += ['m:' + x for x in rng.sample(placement.SMALL + placement.LARGE, rng.choice((1, 2, 4)))]
        if k < 0.3:
            cat = cat[-rng.choice((1, 2)):]
    if rng.random() < 0.15:
        cat.append('m:' + rng.choice(('egypt.stair', 'egypt.stair_toplatform')))
    n = rng.choice((1, 2, 3, 5, 8))
    if any(c[2:] in placement.LARGE for c in cat):
        n = min(n, 2 if tier == 'quick' else 4)         # large models are slow to draw
    elif any(c[0] == 'm' for c in cat):
        n = min(n, 4)
    start = rng.choice(cat) if rng.random() < 0.6 else rng.choice(('p:SpawnRoom', 'p:Corridor4way', 'm:spacestation.station_tubeX'))
    return dict(noise, kind='map', mirror=rng.choice((1, 2, 4)), cat=cat, n=n, caps=['m:' + x for x in rng.sample(placement.CAPS, rng.choice((0, 1, 1, 2)))],
                start={'what': start, 'pos': rng.choice(([8, 8, 3], [12, 14, 5], [rng.randrange(3, 29), rng.randrange(3, 29), rng.randrange(1, 28)])),
                       'o': rng.randrange(4), 'flags': [rng.random() < 0.5 for _ in range(8)]},
                order=rng.choice(('as placed', 'reversed', 'shuffled')), oseed=rng.randrange(2 ** 32), again=rng.random() < 0.2,
                draw={'seed': rng.randrange(2 ** 32), 'mode': rng.choice(('natural', 'natural', 'low', 'high', 'mid', 'mixed', 'runs')), 'p': rng.choice((0.1, 0.5, 0.9))})


def whole(t):
    if any(c != int(c) for c in t):
        fail('between', 'a room uses the tile %r, which is no whole position', t)
    return tuple(int(c) for c in t)


def described(room):
    fl = getattr(room, '_randflags', None)
    return '%s at %r facing %d%s' % (type(room).__name__, whole(tup(room.pos)), quarter(room.orientation), ' with options %r' % [int(bool(f)) for f in fl] if fl else '')


def face(t, q, l, z):
    """The voxel of column l and height z in the face of a tile in direction q."""
    x, y, b = 8 * t[0], 8 * t[1], 8 * t[2] + z
    d = DIRS[q]
    return (x + (7 if d[0] > 0 else 0), y + l, b) if d[0] else (x + l, y + (7 if d[1] > 0 else 0), b)


def examine(room, solid, ctx):
    """The doorways of a room that has been drawn among the voxels `solid`."""
    what = type(room).__name__
    tiles = {whole(tup(t)) for t in room.get_positions()}
    doors = []
    for d in room.get_doorways():
        q = quarter(d['orientation'])
        t = sub(whole(tup(d['offset'])), DIRS[q])
        if t not in tiles:
            fail('foreign', '%s has a doorway to %r facing %d that leads out of the tile %r, which is not one of its tiles %r', described(room),
                 add(t, DIRS[q]), q, t, sorted(tiles)[:20])
        doors.append((t, q))
    if what != 'PoleRoom':
        for t, q in doors:
            for l in (2, 3, 4, 5):
                for z in (1, 2, 3, 4, 5):
                    if face(t, q, l, z) in solid:
                        fail('closed', '%s: its doorway out of the tile %r facing %d is not free: there is a voxel at %r', described(room), t, q,
                             face(t, q, l, z))
        ctx.probe('doorway open', len(doors))
    fl = list(getattr(room, '_randflags', None) or [])
    if what not in CHANCE + ('TestRoom',) and not (what == 'MultiPlatform' and fl and not fl[0]):
        for t, q in doors:
            for l in (3, 4):
                if face(t, q, l, 0) not in solid and face(t, q, l, -1) not in solid:
                    fail('floor', '%s: its doorway out of the tile %r facing %d has no floor at %r', described(room), t, q, face(t, q, l, 0))
        ctx.probe('doorway with floor', len(doors))
    if what in CHANCE + APART or len(doors) < 2:
        return
    # from the first doorway through the free space of the tiles

    def free(p):
        return all((p[0], p[1], p[2] + i) not in solid and (p[0] // 8, p[1] // 8, (p[2] + i) // 8) in tiles for i in range(TALL))
    first = face(doors[0][0], doors[0][1], 3, 1)
    left = {face(t, q, 3, 1): (t, q) for t, q in doors[1:]}
    seen, todo = {first}, [first]
    left.pop(first, None)
    while todo and left:
        x, y, z = todo.pop()
        for p in ((x + 1, y, z), (x - 1, y, z), (x, y + 1, z), (x, y - 1, z), (x, y, z + 1), (x, y, z - 1)):
            if p not in seen and free(p):
                seen.add(p)
                todo.append(p)
                left.pop(p, None)
    if left:
        fail('apart', '%s: there is no way through it from its doorway out of the tile %r facing %d to that out of %r facing %d', described(room),
             *doors[0], *list(left.values())[0])
    ctx.probe('doorways joined inside', len(doors))


class Entities:
    def __init__(self):
        self.ents = []


def render(room, world, ents, s, seed=None):
    SIM.begin(s['seed'] if seed is None else seed, s['mode'], s['p'])
    try:
        room.render(world, ents)
    except Exception as e:
        f = in_library(e.__traceback__)
        if f is None:
            raise
        fail('drawing-fails', '%s: %s: %s (%s line %d)', described(room), type(e).__name__, e, f.name, f.lineno)
    finally:
        SIM.begin(1)


def voxels(world):
    return {whole(tuple(k)) for k in world.world}


def run(sc, ctx):
    from redeclipse.voxel import VoxelWorld
    types = placement.Types({'specs': [], 'capspecs': []})
    if sc['kind'] == 'alone':
        for s in sc['steps']:
            SIM.begin(s['seed'], s['mode'], s['p'])
            room = p15.make(types, s, s['pos'], s['o'] % 4)
            SIM.begin(1)
            v = VoxelWorld(size=256)
            for i in range(2 if s['again'] else 1):
                render(room, v, Entities(), s, s['other'] if i else None)
            examine(room, voxels(v), ctx)
            ctx.nontrivial = ctx.nontrivial or bool(room.get_doorways())
            ctx.state(s['what'], p15.flags_of(types, s), s['o'] % 4, s['mode'], s['again'])
            ctx.log(s['what'], s['pos'], s['o'] % 4, p15.flags_of(types, s), s['mode'], len(v.world))
        return
    from sim import env
    from redeclipse.upm import UnusedPositionManager
    env.STEPS.stop()            # how long placing takes is P10's matter
    if not sc['cat']:
        raise Invalid()
    u = UnusedPositionManager(256, mirror=sc['mirror'])
    SIM.begin(sc['rng']['seed'], sc['rng']['mode'], sc['rng']['p'])
    try:
        try:
            u.register_room(types.make_room(sc['start']))
        except Exception:
            return                  # the first room collides with its own copies
        u.place_rooms(False, [types[c] for c in sc['cat']], rooms=sc['n'])
        u.endcap(possible_endcaps=[types[c] for c in sc['caps']])
    except Exception as e:
        f = in_library(e.__traceback__)
        if f is None:
            raise
        fail('placing-fails', '%s: %s (%s line %d)', type(e).__name__, e, f.name, f.lineno)
    finally:
        SIM.begin(1)
    rooms = list(u.rooms)
    if sc['order'] == 'reversed':
        rooms.reverse()
    elif sc['order'] == 'shuffled':
        StockRandom(sc['oseed']).shuffle(rooms)
    if sc['again']:
        rooms += rooms[:2]
    v, x = VoxelWorld(size=256), Entities()
    for i, room in enumerate(rooms):
        render(room, v, x, sc['draw'], sc['draw']['seed'] + i)
    solid = voxels(v)
    for room in u.rooms:
        examine(room, solid, ctx)
    # joined rooms: one faces the other
    doors = {}
    for i, room in enumerate(u.rooms):
        for d in room.get_doorways():
            q = quarter(d['orientation'])
            doors[sub(whole(tup(d['offset'])), DIRS[q]), q] = room
    n = 0
    for (t, q), room in doors.items():
        other = doors.get((add(t, DIRS[q]), (q + 2) % 4))
        if other is not None and q < 2:
            n += 1
            a, b = sorted(((type(room).__name__, quarter(room.orientation)), (type(other).__name__, quarter(other.orientation))))
            ctx.state(a[0], b[0], (b[1] - a[1]) % 4)
    ctx.probe('two rooms joined', n)
    ctx.nontrivial = len(u.rooms) > 1
    ctx.log('map', len(u.rooms), n, len(solid), sorted(whole(tup(r.pos)) for r in u.rooms))
