"""What a room adds to the game stands in that room and turns with it."""
import traceback
from sim.core import fail, in_library
from sim.rng import SIM, StockRandom
from . import p15, placement
from .placement import tup

RUNS = {'quick': 700, 'thorough': 5000}
RULE = 'a run that drew at least one room, with an event log unlike any other'
MEASURE = 'distinct (room type, options, orientation, kinds of entity, random policy)'
REAL = ['redeclipse.prefabs (all procedural and modelled rooms)', 'redeclipse.entities', 'redeclipse.lighting', 'redeclipse.vector',
        'redeclipse.prefabs.construction_kit', 'redeclipse.voxel', 'redeclipse.textures', 'redeclipse.magicavoxel.reader (shipped .vox models)']
STUB = ['random module source (simulated, seeded, outcomes forced on some draws)', 'time, os.urandom (simulated)',
        'the map: an object with the list of entities only']
ASSUME = ['Rooms face one of the four cardinal directions and lie at whole tiles 0 to 31.',
          'Lights may stand outside the tiles of their room (some light it from above); they are only required to turn and move with it. '
          'Their colour depends on the position and is not compared; nor is the team of a flag, which depends on the direction.',
          'The facing is compared for jump pads and models; spawn points and flags are compared in position only.']
YAW = {'ET_PUSHER': 0, 'ET_MAPMODEL': 1}
FREE = {'ET_LIGHT': (1, 2, 3), 'ET_AFFINITY': (0, 1), 'ET_PLAYERSTART': (1,)}


def gen(rng, tier, index):
    sc = p15.gen(rng, tier, index)
    # Most of the types have no entity but their lights.
    rich = [w for w in p15.catalogue() if any(k in w for k in ('Jump', 'Spawn', 'TestRoom', 'Altar', 'spawn', 'flag', 'endcap', 'jumpx'))]
    if rng.random() < 0.5:
        sc['steps'][-1] = dict(sc['steps'][-1], what=rng.choice(rich), flags=[rng.random() < 0.5 for _ in range(8)])
    sc['prior'] = rng.choice((0, 0, 1, 5))
    sc.pop('noise')
    return sc


class Map:
    def __init__(self):
        self.ents = []


def described(e):
    """(kind, position in voxels, attributes as numbers) of an entity."""
    at = (e.o.x, e.o.y, e.o.z)
    for c in at:
        if not isinstance(c, (int, float)) or c != c:
            fail('position', 'an entity of type %s has the coordinate %r', e.type.name, c)
    return e.type.name, tuple(c / 4 for c in at), [getattr(a, 'value', a) for a in e.attrs]


def draw(types, s, pos, o, m):
    from redeclipse.voxel import VoxelWorld
    SIM.begin(s['seed'], s['mode'], s['p'])
    try:
        room = p15.make(types, s, pos, o)
        room.render(VoxelWorld(size=256), m)
    except Exception as e:
        f = in_library(e.__traceback__)
        if f is None:
            raise
        fail('drawing-fails', '%s at %r facing %d: %s: %s (%s line %d)', s['what'], pos, o, type(e).__name__, e, f.name, f.lineno)
    finally:
        SIM.begin(1)
    return room


def relative(ents, pos, o):
    """Entities as they would be with the room at the origin, facing east; the room turns about the middle of the tile it is at."""
    out = []
    for e in ents:
        kind, (x, y, z), attrs = described(e)
        x, y = x - 8 * pos[0] - 4, y - 8 * pos[1] - 4
        for _ in range(-o % 4):
            x, y = -y, x
        if kind in YAW:
            attrs[YAW[kind]] = (attrs[YAW[kind]] - 90 * o) % 360
        for i in FREE.get(kind, ()):
            attrs[i] = None
        out.append((kind, tuple(round(c, 3) + 0.0 for c in (x, y, z - 8 * pos[2])), attrs))
    return sorted(out, key=repr)


def run(sc, ctx):
    types = placement.Types({'specs': [], 'capspecs': []})
    r = StockRandom(sc['nseed'])
    shared = Map()
    if sc['prior']:
        from redeclipse.entities import PlayerSpawn
        from redeclipse.vector import FineVector
        shared.ents += [PlayerSpawn(FineVector(*[r.randrange(256) for _ in range(3)])) for _ in range(sc['prior'])]
        # Some stand where the rooms will be: at corners and middles of tiles, and at the very places of the room's own entities.
        for s in sc['steps']:
            shared.ents += [PlayerSpawn(FineVector(*[8 * c for c in s['pos']]) + FineVector(*d)) for d in ((0, 0, 0), (4, 4, 0), (4, 4, 1))]
            if r.random() < 0.5:
                draw(types, s, s['pos'], s['o'] % 4, shared)
    for s in sc['steps']:
        what, o, pos = s['what'], s['o'] % 4, s['pos']
        before = [(e, described(e), list(e.links)) for e in shared.ents]
        room = draw(types, s, pos, o, shared)
        tiles = [tup(p) for p in room.get_positions()]
        if len(shared.ents) < len(before) or any(shared.ents[i] is not e or described(e) != d or list(e.links) != k
                                                 for i, (e, d, k) in enumerate(before)):
            fail('others', 'drawing %s changed the entities that were in the map before', what)
        mine = shared.ents[len(before):]
        kinds = []
        for e in mine:
            kind, at, attrs = described(e)
            kinds.append(kind)
            if kind == 'ET_LIGHT':
                continue
            ctx.probe('in its room: ' + kind)
            if not any(all(8 * t[i] <= at[i] <= 8 * t[i] + 8 for i in range(3)) for t in tiles):
                fail('outside', '%s at %r facing %d with options %r puts an entity of type %s at voxel %r, outside its tiles %r', what, pos, o,
                     p15.flags_of(types, s), kind, at, tiles)
        other = Map()
        draw(types, s, sc['basepos'], sc['base'], other)
        a, b = relative(mine, pos, o), relative(other.ents, sc['basepos'], sc['base'])
        if a != b:
            odd = [x for x in a if x not in b][:2], [x for x in b if x not in a][:2]
            fail('turned', '%s with options %r: relative to the room, and facing east, it has %r at %r facing %d but %r at %r facing %d', what,
                 p15.flags_of(types, s), odd[0] or a, pos, o, odd[1] or b, sc['basepos'], sc['base'])
        ctx.probe('compared across places')
        if (sc['base'] - o) % 4:
            ctx.probe('compared across directions')
        ctx.nontrivial = True
        ctx.state(what, p15.flags_of(types, s), o, sorted(set(kinds)), s['mode'])
        ctx.log(what, pos, o, p15.flags_of(types, s), s['mode'], len(mine))
        ctx.meta['type'] = what
