"""Every voxel of a world ends up in the saved map where it was put."""
from sim import fs
from sim.core import fail
from . import formats, maps, placement
from . import storage as S

RUNS = {'quick': 1000, 'thorough': 30000}
RULE = 'a run that saved a world with at least one voxel and read it back, with an event log unlike any other'
MEASURE = 'distinct (operation, world size, number of voxels and occupied octants after it)'
REAL = ['redeclipse.voxel.VoxelWorld', 'redeclipse.objects', 'redeclipse.prefabs (shapes and rooms)', 'redeclipse.aftereffects',
        'redeclipse.Map', 'redeclipse.MapParser', 'gzip and io of the standard library']
STUB = ['operating-system file interface (simulated disk with failing and short operations)', 'process death', 'random, time',
        'tqdm progress bar (disabled)']
ASSUME = ['World sizes are powers of two from 2 to 64, seldom 128 and 256; the map is at least as large as the world.',
          'Coordinates given to point operations are whole numbers, inside the world or outside it.']
ROOMS = ['p:' + r for r in placement.PROC] + ['m:' + r for r in placement.SMALL]
SHAPES = ['cube', 'column', 'dotted_column', 'ceiling', 'floor', 'low_wall', 'wall', 'ring', 'rectangular_prism']


def gen_tex(rng):
    k = rng.random()
    if k < 0.5:
        return rng.choice((0, 1, 2, 3, 255, 256, 65535, rng.randrange(3000)))
    return [rng.randrange(rng.choice((5, 65536))) for _ in range(6)]


def gen_coord(rng, n):
    k = rng.random()
    if k < 0.55:
        return rng.randrange(n)
    if k < 0.8:
        return rng.choice((0, n - 1, n // 2, n // 2 - 1))
    if k < 0.9:
        return rng.randrange(min(4, n))
    return rng.choice((-1, n, n + 1, -n, 2 * n, -7, 3 * n + 1))


def gen(rng, tier, index):
    n = rng.choice((2, 2, 4, 4, 4, 8, 8, 8, 8, 16, 16, 16, 32))
    if index % 40 == 5:
        n = 64
    if index % 500 == 7:
        n = 128
    if index % 1500 == 11:
        n = 256
    ops = []
    for _ in range(rng.choice((2, 5, 10, 25))):
        k = rng.choice(('set', 'set', 'setv', 'setv', 'many', 'del', 'delv', 'shape', 'shape', 'room', 'fx', 'box', 'clear', 'same', 'save',
                        'badsave', 'aim', 'aim'))
        if k in ('room', 'shape') and n < 8 and rng.random() < 0.7 or k == 'fx' and n > 32 or k in ('save', 'badsave') and n > 32:
            k = 'many'
        o = {'k': k}
        if k in ('set', 'setv', 'del', 'delv', 'same'):
            o['at'] = [gen_coord(rng, n) for _ in range(3)]
            o['t'] = gen_tex(rng)
            if k == 'same':
                o['to'] = [gen_coord(rng, n) for _ in range(3)]
        elif k == 'aim':
            o['j'] = rng.randrange(1000)
            o['t'] = gen_tex(rng)
            o['v'] = rng.choice(('set', 'setv', 'del', 'delv'))
        elif k == 'many':
            o['n'] = rng.choice((3, 10, 60))
            o['s'] = rng.randrange(10 ** 6)
        elif k == 'clear':                      # empty a whole block
            s = rng.choice([1 << i for i in range(n.bit_length() - 1)])
            o['at'] = [rng.randrange(n // s) * s for _ in range(3)]
            o['n'] = s
        elif k == 'shape':
            o.update(sh=rng.choice(SHAPES), pos=[rng.randrange(-1, n // 8 + 1) for _ in range(3)], o=rng.randrange(4),
                     off=[rng.randrange(-4, 12) for _ in range(3)], d=rng.randrange(6), len=rng.choice((0, 1, 3, 8, 20)),
                     xyz=[rng.randrange(1, 9) for _ in range(3)], t=gen_tex(rng), sub=rng.random() < 0.25,
                     prob=rng.choice((None, None, 0.0, 0.5, 1.0)))
        elif k == 'room':
            o.update(what=rng.choice(ROOMS), pos=[rng.randrange(-1, max(1, n // 8)) for _ in range(3)], o=rng.randrange(4),
                     flags=[rng.random() < 0.5 for _ in range(8)])
        elif k == 'fx':
            o.update(fx=rng.choice(('grid', 'decay', 'growth')), n=rng.choice((1, 2, 3, 5, 24)), p=rng.choice((0.0, 0.3, 0.5, 0.9, 1.0)))
        elif k == 'box':
            o.update(fx=rng.choice(('box', 'box_outline', 'endcap')), n=rng.choice((None, 1, 3, n)), pos=[rng.randrange(-1, n // 8 + 1) for _ in range(3)])
        elif k == 'badsave':
            o['at'] = rng.randrange(6)
            o['err'] = rng.choice(('ENOSPC', 'EIO', 'crash', 'KeyboardInterrupt'))
        ops.append(o)
    return {'n': n, 'map': S.gen_small_map(rng), 'ops': ops, 'ws': rng.choice((1, 1, 1, 2, 8)),
            'wchunk': rng.choice((None, None, 300)), 'rchunk': rng.choice((None, None, 500)),
            'rng': {'seed': rng.randrange(2 ** 32), 'mode': rng.choice(('natural', 'natural', 'mixed', 'low', 'high', 'runs')),
                    'p': rng.choice((0.1, 0.5, 0.9))}}


def six(t):
    return tuple(t) if isinstance(t, list) else (t,) * 6


class Kept:
    """The world, and what the simulator knows to be in it."""

    def __init__(self, n):
        from redeclipse.voxel import VoxelWorld
        self.n = n
        self.v = VoxelWorld(size=n)
        self.model = {}

    def adopt(self, what):
        """After a shape, room or effect: take over what it drew."""
        new = {}
        for k, q in self.v.world.items():
            c = tuple(k)
            if any(x != int(x) for x in c):
                fail('between', '%s put a voxel at %r, which is no whole position', what, c)
            new[tuple(int(x) for x in c)] = tuple(q.texture)
        self.model = new

    def agree(self, what):
        for p, t in self.model.items():
            q = self.v.get_point(*p)
            if q is None or tuple(q.texture) != t:
                fail('store', 'after %s the world does not have the voxel put at %r', what, p)
        if len(self.v.world) != len(self.model):
            fail('store', 'after %s the world has %d voxels, %d were put there', what, len(self.v.world), len(self.model))

    def inside(self):
        n = self.n
        return {p: t for p, t in self.model.items() if all(0 <= x < n for x in p)}


def compare(world, w, where):
    want = w.inside()
    try:
        got = formats.voxels(world, w.n)
    except formats.Bad as e:
        fail('tree', '%s: %s', where, e)
    if got != want:
        lost = sorted(set(want) - set(got))
        extra = sorted(set(got) - set(want))
        other = sorted(p for p in want if p in got and got[p] != want[p])
        fail('voxels', '%s of a world of size %d with %d voxels: %d lost %r, %d added %r, %d with other textures %r', where, w.n, len(want),
             len(lost), lost[:3], len(extra), extra[:3], len(other), other[:3])


def shape(o, w):
    from redeclipse.prefabs.construction_kit import ConstructionKitMixin
    from redeclipse.vector import CoarseVector, FineVector
    from redeclipse.vector.orientations import CARDINALS, ABOVE, BELOW
    kit = ConstructionKitMixin()
    kit.pos = CoarseVector(*o['pos'])
    kit.orientation = CARDINALS[o['o'] % 4]
    off = FineVector(*o['off'])
    s = o['sh']
    d = (list(CARDINALS) + [ABOVE, BELOW])[o['d'] % 6]
    a, kw = [], {}
    if s in ('column', 'dotted_column'):
        a = [d, o['len']]
    elif s in ('ceiling', 'floor'):
        kw = {} if o['len'] == 0 else {'size': o['len']}
    elif s in ('low_wall', 'wall'):
        a = [CARDINALS[o['d'] % 4]]
    elif s == 'ring':
        a = [max(2, o['len'])]
    elif s == 'rectangular_prism':
        a = [FineVector(*[max(1, x) for x in o['xyz']])]
    kw['tex'] = o['t']
    if o['sub']:
        kw['subtract'] = True
    if o['prob'] is not None:
        kw['prob'] = o['prob']
    kit.x(s, w.v, off, *a, **kw)


def run(sc, ctx):
    import random
    from redeclipse import MapParser, aftereffects
    from redeclipse.objects import cube
    from redeclipse.vector import CoarseVector, FineVector
    from sim.rng import StockRandom
    n = sc['n']
    if n < 2 or n & (n - 1):
        from sim.core import Invalid
        raise Invalid()
    ctx.random(sc['rng'])
    types = placement.Types({'specs': [], 'capspecs': []})
    disk = ctx.disk()
    w = Kept(n)
    m = maps.build_map(sc['map'])
    m.meta['worldsize'] = n * max(1, sc['ws'])
    saves = 0
    left = 40000

    def save(i):
        """Save and read back in a new process."""
        m.world = w.v.to_octree()
        m.write('w.mpz')
        disk.collect()
        world = formats.parse_mpz(disk.content('/sim/work/w.mpz'))['world']
        compare(world, w, 'the saved map')
        if len(w.model) <= 40000:
            disk.restart()
            back = MapParser().read('w.mpz')
            compare(maps.canon(back)['world'], w, 'the map read back')
        ctx.nontrivial = ctx.nontrivial or bool(w.inside())
        ctx.state('save', n, len(w.model), len({(x // (n // 2), y // (n // 2), z // (n // 2)) for x, y, z in w.inside()}))

    with fs.mounted(disk):
        disk.wchunk, disk.rchunk = sc['wchunk'] or None, sc['rchunk'] or None
        for o in sc['ops']:
            k = o['k']
            v = w.v
            # bound the work: effects and saves of large worlds are slow
            if k in ('fx', 'save', 'badsave'):
                cost = len(w.model) + n ** 3 // 4
                if cost > left:
                    continue
                left -= cost
            if k in ('set', 'setv', 'del', 'delv', 'same', 'aim'):
                at = tuple(o['at']) if 'at' in o else None
                op = k
                if k == 'aim':
                    if not w.model:
                        continue
                    keys = sorted(w.model)
                    at = keys[o['j'] % len(keys)]
                    op = o['v']
                if op == 'set':
                    v.set_point(*at, cube.newtexcube(tex=o['t']))
                elif op == 'setv':
                    v.set_pointv(FineVector(*at), cube.newtexcube(tex=o['t']))
                elif op == 'del':
                    v.del_point(*at)
                elif op == 'delv':
                    v.del_pointv(FineVector(*at))
                else:
                    c = cube.newtexcube(tex=o['t'])
                    v.set_point(*at, c)
                    v.set_pointv(FineVector(*o['to']), c)
                    w.model[tuple(o['to'])] = six(o['t'])
                if op in ('set', 'setv', 'same'):
                    w.model[at] = six(o['t'])
                else:
                    w.model.pop(at, None)
                w.agree(op)
            elif k == 'many':
                r = StockRandom(o['s'])
                for _ in range(o['n']):
                    at = tuple(gen_coord(r, n) for _ in range(3))
                    t = r.choice((0, 2, 3, r.randrange(65536), [r.randrange(9) for _ in range(6)]))
                    if r.random() < 0.5:
                        v.set_point(*at, cube.newtexcube(tex=t))
                    else:
                        v.set_pointv(FineVector(*at), cube.newtexcube(tex=t))
                    w.model[at] = six(t)
            elif k == 'clear':
                s = max(1, min(o['n'], n))
                for p in [p for p in w.model if all(o['at'][i] <= p[i] < o['at'][i] + s for i in range(3))]:
                    v.del_point(*p)
                    del w.model[p]
                w.agree('clearing a block')
            elif k == 'shape':
                shape(o, w)
                w.adopt('drawing a ' + o['sh'])
            elif k == 'room':
                room = types.make_room(o)

                class Entities:
                    ents = []
                room.render(v, Entities())
                w.adopt('drawing ' + o['what'])
            elif k == 'fx':
                f = getattr(aftereffects, o['fx'])
                if o['fx'] == 'grid':
                    f(v, max(1, o['n']))
                else:
                    f(v, lambda x, y, z: o['p'])
                w.adopt(o['fx'])
            elif k == 'box':
                f = getattr(aftereffects, o['fx'])
                if o['fx'] == 'endcap':
                    class Upm:
                        unoccupied = [(CoarseVector(*o['pos']), 'oriented', CoarseVector(1, 0, 0))]
                    f(v, Upm)
                elif n <= 64 or o['fx'] == 'box_outline':
                    f(v, o['n'])
                w.adopt(o['fx'])
            elif k == 'save':
                save(0)
                saves += 1
            elif k == 'badsave':
                disk.arm([{'at': o['at'], 'kind': o['err'], 'part': 0.5}])
                try:
                    m.world = v.to_octree()
                    m.write('w.mpz')
                except (OSError, KeyboardInterrupt, fs.SimCrash):
                    pass
                disk.disarm()
                disk.dead = False
                disk.collect()
                w.agree('a failed save')
            ctx.log(k, o.get('sh') or o.get('what') or o.get('fx'), len(w.model))
            ctx.state(k, o.get('sh') or o.get('what') or o.get('fx'), n, min(len(w.model), 50))
        w.agree('all operations')
        save(1)
        ctx.log('end', len(w.inside()), n)
        ctx.meta['size'] = n
