"""Decay only removes, growth only adds, as likely as asked."""
from sim.core import fail
from . import placement, stats
from .p05 import Kept, SHAPES, shape

RUNS = {'quick': 2000, 'thorough': 40000}
RULE = 'a run in which an effect or a shape drawn by chance affected at least one position, with an event log unlike any other'
MEASURE = 'distinct (operation, kind of position function or shape, random policy, world size, fraction affected in tenths)'
REAL = ['redeclipse.aftereffects', 'redeclipse.prefabs.construction_kit', 'redeclipse.voxel.VoxelWorld', 'redeclipse.vector']
STUB = ['random module source (simulated, seeded, outcomes forced on some draws)', 'time', 'tqdm progress bar (disabled)']
ASSUME = ['Frequencies and independence are judged on unforced seeded draws, each against a bound a correct source exceeds with probability below 1e-12.',
          'Growth fills up to the highest layer that ever held a voxel.']
FUNCS = ['const', 'levels', 'z', 'stripe', 'vertical_gradient', 'vertical_gradient2', 'vertical_gradient2inv', 'gradient3']
LEVELS = [-0.5, 0.0, 0.05, 0.25, 0.5, 0.75, 0.95, 1.0, 1.5]


def gen(rng, tier, index):
    n = rng.choice((2, 4, 8, 8, 16, 16, 32)) if index % 4 == 0 else rng.choice((4, 8, 8, 16))
    natural = rng.random() < 0.7
    ops = []
    for _ in range(rng.choice((1, 2, 4))):
        k = rng.choice(('decay', 'decay', 'growth', 'growth', 'shape', 'shape', 'fill', 'many'))
        o = {'k': k}
        if k in ('decay', 'growth'):
            o.update(f=rng.choice(FUNCS), p=rng.choice(LEVELS), s=rng.randrange(1000))
        elif k == 'shape':
            o.update(sh=rng.choice(SHAPES), pos=[rng.randrange(1, 5) for _ in range(3)], o=rng.randrange(4),
                     off=[rng.randrange(-4, 12) for _ in range(3)], d=rng.randrange(6), len=rng.choice((1, 3, 8, 20)),
                     xyz=[rng.randrange(1, 9) for _ in range(3)], t=rng.randrange(1000, 2000), sub=False,
                     p=rng.choice((0.0, 0.05, 0.3, 0.5, 0.7, 0.9, 0.99, 1.0, 1.1)), reps=rng.choice((1, 5, 20)), pre=rng.random() < 0.5)
        else:
            o.update(n=rng.choice((1, 5, 50)), s=rng.randrange(10 ** 6), out=rng.random() < 0.3)
        ops.append(o)
    return {'n': n, 'ops': ops, 'fill': rng.choice(('full', 'empty', 'some', 'half')), 'fs': rng.randrange(10 ** 6),
            'rng': {'seed': rng.randrange(2 ** 32), 'mode': 'natural' if natural else rng.choice(('low', 'high', 'mid', 'mixed', 'runs')),
                    'p': rng.choice((0.1, 0.5, 0.9))}}


def function(o):
    from redeclipse import aftereffects
    from sim.rng import StockRandom
    k = o['f']
    r = StockRandom(o['s'])
    if k == 'const':
        return lambda x, y, z: o['p']
    if k == 'levels':
        tab = [[[r.choice(LEVELS) for _ in range(4)] for _ in range(4)] for _ in range(4)]
        return lambda x, y, z: tab[int(x) // 4 % 4][int(y) // 4 % 4][int(z) // 4 % 4]
    if k == 'z':
        tab = [r.choice(LEVELS) for _ in range(7)]
        return lambda x, y, z: tab[int(z) % 7]
    if k == 'stripe':
        tab = [r.choice(LEVELS) for _ in range(3)]
        return lambda x, y, z: tab[(int(x) + 2 * int(y)) % 3]
    return getattr(aftereffects, k)


def cells(n, top):
    for x in range(n):
        for y in range(n):
            for z in range(top):
                yield x, y, z


def judge(what, hit, prob, ctx):
    """hit: {position: affected?}, prob: {position: chance}.  Frequencies per
    chance and per layer, and independence of neighbours."""
    groups = {}
    for p, h in hit.items():
        for key in ((round(prob[p], 9),), (round(prob[p], 9), 'x', p[0]), (round(prob[p], 9), 'y', p[1]), (round(prob[p], 9), 'z', p[2])):
            g = groups.setdefault(key, [0, 0])
            g[0] += h
            g[1] += 1
    for key, (h, n) in sorted(groups.items(), key=repr):
        if stats.wrong(h, n, key[0]):
            fail('frequency', '%s affected %d of %d positions%s where the chance is %g', what, h, n,
                 '' if len(key) == 1 else ' with %s=%d' % key[1:], key[0])
        ctx.probe('frequency judged')
    # Neighbours: disjoint pairs, both affected or both spared, as often as for
    # independent positions.
    for axis in range(3):
        pairs = {}
        for p, h in hit.items():
            if p[axis] % 2:
                continue
            q = tuple(c + (i == axis) for i, c in enumerate(p))
            if q in hit:
                a, b = round(prob[p], 9), round(prob[q], 9)
                g = pairs.setdefault((a, b), [0, 0])
                g[0] += h == hit[q]
                g[1] += 1
        for (a, b), (same, n) in sorted(pairs.items()):
            if stats.wrong(same, n, a * b + (1 - a) * (1 - b)):
                fail('independence', '%s treated %d of %d neighbouring pairs alike, chances %g and %g', what, same, n, a, b)


def effect(o, w, sc, ctx):
    from redeclipse import aftereffects
    v, n = w.v, sc['n']
    f = function(o)
    top = max([p[2] for p in w.ever] + [-1]) + 1
    top = min(n, top)
    before = dict(w.model)
    objs = {tuple(int(c) for c in k): q for k, q in v.world.items()}
    (aftereffects.decay if o['k'] == 'decay' else aftereffects.growth)(v, f)
    w.adopt(o['k'])
    after = w.model
    chance = {p: min(1.0, max(0.0, 1.0 - f(*p))) for p in cells(n, n)}
    what = '%s of a %d voxel world by %s %g' % (o['k'], n, o['f'], o['p'])
    hit = {}
    if o['k'] == 'decay':
        for p, t in after.items():
            if before.get(p) != t:
                fail('decay-adds', '%s %s the voxel at %r', what, 'altered' if p in before else 'added', p)
        for p in before:
            gone = p not in after
            if p not in chance:
                if gone and not all(0 <= c < n for c in p):
                    continue
            else:
                if gone and chance[p] <= 0.0:
                    fail('no-chance', '%s removed the voxel at %r, which has no chance', what, p)
                hit[p] = gone
    else:
        for p, t in before.items():
            if after.get(p) != t:
                fail('growth-removes', '%s %s the voxel at %r', what, 'altered' if p in after else 'removed', p)
        for p in after:
            if p not in before:
                if p not in chance:
                    fail('growth-leaves', '%s added a voxel at %r, outside the world', what, p)
                if chance[p] <= 0.0:
                    fail('no-chance', '%s added a voxel at %r, which has no chance', what, p)
        for p in cells(n, top):
            if p not in before:
                hit[p] = p in after
    if w.ever is not None:
        w.ever |= set(after)
    if sc['rng']['mode'] == 'natural':
        judge(what, hit, chance, ctx)
    k = sum(hit.values())
    if hit:
        ctx.nontrivial = ctx.nontrivial or k > 0
        ctx.state(o['k'], o['f'], sc['rng']['mode'], n, 10 * k // len(hit))
    ctx.log(o['k'], o['f'], o['p'], k, len(hit))


class Fresh:
    def __init__(self):
        self.v = None


def chance_shape(o, sc, ctx):
    from redeclipse.voxel import VoxelWorld
    from redeclipse.objects import cube
    def drawn(prob, pre=()):
        w = Fresh()
        w.v = VoxelWorld(size=64)
        for p in pre:
            w.v.set_point(*p, cube.newtexcube(tex=7))
        shape(dict(o, prob=prob), w)
        return {tuple(int(c) for c in k): tuple(q.texture) for k, q in w.v.world.items()}
    full = drawn(None)
    around = set()
    if o['pre']:
        for p in full:
            for d in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1)):
                around.add(tuple(a + b for a, b in zip(p, d)))
        around -= set(full)
        around = set(sorted(around)[:60])
    counts = dict.fromkeys(full, 0)
    total = hits = 0
    p = o['p']
    prev = None
    changed = pairs = 0
    natural = sc['rng']['mode'] == 'natural'
    for _ in range(o['reps']):
        got = drawn(p, around)
        for q, t in got.items():
            if q in around:
                if t != (7,) * 6:
                    fail('shape-outside', 'drawing %s with probability %g altered the voxel at %r, no part of the shape', o['sh'], p, q)
            elif q not in full:
                fail('shape-outside', 'drawing %s with probability %g put a voxel at %r, no part of the shape', o['sh'], p, q)
            elif t != full[q]:
                fail('shape-texture', 'drawing %s with probability %g gave %r other textures', o['sh'], p, q)
        for q in around:
            if q not in got:
                fail('shape-outside', 'drawing %s with probability %g removed the voxel at %r, no part of the shape', o['sh'], p, q)
        now = set(got) & set(full)
        hits += len(now)
        total += len(full)
        for q in now:
            counts[q] += 1
        if p >= 1 and now != set(full):
            fail('shape-certain', 'drawing %s with probability %g left out %d voxels', o['sh'], p, len(full) - len(now))
        if prev is not None:
            changed += len(prev ^ now)
            pairs += len(full)
        prev = now if prev is None else None
    if natural:
        if stats.wrong(hits, total, p):
            fail('shape-frequency', 'drawing %s with probability %g gave %d of %d voxels', o['sh'], p, hits, total)
        if stats.wrong(changed, pairs, 2 * min(p, 1) * (1 - min(p, 1))):
            fail('shape-independence', 'drawing %s twice with probability %g differed at %d of %d positions', o['sh'], p, changed, pairs)
        for q, c in sorted(counts.items()):
            if stats.wrong(c, o['reps'], p):
                fail('shape-frequency', 'drawing %s with probability %g gave the voxel at %r %d of %d times', o['sh'], p, q, c, o['reps'])
        order = sorted(full)
        ctx.probe('shape frequency judged')
        del order
    ctx.nontrivial = ctx.nontrivial or hits > 0
    ctx.state('shape', o['sh'], sc['rng']['mode'], p, 10 * hits // max(1, total))
    ctx.log('shape', o['sh'], p, hits, total)


def run(sc, ctx):
    from redeclipse.objects import cube
    from sim.rng import StockRandom
    n = sc['n']
    ctx.random(sc['rng'])
    w = Kept(n)
    w.ever = set()
    r = StockRandom(sc['fs'])

    def put(p, t):
        w.v.set_point(*p, cube.newtexcube(tex=t))
        w.model[p] = (t,) * 6
        w.ever.add(p)
    if sc['fill'] != 'empty':
        for p in cells(n, n):
            if sc['fill'] == 'full' or sc['fill'] == 'some' and r.random() < 0.2 or sc['fill'] == 'half' and p[2] < n // 2:
                put(p, r.randrange(50))
    for o in sc['ops']:
        k = o['k']
        if k in ('decay', 'growth'):
            effect(o, w, sc, ctx)
        elif k == 'shape':
            chance_shape(o, sc, ctx)
        else:
            q = StockRandom(o['s'])
            for _ in range(o['n']):
                p = tuple(q.randrange(n) for _ in range(3))
                if o['out'] and q.random() < 0.2:
                    p = tuple(q.choice((-1, n, n + 3, c)) for c in p)
                put(p, q.randrange(50))
            ctx.log(k, len(w.model))
