"""Random selection honours the weights and excludes nobody."""
from sim.core import fail, Invalid
from sim.rng import SIM
from . import placement, stats
from .placement import tup

RUNS = {'quick': 1500, 'thorough': 30000}
RULE = 'a run that made at least one random selection, with an event log unlike any other'
MEASURE = 'distinct (kind of selection, what was offered, random policy, which option came out)'
REAL = ['redeclipse.upm.UnusedPositionManager', 'redeclipse.prefabs (randOpts, transition weights)', 'redeclipse.prefabs.distributions',
        'redeclipse.vector']
STUB = ['random module source (simulated, seeded, outcomes forced on some draws)', 'time', 'tqdm progress bar (disabled)']
ASSUME = ['Weights are finite and not negative; an option of weight zero is only judged on unforced draws.',
          'Frequencies are judged on unforced seeded draws, each against a bound a correct source exceeds with probability below 1e-12.']


def gen_weights(rng):
    n = rng.choice((1, 2, 3, 5, 12, 40))
    k = rng.choice(('ints', 'tenths', 'floats', 'powers', 'tiny', 'huge', 'zeros', 'equal', 'one'))
    if k == 'ints':
        w = [rng.randrange(1, 20) for _ in range(n)]
    elif k == 'tenths':
        w = [rng.choice((0.1, 0.1, 0.2, 0.3, 0.7)) for _ in range(n)]
    elif k == 'floats':
        w = [rng.random() for _ in range(n)]
    elif k == 'powers':
        w = [rng.randrange(32) ** 5 for _ in range(n)]
    elif k == 'tiny':
        w = [rng.choice((1e-12, 1e-300, 0.1, 1e-16)) for _ in range(n)]
    elif k == 'huge':
        w = [rng.choice((1e16, 1.0, 1e17, 3.0)) for _ in range(n)]
    elif k == 'zeros':
        w = [rng.choice((0, 0, 1, 0.5)) for _ in range(n)]
    elif k == 'equal':
        w = [rng.choice((1, 0.1))] * n
    else:
        w = [0] * n
        w[rng.randrange(n)] = 1
    return w


def flagged():
    return ['p:' + r for r in placement.PROC]


def gen(rng, tier, index):
    kind = rng.choice(('choice', 'choice', 'door', 'stream', 'stream', 'stream', 'opts', 'opts', 'place'))
    natural = rng.random() < 0.6
    sc = {'kind': kind, 'rng': {'seed': rng.randrange(2 ** 32), 'mode': 'natural' if natural else rng.choice(('low', 'high', 'mid', 'mixed', 'runs')),
                                'p': rng.choice((0.1, 0.5, 0.9))}}
    if kind == 'choice':
        sc['w'] = gen_weights(rng)
        sc['n'] = rng.choice((200, 2000))
    elif kind == 'door':
        sc['doors'] = [[rng.randrange(32) for _ in range(3)] for _ in range(rng.choice((1, 2, 5, 30)))]
        sc['f'] = rng.choice(('nrp_flavour_vertical', 'nrp_flavour_plain', 'nrp_flavour_center_hole', 'random', 'w'))
        sc['w'] = gen_weights(rng)
        sc['n'] = rng.choice((200, 2000))
    elif kind in ('stream', 'opts'):
        specs = [placement.gen_spec(rng) for _ in range(rng.choice((1, 3, 6)))]
        cat = ['p:' + x for x in rng.sample(placement.PROC, rng.choice((1, 2, 5, 12)))]
        cat += ['m:' + x for x in rng.sample(placement.SMALL + placement.LARGE, rng.choice((0, 0, 2, 5)))]
        cat += ['s:%d' % i for i in range(len(specs))]
        sc.update(specs=specs, capspecs=[], cat=cat, man=rng.choice((None, None, 'TowerDistributionManager', 'UniformDistributionManager', 'PlatformDistributionManager')),
                  prevs=[{'what': rng.choice(cat), 'flags': [rng.random() < 0.5 for _ in range(8)], 'o': rng.randrange(4), 'pos': [5, 5, 5]}
                         for _ in range(rng.choice((1, 2, 4)))], n=rng.choice((30, 600)) if kind == 'stream' else 1100, one=rng.random() < 0.3)
        if kind == 'opts':
            sc['who'] = [rng.choice(flagged() + ['s:%d' % i for i in range(len(specs))]) for _ in range(2)]
            if rng.random() < 0.6:
                sc['prevs'][0]['what'] = sc['who'][0]
    else:
        g = placement.gen(rng, 'quick', index)
        flags = [c for c in g['phases'][0]['cat'] if not c.startswith('m:')] or ['p:NLongCorridor']
        sc.update(mirror=g['mirror'], specs=g['specs'], capspecs=[], cat=flags[:rng.choice((1, 2, 4))] + ['p:NLongCorridor'],
                  start=g['starts'][0], rooms=rng.choice((5, 20, 40)))
        sc['cat'] = list(dict.fromkeys(sc['cat']))
        if sc['start']['what'].startswith('m:'):
            sc['start']['what'] = sc['cat'][0]
    return sc


def pick(sc, ctx):
    from redeclipse.upm import UnusedPositionManager as U
    opts = [('option', i) for i in range(len(sc['w']))]
    if not opts:
        raise Invalid()
    judge(sc, ctx, 'weighted_choice', opts, sc['w'], lambda: U.weighted_choice(list(zip(opts, sc['w']))))


def judge(sc, ctx, what, opts, ws, draw):
    total = sum(ws)
    natural = sc['rng']['mode'] == 'natural'
    n = sc['n'] if natural else min(sc['n'], 60)
    counts = dict.fromkeys(opts, 0)
    weight = {}
    for o, w in zip(opts, ws):
        weight[o] = weight.get(o, 0) + w
    for _ in range(n):
        got = draw()
        if got not in counts:
            fail('not-offered', '%s of the weights %r gave %r', what, ws[:40], got)
        counts[got] += 1
    if natural and total > 0:
        for o, c in counts.items():
            if stats.wrong(c, n, weight[o] / total):
                fail('weights', '%s of the weights %r gave option %r of weight %g %d of %d times', what, ws[:40], o, weight[o], c, n)
        ctx.probe('frequency judged')
    for i, o in enumerate(counts):
        if counts[o]:
            ctx.state(what, len(opts), sc['rng']['mode'], i)
    ctx.log(what, ws, list(counts.values()))


def where(got):
    try:
        return tup(got[0])
    except TypeError:
        return repr(got)


def door(sc, ctx):
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    from redeclipse.vector.orientations import EAST
    u = UnusedPositionManager(256)
    if not sc['doors']:
        raise Invalid()
    u.occupied = {CoarseVector(1, 1, 1): None}
    u.unoccupied = [(CoarseVector(*p), None, EAST) for p in sc['doors']]
    # doors at the same place count together
    keys = [tuple(p) for p in sc['doors']]
    f = sc['f']
    if f == 'random':
        judge(sc, ctx, 'random_position', keys, [1] * len(keys), lambda: where(u.random_position()))
        return
    if f == 'w':
        table = {}
        for k, w in zip(keys, sc['w'] * len(keys)):
            table.setdefault(k, w)

        def flavour(x, y, z):
            return table[int(x), int(y), int(z)]
        ws = [table[k] for k in keys]
    else:
        flavour = getattr(u, f)
        ws = [{'nrp_flavour_vertical': lambda x, y, z: z ** 5, 'nrp_flavour_plain': lambda x, y, z: 1,
               'nrp_flavour_center_hole': lambda x, y, z: abs(x - 128) ** 5 + abs(y - 128) ** 5}[f](*k) for k in keys]
    judge(sc, ctx, 'nonrandom_position ' + f, keys, ws, lambda: where(u.nonrandom_position(flavour)))


def prepare(sc):
    import redeclipse.prefabs as P
    from redeclipse.prefabs import distributions
    types = placement.Types(sc)
    if sc['man']:
        P.DISTMAN = getattr(distributions, sc['man'])()
    prevs = []
    for s in sc['prevs']:
        r = types.make_room(dict(s, flags=s['flags'] or [True]))
        prevs.append(r)
    if not prevs or not sc['cat']:
        raise Invalid()
    return types, prevs, P.DISTMAN.transition_probabilities


def stream(sc, ctx):
    from redeclipse.upm import UnusedPositionManager
    types, prevs, table = prepare(sc)
    u = UnusedPositionManager(256)
    natural = sc['rng']['mode'] == 'natural'
    n = sc['n'] if natural else min(sc['n'], 20)
    # each previous room with its own part of the catalogue
    cats = []
    for i in range(len(prevs)):
        names = sc['cat'][i % 2:] or sc['cat']
        cats.append([types[x] for x in dict.fromkeys(names)])
    first = [dict() for _ in prevs]
    single = [dict() for _ in prevs]
    for _ in range(n):
        for i, prev in enumerate(prevs):
            offered = list(cats[i])
            got = list(u.random_room_stream(prev, offered))
            if len(got) != len(cats[i]) or set(got) != set(cats[i]):
                fail('stream', 'of %d offered types the order has %d, %d of them different', len(cats[i]), len(got), len(set(got)))
            if offered != cats[i]:
                fail('stream', 'ordering the offered types changed the catalogue')
            first[i][got[0]] = first[i].get(got[0], 0) + 1
            if sc['one']:
                r = u.random_room(prev, offered)
                if r not in cats[i]:
                    fail('not-offered', 'random_room gave %r', r)
                single[i][r] = single[i].get(r, 0) + 1
    for i, prev in enumerate(prevs):
        w = {c: table.get((prev.room_type, c.room_type), 0.1) for c in cats[i]}
        least = min(w.values())
        hi = {c: w[c] / least for c in w}
        lo = {c: int(hi[c] - 1e-9 * hi[c]) or 1 for c in w}
        lo = {c: (round(hi[c]) if abs(hi[c] - round(hi[c])) < 1e-12 else lo[c]) for c in w}
        # 0.3 over 0.1 is a hair below 3 and may count as 2
        lo = {c: min(lo[c], max(1, int(w[c] / least))) for c in w}
        if natural:
            for c in w:
                a = lo[c] / (lo[c] + sum(hi[d] for d in w if d is not c))
                b = hi[c] / (hi[c] + sum(lo[d] for d in w if d is not c))
                k = first[i].get(c, 0)
                if stats.wrong_range(k, n, a, b):
                    fail('order', 'after a %s room, a %s room (weight %g of %g) came first %d of %d times, it should %.3f to %.3f of them',
                         prev.room_type, c.room_type, w[c], sum(w.values()), k, n, a, b)
                if sc['one'] and stats.wrong(single[i].get(c, 0), n, w[c] / sum(w.values())):
                    fail('weights', 'after a %s room, random_room gave a %s room of weight %g of %g %d of %d times', prev.room_type, c.room_type,
                         w[c], sum(w.values()), single[i].get(c, 0), n)
            ctx.probe('frequency judged')
        ctx.state('stream', prev.room_type, len(cats[i]), sc['rng']['mode'], sc['man'])
        ctx.log('stream', prev.room_type, len(cats[i]), sorted(first[i].values()))


def opts(sc, ctx):
    types, prevs, table = prepare(sc)
    natural = sc['rng']['mode'] == 'natural'
    n = sc['n'] if natural else min(sc['n'], 40)
    for name in sc['who']:
        cls = types[name]
        base = getattr(cls, '_randflags', None)
        for prev in prevs:
            pf = list(getattr(prev, '_randflags', ()))
            seen = {}
            for _ in range(n):
                kw = cls.randOpts(prev)
                if base is None:
                    if kw:
                        fail('options', '%s has no options but got %r', name, kw)
                    break
                fl = [bool(x) for x in kw['randflags']]
                if set(kw) != {'randflags'} or len(fl) != len(base):
                    fail('options', '%s has %d options, %r were drawn', name, len(base), kw)
                if type(prev) is cls and sum(bool(a) != b for a, b in zip(pf, fl)) != 1:
                    fail('one-flag', '%s after one with the options %r got %r', name, pf, fl)
                seen[tuple(fl)] = seen.get(tuple(fl), 0) + 1
                if list(getattr(prev, '_randflags', ())) != pf:
                    fail('disturbed', 'drawing options changed those of the room before')
                if getattr(cls, '_randflags', None) != base:
                    fail('disturbed', 'drawing options changed the room type')
            if base is not None and natural:
                want = len(base) if type(prev) is cls else 2 ** len(base)
                if n > 30 * want and len(seen) != want:
                    fail('unreachable', '%d of %d combinations of the %d options of %s came out in %d draws after %s', len(seen), want,
                         len(base), name, n, type(prev).__name__)
                ctx.probe('all options reached')
            for fl in seen:
                ctx.state('opts', name if name[0] != 's' else len(base), fl, type(prev) is cls)
            ctx.log('opts', name, type(prev).__name__, sorted(seen.items()))


def place(sc, ctx):
    from redeclipse.upm import UnusedPositionManager
    types = placement.Types(sc)
    u = UnusedPositionManager(256, mirror=sc['mirror'] if sc['mirror'] in (1, 2, 4) else 1)
    SIM.cap = 500000
    b = types.make_room(dict(sc['start'], flags=sc['start']['flags'] or [True]))
    if not u.preregister_room(b):
        raise Invalid()
    u.register_room(b)
    cat = [types[c] for c in sc['cat']]
    if not cat:
        raise Invalid()
    u.place_rooms(False, cat, rooms=sc['rooms'])
    at = {}
    for r in u.rooms:
        # a room may lie beside its own position, at that of another room
        at[tup(r.pos)] = None if tup(r.pos) in at else r
    same = 0
    for a, c in u.links:
        p, r = at.get(tup(a)), at.get(tup(c))
        if p is None or r is None or type(p) is not type(r) or not hasattr(type(r), '_randflags'):
            continue
        same += 1
        d = sum(bool(x) != bool(y) for x, y in zip(p._randflags, r._randflags))
        if d != 1:
            fail('one-flag', '%s with the options %r was joined to one with %r', type(r).__name__, list(p._randflags), list(r._randflags))
    for r in u.rooms[1:]:
        if type(r) not in cat and type(r) is not type(b):
            fail('not-offered', 'a room of type %s was placed', type(r).__name__)
    ctx.probe('neighbours of one type', same)
    ctx.state('place', sc['mirror'], len(u.rooms), same)
    ctx.log('place', len(u.rooms), same)


def run(sc, ctx):
    ctx.random(sc['rng'])
    {'choice': pick, 'door': door, 'stream': stream, 'opts': opts, 'place': place}[sc['kind']](sc, ctx)
    ctx.nontrivial = True
