"""The same seed and arguments give the same map."""
import gc
import hashlib
import json
import os
import random

from sim import env, fs
from sim.core import fail, Invalid
from . import formats, placement
from . import storage as S

RUNS = {'quick': 230, 'thorough': 4000}
RULE = 'a run that generated a map of at least one placed room or fifty voxels in two differently disposed interpreters, with a result unlike any other'
MEASURE = 'distinct generated maps, and distinct (kind of generation, disposition of an interpreter)'
REAL = ['redeclipse.cli.magica_rooms (main, and as a program)', 'redeclipse.cli.perlin', 'redeclipse.cli.output', 'redeclipse.upm', 'redeclipse.prefabs',
        'redeclipse.aftereffects', 'redeclipse.textures', 'redeclipse.voxel', 'redeclipse.Map', 'redeclipse.magicavoxel', 'argparse, json, gzip, io, random of the standard library']
STUB = ['operating-system file interface (simulated disk, directory order)', 'clock, operating-system entropy, process number, environment',
        'tqdm progress bar (disabled)', 'hash seed and heap layout (chosen per interpreter)']
ASSUME = ['Maps are compared by content: of the .mpz the uncompressed payload, of the graph what it lists and joins (its identifiers are arbitrary names).',
          'Each generation is the first of its process, as in the programs of the library.',
          'That different seeds give different maps is judged on maps of many rooms and three seeds, where a coincidence is out of question.']
REDO = 4


def REDO_OK(i):
    return i % 240 >= 8         # the heavy ones are not repeated once more


VARS = ('HOME', 'USER', 'LANG', 'TZ', 'SEED', 'RANDOM', 'PYTHONHASHSEED', 'HOSTNAME', 'COLUMNS', 'REDECLIPSE', 'DEBUG', 'SOURCE_DATE_EPOCH')


def gen_env(rng, hashseed):
    return {'hash': hashseed, 'prior': rng.randrange(2 ** 32), 'draws': rng.choice((0, 0, 1, 7, 700)), 'clock': rng.choice((0, 1.5e9, 1.7e9, 4e9)) + rng.random() * 1e6,
            'tick': rng.choice((1e-6, 1e-3, 60.0)), 'entropy': rng.randrange(2 ** 32), 'junk': rng.randrange(2 ** 32), 'heap': rng.choice((0, 200, 2000, 10000)),
            'gc': rng.choice(('off', 'on', 'eager')), 'order': rng.randrange(2 ** 32), 'pid': rng.randrange(2, 4194304), 'cpus': rng.choice((1, 2, 8, 64)),
            'vars': {k: rng.choice(('', '0', '1', 'C', 'de_DE.UTF-8', '/sim/home', str(rng.randrange(10 ** 6)))) for k in rng.sample(VARS, rng.choice((0, 2, 6)))},
            'cwd': rng.choice(('/sim/work', '/sim/work', '/sim/tmp', '/sim/home'))}


def gen(rng, tier, index):
    k = index % 8
    hs = rng.sample([1 + 3 * k, 2 + 3 * k, 3 + 3 * k], 2)
    kind = 'pipe'
    if index % 240 < 8:         # the heavy ones, one for each worker
        kind = ('cli', 'main', 'main', 'main', 'cli', 'main', 'perlin', 'main')[index % 8]
    g = {'kind': kind}
    if kind == 'pipe':
        n = rng.choice((16, 16, 16, 32)) if rng.random() < 0.95 else 64
        cat = ['p:' + x for x in rng.sample(placement.PROC, rng.choice((3, 4, 8, len(placement.PROC))))]
        if rng.random() < 0.15:
            cat += ['m:' + x for x in rng.sample(placement.SMALL, 2)]
        rng.shuffle(cat)
        g.update(size=n, cat=cat, rooms=rng.choice((4, 12, 24, 40)) if all(c[0] == 'p' for c in cat) else 4, mirror=rng.choice((1, 1, 2, 4)),
                 start={'what': rng.choice(cat + ['p:SpawnRoom']), 'pos': rng.choice(([8, 8, 3], [2, 3, 1])), 'o': rng.randrange(4),
                        'flags': [rng.random() < 0.5 for _ in range(5)]},
                 caps=['p:' + x for x in rng.sample(placement.PROC, rng.choice((0, 0, 1, 2, 5)))],
                 fx=rng.sample(('decay', 'growth', 'grid'), rng.choice((0, 0, 1, 2))) if n <= 16 or rng.random() < 0.2 else [],
                 theme=rng.choice((None, None, None, 'minecraft', 'primary', 'default')), nvox=rng.choice((5, 60)), flavors=rng.sample(S.FLAVORS, rng.choice((0, 1, 2))),
                 draw=rng.random() < 0.8, shape=rng.choice((None, 'cube', 'column', 'wall', 'ring')))
    elif kind == 'main':
        g.update(size=256, rooms=rng.choice((8, 12)), mirror=rng.choice((1, 2, 2, 4)), ctf=rng.random() < 0.3, debug=rng.random() < 0.15,
                 flavors=rng.sample(S.FLAVORS, rng.choice((0, 1, 2))))
    elif kind == 'cli':
        g.update(argv=['--rooms', str(rng.choice((4, 8)))] + rng.choice(([], ['--mirror', '4'], ['--ctf'], ['--flavor', 'space_station', 'maliwan'])))
    else:
        g.update(ij=rng.choice((8, 16, 24)), k=rng.choice((34, 40)))
    s = rng.choice((rng.randrange(2 ** 31), rng.randrange(100), 42))
    seeds = []
    if kind == 'pipe' and g['rooms'] >= 12 and rng.random() < 0.5 or kind == 'main' and index % 8 in (1, 5):
        w = rng.choice((1, 2, 8, 16, 24))
        seeds = [s + (1 << w) * rng.choice((1, 3)), s + (5 << w)] if rng.random() < 0.6 else [s + 1, s + 2]
    return {'gen': g, 'seed': s, 'other': seeds, 'env': [gen_env(rng, h) for h in hs], 'rng': {'seed': 1}}


def worker(indices):
    """Start this worker's interpreters before its first run."""
    from sim import zygote
    for h in sorted({1 + 3 * (i % 8) + d for i in indices[:8] for d in range(3)}) if len(indices) else ():
        zygote.get(h)


# -- in the interpreter under comparison -----------------------------------------
def dispose(e):
    """Give this process the disposition described by e."""
    import time
    from sim import clock, rng
    rng.SIM.begin('prior/%s' % e['prior'], cap=3_000_000)
    for _ in range(e['draws']):
        random.random()
    rng.set_entropy(e['entropy'])
    clock.CLOCK.set(e['clock'])
    clock.CLOCK.tick = e['tick']
    os.getpid = lambda: e['pid']
    os.getppid = lambda: e['pid'] // 2
    os.cpu_count = lambda: e['cpus']
    os.environ.update(e['vars'])
    time.tzset()
    gc.enable()
    if e['gc'] == 'off':
        gc.disable()
    elif e['gc'] == 'eager':
        gc.set_threshold(50, 2, 2)
    global _kept
    _kept = env.litter(rng.StockRandom('junk/%s' % e['junk']), e['heap'])
    disk = fs.Disk(rand=rng.StockRandom('order/%s' % e['order']))
    disk.cwd = e['cwd']
    return disk


def sha(b):
    return hashlib.sha256(b if isinstance(b, bytes) else repr(b).encode()).hexdigest()[:20]


def describe(v, m, upm, man):
    out = {}
    if upm is not None:
        out['layout'] = [[type(r).__name__, getattr(r, 'name', None), list(map(str, r.pos)), list(map(str, r.orientation)),
                          None if getattr(r, '_randflags', None) is None else [bool(f) for f in r._randflags]] for r in upm.rooms]
        out['links'] = [[list(map(str, a)), list(map(str, b))] for a, b in upm.links]
        out['doors'] = sorted([list(map(str, p)), list(map(str, o))] for p, r, o in upm.unoccupied)
    if v is not None:
        w = sorted((tuple(map(int, k)), tuple(q.texture)) for k, q in v.world.items())
        out['voxels'] = [len(w), sha(w)]
    if m is not None:
        out['entities'] = [[type(x).__name__, sha(sorted((a, repr(b)) for a, b in vars(x).items() if isinstance(b, (int, float, str, bytes))))] for x in m.ents]
        out['extra'] = list(m.cfg_extra)
    if man is not None:
        out['palette'] = [[i, type(t).__name__, sorted((a, repr(b)) for a, b in vars(t).items() if isinstance(b, (int, float, str, tuple)))]
                          for i, t in man.atlas.items()]
    return out


def files(disk, before):
    """Contents of the written files, without what is arbitrary in them."""
    import zlib
    out = {}
    for p, d in sorted(disk.snapshot().items()):
        if before.get(p) == d:
            continue
        if p.endswith('.mpz'):
            d = zlib.decompressobj(31).decompress(d)
        elif p.endswith('.json'):
            g = json.loads(d)
            num = {}
            for q in g['nodes']:
                num.setdefault(repr(q['id']), len(num))
                q['id'] = num[repr(q['id'])]
            for k in g['links']:
                k['source'], k['target'] = num.get(repr(k['source'])), num.get(repr(k['target']))
            d = json.dumps(g, sort_keys=True).encode()
        out[p] = [len(d), sha(d)]
    return out


def generate(g, seed, e):
    import argparse
    import types
    from redeclipse import prefabs, textures, worldflavors, aftereffects, cli
    from redeclipse.objects import cube
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.voxel import VoxelWorld
    disk = dispose(e)
    with open(os.path.join(env.REPO, 'maps', 'empty-day.mpz'), 'rb') as h:
        disk.put('/sim/work/in.mpz', h.read())
    before = disk.snapshot()
    out = {'error': None}
    v = m = upm = None
    man = prefabs.TEXMAN
    with fs.mounted(disk):
        try:
            if g['kind'] == 'pipe':
                random.seed(seed)
                m = cli.parse('/sim/work/in.mpz')
                v = VoxelWorld(size=g['size'])
                worldflavors.update(m, g['flavors'])
                upm = UnusedPositionManager(256, mirror=g['mirror'])
                ty = placement.Types({'specs': [], 'capspecs': []})
                upm.register_room(ty.make_room(g['start']))
                upm.place_rooms(False, [ty[c] for c in g['cat']], rooms=g['rooms'])
                if g['caps']:
                    upm.endcap(False, [ty[c] for c in g['caps']])
                for r in upm.rooms:
                    if not hasattr(r, 'name'):
                        r.name = type(r).__name__       # the graph export needs one
                if g['draw']:
                    for r in upm.rooms:
                        r.render(v, m)
                for f in g['fx']:
                    if f == 'grid':
                        aftereffects.grid(v, 5)
                    else:
                        getattr(aftereffects, f)(v, aftereffects.vertical_gradient2 if f == 'decay' else lambda x, y, z: 0.1)
                if g['theme']:
                    man = getattr(textures, {'minecraft': 'MinecraftThemedTextureManager', 'primary': 'PrimaryThemedTextureManager',
                                             'default': 'DefaultThemedTextureManager'}[g['theme']])()
                    v = VoxelWorld(size=g['size'])
                    for k in range(g['nvox']):
                        t = man.get_c(('generic', 'column', 'floor', 'wall', 'accent', '?')[k % 6])
                        v.set_point(k % g['size'], k // g['size'], k % 7, cube.newtexcube(tex=t))
                if g['shape']:
                    from redeclipse.vector import FineVector, CoarseVector
                    from redeclipse.vector.orientations import ABOVE
                    r = prefabs.Room(pos=CoarseVector(0, 0, 0))
                    kw = {'length': 6, 'direction': ABOVE} if g['shape'] == 'column' else {}
                    try:
                        r.x(g['shape'], v, FineVector(1, 1, 1), tex=1, prob=0.5, **kw)
                    except TypeError:
                        r.x('cube', v, FineVector(1, 1, 1), tex=1, prob=0.5)
            elif g['kind'] == 'main':
                from redeclipse.cli import magica_rooms
                with open('/sim/work/in.mpz') as h:
                    v, m, upm = magica_rooms.main(h, size=g['size'], seed=seed, rooms=g['rooms'], debug=g['debug'], ctf=g['ctf'],
                                                  mirror=g['mirror'], flavor=g['flavors'])
            elif g['kind'] == 'cli':
                import runpy
                import sys
                sys.argv = ['magica_rooms.py', '/sim/work/in.mpz', '--mpz_out', '/sim/work/o.mpz', '--magica', '/sim/work/o.vox', '--graph', '/sim/work/o.json',
                            '--seed', str(seed)] + g['argv']
                runpy.run_path(os.path.join(env.PKG, 'cli', 'magica_rooms.py'), run_name='__main__')
            else:
                import runpy
                import sys
                with open(os.path.join(env.PKG, 'cli', 'perlin.py')) as h:
                    src = h.read()
                ns = {'__name__': 'perlin', '__file__': 'perlin.py'}
                sys.argv = ['perlin.py', '/sim/work/in.mpz', '/sim/work/o.mpz']
                err, sys.stderr = sys.stderr, open(os.devnull, 'w')
                exec(compile(src, os.path.join(env.PKG, 'cli', 'perlin.py'), 'exec'), ns)
                ns['IJ_SIZE'], ns['K_SIZE'] = g['ij'], g['k']       # a smaller landscape
                random.seed(22)                 # as its first statement does
                ns['main']()
            if g['kind'] in ('pipe', 'main') and not (g['kind'] == 'main' and g['size'] > 128):
                ap = argparse.ArgumentParser()
                cli.output_args(ap)
                colours = all(hasattr(t, 'r') for t in man.atlas.values())
                args = ap.parse_args(['--mpz_out', '/sim/work/o.mpz', '--graph', '/sim/work/o.json'] + (['--magica', '/sim/work/o.vox'] if colours else []))
                cli.output(v, m, upm, types.SimpleNamespace(TEXMAN=man), args)
            elif g['kind'] == 'main':
                from redeclipse.magicavoxel.writer import to_magicavoxel
                man.emit_conf(open('/sim/work/o.cfg', 'w'))
                with open('/sim/work/o.vox', 'wb') as h:
                    to_magicavoxel(v, h, man)
        except SystemExit as x:
            out['error'] = 'SystemExit: %s' % x
        except Exception as x:
            out['error'] = '%s: %s' % (type(x).__name__, str(x)[:300])
    out.update(describe(v, m, upm, man))
    out['files'] = {} if out['error'] else files(disk, before)
    return out


def produce(req):
    return generate(req['gen'], req['seed'], req['env'])


# -- the comparison ----------------------------------------------------------------
def differing(a, b):
    for k in a:
        if a[k] != b.get(k):
            x, y = a[k], b.get(k)
            if isinstance(x, list) and isinstance(y, list):
                if len(x) != len(y):
                    return k, '%d against %d entries' % (len(x), len(y))
                for i, (p, q) in enumerate(zip(x, y)):
                    if p != q:
                        return k, 'entry %d: %r against %r' % (i, p, q)
            if isinstance(x, dict):
                for p in sorted(set(x) | set(y)):
                    if x.get(p) != y.get(p):
                        return k, '%s: %r against %r' % (p, x.get(p), y.get(p))
            return k, '%r against %r' % (x, y)
    return None


def run(sc, ctx):
    from sim import zygote
    g = sc['gen']
    if g['kind'] == 'pipe' and not g['cat']:
        raise Invalid()
    got = []
    for e in sc['env']:
        r = zygote.get(e['hash']).ask({'module': 'props.p13', 'gen': g, 'seed': sc['seed'], 'env': e})
        if 'harness' in r:
            raise AssertionError(r['harness'])
        got.append(r)
        ctx.log('generated', g['kind'], e['hash'], sha(r))
        ctx.state(g['kind'], e['hash'], e['gc'], e['heap'], e['draws'], len(e['vars']))
        ctx.fault('disposition: hash seed, entropy, clock, earlier draws')
        if e['heap']:
            ctx.fault('disposition: heap layout')
        if e['gc'] != 'on':
            ctx.fault('disposition: garbage collection %s' % e['gc'])
        if e['vars']:
            ctx.fault('disposition: environment variables')
    a = got[0]
    for i, b in enumerate(got[1:]):
        d = differing(a, b)
        if d:
            fail('differs-' + d[0], 'seed %d gave two different maps in two processes: %s: %s', sc['seed'], *d)
    if not got:
        return
    ctx.state('map', sha(a))
    if a['error']:
        ctx.probe('generation failed: ' + a['error'][:60])
    if len(a.get('layout', ())) > 1 or a.get('voxels', [0])[0] >= 50 or a['files']:
        ctx.nontrivial = not a['error']
    # different seeds
    groups = len(a.get('layout', ())) // g.get('mirror', 1) if not a['error'] else 0
    if sc['other'] and groups >= (5 if g['kind'] == 'main' else 11) and len(g.get('cat', range(4))) >= 3:
        same = 0
        for s in sc['other']:
            r = zygote.get(sc['env'][0]['hash']).ask({'module': 'props.p13', 'gen': g, 'seed': s, 'env': sc['env'][0]})
            if 'harness' in r:
                raise AssertionError(r['harness'])
            same += r == a
        ctx.probe('other seeds tried', len(sc['other']))
        if same == len(sc['other']) >= 2 and len({sc['seed'], *sc['other']}) == len(sc['other']) + 1:
            fail('seed-ignored', 'seeds %d, %s all gave the same map of %d rooms', sc['seed'], ', '.join(map(str, sc['other'])), len(a['layout']))
