"""The exported files of one map agree with each other."""
import argparse
import os
import types as _types
from collections import Counter

from sim import env, fs
from sim.core import fail, Invalid
from . import formats, maps, placement
from . import storage as S

RUNS = {'quick': 600, 'thorough': 20000}
RULE = 'a run that exported at least two maps, or one map again after an edit or a failed attempt, with an event log unlike any other'
MEASURE = 'distinct (files asked for, manager, rooms, voxels, textures, flavours of an export) and distinct (error, operation it hit)'
REAL = ['redeclipse.cli.output', 'redeclipse.textures', 'redeclipse.worldflavors', 'redeclipse.Map', 'redeclipse.voxel', 'redeclipse.magicavoxel.writer',
        'redeclipse.upm (generation)', 'redeclipse.prefabs (rooms, entities, lights)', 'argparse, json, gzip, shutil, io of the standard library']
STUB = ['operating-system file interface (simulated disk with failing and short operations)', 'process death', 'random, time',
        'tqdm progress bar (disabled)']
ASSUME = ['Worlds of size 16 to 64; what lies outside the world is left out of the map, what lies outside 0 to 255 out of the model.',
          'Texture images in the shared data directory belong to no map; P20 covers them.',
          'The voxel model is only asked for when the textures have colours.']
MANS = {'own': 'AutomatedMagicaTextureManager', 'primary': 'PrimaryThemedTextureManager', 'minecraft': 'MinecraftThemedTextureManager',
        'default': 'DefaultThemedTextureManager'}
NAMES = ['a', 'b', 'a.a', 'dir/a', 'd.d/a', 'ab', 'dir/b', 'long name', 'v.mpz.2', 'maps.mpz/a', 'x.mpz']
ERRS = ('EACCES', 'EMFILE', 'ENOSPC', 'EROFS', 'EIO', 'EDQUOT', 'crash', 'crash', 'KeyboardInterrupt', 'full')


def gen_gen(rng, tier):
    n = rng.choice((8, 16, 16, 16, 32)) if rng.random() < 0.96 else 64
    if rng.random() < 0.45:
        man = rng.choice(('shared', 'shared', 'own', 'primary', 'minecraft', 'default', 'default'))
        return {'how': 'voxels', 'man': man, 'size': n, 'vox': [[rng.randrange(n) if rng.random() < 0.95 else rng.choice((-1, n, 255, 256)) for _ in range(3)]
                                                               + [rng.random()] for _ in range(rng.choice((0, 1, 5, 30, 150)))],
                'rooms': rng.choice((0, 1, 2, 5))}
    cat = ['p:' + x for x in rng.sample(placement.PROC, rng.choice((1, 2, 4)))]
    if rng.random() < 0.07:
        cat.append('m:' + rng.choice(placement.SMALL))
    return {'how': 'rooms', 'man': 'shared', 'size': n, 'cat': cat, 'rooms': rng.choice((0, 1, 2, 3, 6)), 'mirror': rng.choice((1, 1, 1, 2, 4)),
            'start': {'what': rng.choice(cat + ['p:SpawnRoom']), 'pos': [rng.randrange(0, n // 8), rng.randrange(0, n // 8), rng.randrange(0, 2)],
                      'o': rng.randrange(4), 'flags': [rng.random() < 0.5 for _ in range(5)]},
            'draw': rng.choice((1.0, 1.0, 0.5))}


def gen(rng, tier, index):
    n = rng.choice((1, 2, 2, 3))
    ms = []
    for _ in range(n):
        m = S.gen_small_map(rng)
        if rng.random() < 0.5:
            m['ents'] = m['ents'][:2]
        ms.append({'map': m, 'gen': gen_gen(rng, tier), 'flavors': rng.sample(S.FLAVORS, rng.choice((0, 1, 2, 3))) if rng.random() < 0.85 else [rng.choice(S.FLAVORS) for _ in range(3)]})
    ops = []
    name = rng.randrange(len(NAMES))
    for _ in range(rng.choice((1, 2, 3, 5))):
        o = {'m': rng.randrange(n), 'v': rng.choice((name, name, name, rng.randrange(len(NAMES)))),
             'files': rng.choice((['mpz', 'vox', 'json'], ['mpz', 'vox', 'json'], ['mpz', 'vox', 'json'], ['mpz'], ['mpz', 'json'], ['mpz', 'vox'], ['vox', 'json'])),
             'edit': rng.choice((None, None, 'voxel', 'colour', 'delete', 'ent', 'var', 'clear')), 'e': rng.random(), 'fault': None,
             'retry': rng.random() < 0.8, 'gc': rng.choice(('now', 'now', 'after')),
             'wchunk': rng.choice((None, None, 2000, 300)), 'ext': rng.choice(('.mpz', '.mpz', '.mpz', ''))}
        if rng.random() < 0.5:
            o['fault'] = {'kind': rng.choice(ERRS), 'frac': rng.random(), 'part': rng.choice((0, 0.3, 0.9)), 'sticky': rng.random() < 0.3,
                          'of': rng.choice((None, None, 'open-w', 'open-w', 'close-w', 'close-w', 'write', 'open-r', 'mkdir', 'chmod', 'rename', 'close-r')),
                          'line': rng.choice((None, None, None, int(10 ** rng.uniform(0, 4.5))))}
        ops.append(o)
    return {'maps': ms, 'ops': ops, 'rng': {'seed': rng.randrange(2 ** 32), 'mode': rng.choice(('natural', 'natural', 'mixed')), 'p': 0.1}}


class Export:
    """A generated map with everything that is exported with it."""

    def __init__(self, j, i, ctx):
        from redeclipse import prefabs, textures, worldflavors
        from redeclipse.upm import UnusedPositionManager
        from redeclipse.voxel import VoxelWorld
        from redeclipse.vector import CoarseVector
        self.i, self.j = i, j
        g = j['gen']
        self.m = maps.build_map(j['map'])
        self.m.meta['worldsize'] = max(self.m.meta['worldsize'], 2 * g['size'])
        worldflavors.update(self.m, j['flavors'])
        self.extra = [' '.join(x.split()) for f in j['flavors'] for x in getattr(worldflavors, f)()]
        self.v = VoxelWorld(size=g['size'])
        self.colour = {}            # number -> colour it was asked for
        if g['man'] == 'shared':
            self.prefabs, self.man = prefabs, prefabs.TEXMAN
        else:
            self.man = getattr(textures, MANS[g['man']])()
            self.prefabs = _types.SimpleNamespace(TEXMAN=self.man)
        if g['how'] == 'rooms':
            types = placement.Types({'specs': [], 'capspecs': []})
            self.upm = UnusedPositionManager(256, mirror=g['mirror'])
            try:
                self.upm.register_room(types.make_room(g['start']))
            except Exception:
                raise Invalid()     # does not fit there
            self.upm.place_rooms(False, [types[c] for c in g['cat']], rooms=g['rooms'])
            for r in self.upm.rooms:
                r.render(self.v, self.m)
        else:
            self.upm = UnusedPositionManager(256, mirror=1)
            prev = None
            for k in range(g['rooms']):
                r = prefabs.Room(pos=CoarseVector(2 + k, 3, 3))
                self.upm.register_room(r)
                if prev is not None:
                    self.upm.register_link(prev, r)
                prev = r
            for x, y, z, c in g['vox']:
                self.put(x, y, z, c)
        for k, r in enumerate(self.upm.rooms):
            r.name = 'map%d-room%d' % (i, k)

    def put(self, x, y, z, c):
        from redeclipse.objects import cube
        g = self.j['gen']
        if g['man'] in ('shared', 'own'):
            rgb = (round(c, 1), 0.5, 0.25)
            n = self.man.get_colour(*rgb)
            self.colour[n] = rgb
        elif g['man'] == 'default':
            n = self.man.get(('tex4', 'tex5', 'tex6', 'tex7', 'tex9', 'tex92', 'tex100')[int(c * 7)])
        elif g['man'] == 'primary':
            n = self.man.get(('gray', 'white', 'red', 'blue', 'cyan')[int(c * 5)])
        else:
            n = self.man.get_c(('generic', 'column', 'floor', 'wall', 'accent')[int(c * 5)])
        self.v.set_point(x, y, z, cube.newtexcube(tex=n))

    def edit(self, what, e):
        from redeclipse.entities import Sunlight
        keys = sorted((tuple(k) for k in self.v.world), key=repr)
        n = self.v.size
        if what == 'voxel':
            self.put(int(e * n), int(e * 7919) % n, int(e * 104729) % n, e)
        elif what == 'colour':
            self.put(int(e * 7919) % n, int(e * n), 0, e * 0.37)
        elif what == 'delete' and keys:
            self.v.del_point(*keys[int(e * len(keys))])
        elif what == 'clear':
            for k in keys:
                if k[0] < n // 2:
                    self.v.del_point(*k)
        elif what == 'ent':
            self.m.ents.append(Sunlight(red=int(e * 256), green=128, blue=1, offset=45))
        elif what == 'var':
            self.m.map_vars[b'v%d' % int(e * 100)] = int(e * 1000)

    def colours(self):
        return all(hasattr(t, 'r') for t in self.man.atlas.values())


def outputs(e, o):
    files = [f for f in o['files'] if f != 'vox' or e.colours()]
    base = NAMES[(e.i + o['v']) % len(NAMES)]
    out = {}
    for f in files:
        out[f] = base + ('.' + f if f != 'mpz' else o['ext'])
    if 'mpz' in out and (out['mpz'] == base and '.' in os.path.basename(base)):
        out['mpz'] = base + '.mpz'      # a name like a.a is its own extension
    return out


def paths(out):
    p = {f: '/sim/work/' + n for f, n in out.items()}
    if 'mpz' in p:
        p['cfg'] = os.path.splitext(p['mpz'])[0] + '.cfg'
    return p


def whole(ents, got):
    """Attributes are whole numbers in the file; rooms give some others."""
    if len(ents) != len(got):
        return ents
    return tuple(x[:3] + (tuple(b if a != int(a) and abs(a - b) < 1 else a for a, b in zip(x[3], y[3])) + x[3][len(y[3]):],) + x[4:]
                 for x, y in zip(ents, got))


def check(e, p, disk, ctx, again):
    """The files on disk, decoded independently, against each other and
    against the generated map."""
    data = {}
    for f, path in p.items():
        data[f] = disk.content(path)
        if data[f] is None:
            fail('missing', 'the export returned and left no %s', path)
    got = {}
    for f, dec in (('mpz', formats.parse_mpz), ('cfg', formats.parse_slots), ('vox', formats.parse_vox), ('json', formats.parse_json)):
        if f in data:
            try:
                got[f] = dec(data[f])
            except formats.Bad as x:
                fail('unreadable', '%s: %s', p[f], x)
            except (ValueError, UnicodeDecodeError, IndexError, KeyError) as x:
                fail('unreadable', '%s: %s: %s', p[f], type(x).__name__, x)
    world = {tuple(int(c) for c in k): tuple(q.texture) for k, q in e.v.world.items()}
    n = e.v.size
    slots = None
    if 'mpz' in got:
        g = got['mpz']
        c = maps.touch(maps.canon(e.m))
        c['world'] = g['world']
        c['ents'] = whole(c['ents'], g['ents'])
        bad = maps.diff(c, g)
        if bad:
            fail('map', '%s: %s', p['mpz'], bad)
        want = {k: t for k, t in world.items() if all(0 <= x < n for x in k)}
        vox = formats.voxels(g['world'], n)
        if vox != want:
            fail('map', '%s holds %d voxels, the world %d, or they differ', p['mpz'], len(vox), len(want))
        slots, tail = got['cfg']
        if tail != e.extra:
            fail('flavours', '%s ends with %r, the flavours %r need %r', p['cfg'], tail, e.j['flavors'], e.extra)
        used = {t for ts in vox.values() for t in ts}
        for t in sorted(used):
            if t >= len(slots):
                fail('undefined', '%s uses texture %d, %s defines %d', p['mpz'], t, p['cfg'], len(slots))
            if t in e.colour and slots[t]['colour'] != e.colour[t]:
                fail('texture', '%s uses texture %d, asked for as %r, which %s defines as %r', p['mpz'], t, e.colour[t], p['cfg'], slots[t])
        for t in sorted(used):
            tex = e.man.atlas[t]
            for ty in 'cnsz':
                fn = getattr(tex, ty, None)
                if isinstance(fn, str) and not slots[t]['images'].get(ty, '').endswith('/' + fn):
                    fail('texture', '%s: texture %d is %s, defined as %r', p['cfg'], t, type(tex).__name__, slots[t])
    if 'vox' in got:
        g = got['vox']
        want = Counter(k for k in world if all(0 <= x <= 255 for x in k))
        vox = Counter(q[:3] for q in g['voxels'])
        if vox != want:
            fail('model', '%s shows %d voxels, the world has %d in range, or they differ', p['vox'], sum(vox.values()), len(want))
        for x, y, z, c in g['voxels']:
            t = world[x, y, z][0]
            tex = e.man.atlas[t]
            rgb = e.colour.get(t) or (slots[t]['colour'] if slots and slots[t]['colour'] else (tex.r, tex.g, tex.b))
            if any(abs(g['palette'][c - 1][i] - 255 * rgb[i]) >= 1 + 1e-6 for i in range(3)):
                fail('model', '%s shows voxel %r in colour %r, its texture %d has %r', p['vox'], (x, y, z), g['palette'][c - 1], t, rgb)
    if 'json' in got:
        g = got['json']
        ids = [q['id'] for q in g['nodes']]
        if len(set(map(repr, ids))) != len(ids):
            fail('graph', '%s lists an identifier twice', p['json'])
        names = Counter(q['label'] for q in g['nodes'])
        rooms = Counter(r.name for r in e.upm.rooms)
        if names - rooms - Counter(['None']) or rooms - names:
            fail('graph', '%s lists %d rooms, the map has %d, or they differ', p['json'], len(ids), len(e.upm.rooms))
        label = {repr(q['id']): q['label'] for q in g['nodes']}
        pairs = Counter()
        for k in g['links']:
            for end in ('source', 'target'):
                if repr(k[end]) not in label:
                    fail('graph', '%s joins something that is not listed', p['json'])
            pairs[frozenset((label[repr(k['source'])], label[repr(k['target'])]))] += 1
        want = Counter()
        for a, b in e.upm.links:
            want[frozenset(getattr(e.upm.occupied.get(q), 'name', 'None') for q in (a, b))] += 1
        if set(pairs) != set(want):
            fail('graph', '%s joins %r, the map joins %r', p['json'], sorted(map(sorted, set(pairs) - set(want)))[:3], sorted(map(sorted, set(want) - set(pairs)))[:3])
    ctx.state(sorted(p), e.j['gen']['man'], len(e.upm.rooms), len(world), len(e.man.atlas), sorted(e.j['flavors']))
    ctx.log('checked', e.i, sorted(p), len(world), len(e.upm.rooms))


def export(e, o, disk, ctx, sizes):
    from redeclipse.cli import output, output_args
    out = outputs(e, o)
    if not out:
        return False
    p = paths(out)
    p['json'] = p.get('json')
    p = {k: v for k, v in p.items() if v}
    before = disk.snapshot()
    pending = False
    for attempt in range(2):
        f = o['fault'] if attempt == 0 else None
        ap = argparse.ArgumentParser()
        output_args(ap)
        args = ap.parse_args([x for k, flag in (('mpz', '--mpz_out'), ('vox', '--magica'), ('json', '--graph')) if k in out for x in (flag, out[k])])
        disk.wchunk = o['wchunk']
        if f and f['line'] is not None:
            disk.arm()
            env.STEPS.interrupt(f['line'], KeyboardInterrupt)
        elif f and f['kind'] == 'full':
            disk.arm()
            disk.capacity = disk.used() + int(f['frac'] * 20000)
        elif f:
            disk.arm([{'at': int(f['frac'] ** 2 * (8 if f['of'] else 60)), 'of': f['of'], 'kind': f['kind'], 'part': f['part'], 'sticky': f['sticky']}])
        err = None
        try:
            output(e.v, e.m, e.upm, e.prefabs, args)
        except (OSError, KeyboardInterrupt, fs.SimCrash) as x:
            err = x
        finally:
            env.STEPS.calm()
        last = disk.log[-1][:1] if f and disk.log else None
        hit = f and (f['line'] is not None or disk.fired)
        disk.heal()
        ctx.log('export', e.i, sorted(out.items()), type(err).__name__, last)
        if err is None:
            break
        if not hit:
            raise err
        pending = True
        ctx.state(type(err).__name__, last)
        ctx.fault('export killed' if isinstance(err, fs.SimCrash) else 'export interrupted' if isinstance(err, KeyboardInterrupt) else 'export failed')
        del err
        if disk.dead:
            disk.restart()
        elif o['gc'] == 'now':
            disk.collect()
        unharmed(e, p, before, disk, 'a failed export of map %d' % e.i)
        if not o['retry']:
            return False
    else:
        raise AssertionError
    disk.collect()
    disk.restart()
    check(e, p, disk, ctx, pending)
    unharmed(e, p, before, disk, 'the export of map %d' % e.i)
    return True


def unharmed(e, p, before, disk, what):
    mine = set(p.values())
    for q, d in before.items():
        if q not in mine and S.TEXDIR not in q and disk.content(q) != d:
            fail('bystander', '%s changed %s', what, q)


def run(sc, ctx):
    if not sc['maps'] or any(not 0 <= o['m'] < len(sc['maps']) for o in sc['ops']):
        raise Invalid()
    ctx.random(sc['rng'], cap=200000)
    disk = ctx.disk()
    for d in ('a.keep', 'dir/keep', 'd.d/keep', 'maps.mpz/keep', 'c.cfg', 'dir/a.txt'):
        disk.put('/sim/work/' + d, d.encode())
    last = {}
    with fs.mounted(disk):
        es = [Export(j, i, ctx) for i, j in enumerate(sc['maps'])]
        for o in sc['ops']:
            e = es[o['m']]
            if o['edit']:
                e.edit(o['edit'], o['e'])
            ok = export(e, o, disk, ctx, None)
            last[o['m']] = last.get(o['m'], 0) + 1
            if ok and (len(last) > 1 or last[o['m']] > 1 or o['fault']):
                ctx.nontrivial = True
        if sc['ops']:
            o = dict(sc['ops'][-1], fault=None, retry=True)
            for i, e in enumerate(es):
                export(e, dict(o, m=i), disk, ctx, None)
