"""An exported voxel model shows exactly the world."""
import argparse

from sim import env, fs
from sim.core import fail, in_library
from . import formats, maps, placement
from .p05 import Kept, SHAPES, shape

RUNS = {'quick': 2500, 'thorough': 60000}
RULE = 'a run that exported a world with at least one voxel, with an event log unlike any other'
MEASURE = 'distinct (way of exporting, number of voxels, largest coordinates, colours in the palette) and distinct (error, operation it hit)'
REAL = ['redeclipse.voxel.VoxelWorld', 'redeclipse.magicavoxel.writer', 'redeclipse.magicavoxel.reader', 'redeclipse.cli.output',
        'redeclipse.prefabs (shapes and rooms)', 'redeclipse.aftereffects', 'redeclipse.textures', 'kaitaistruct and io']
STUB = ['operating-system file interface (simulated disk with failing and short operations)', 'random, time', 'tqdm progress bar (disabled)']
ASSUME = ['Textures have colours (the palettes of colours and the primary theme).',
          'A palette entry is the byte below 255 times the colour component, or nearest to it.',
          'The declared size is at least one more than the largest coordinate in the file, and at most one more than the largest the world ever held.']
WAYS = ('method', 'writer', 'bundle')
NAMES = ('a.vox', 'dir/b.vox', 'c')
ERRS = ('EACCES', 'EMFILE', 'ENOSPC', 'EROFS', 'EIO', 'EDQUOT', 'crash', 'KeyboardInterrupt')


def gen_coord(rng, n):
    k = rng.random()
    if k < 0.6:
        return rng.randrange(n)
    if k < 0.85:
        return rng.choice((0, n - 1, 255, 254, 127, 128))
    return rng.choice((-1, 256, 257, 300, -256, 1000, 255, -128))


def gen_colour(rng):
    k = rng.random()
    if k < 0.4:
        return [rng.choice((0, 1, 0.5, 0.25)) for _ in range(3)]
    if k < 0.7:
        return [rng.randrange(256) / 255 for _ in range(3)]
    return [rng.random() for _ in range(3)]


def gen(rng, tier, index):
    n = rng.choice((8, 16, 64, 128, 256, 256))
    cols = [gen_colour(rng) for _ in range(rng.choice((1, 2, 5, 20)))]
    if index % 25 == 3:
        cols = [[(i % 256) / 255, (i // 16) / 20, 0.5] for i in range(rng.choice((100, 252, 253, 254, 255, 300)))]
    ops = []
    for _ in range(rng.choice((3, 8, 20))):
        k = rng.choice(('set', 'set', 'setv', 'many', 'many', 'del', 'delv', 'aim', 'aim', 'shape', 'room', 'fx', 'colour', 'more', 'export', 'export'))
        o = {'k': k}
        if k in ('set', 'setv', 'del', 'delv'):
            o['at'] = [gen_coord(rng, n) for _ in range(3)]
        elif k == 'aim':
            o['j'] = rng.randrange(1000)
            o['v'] = rng.choice(('set', 'setv', 'del', 'delv', 'delmax'))
        elif k == 'many':
            o['n'] = rng.choice((3, 10, 60, 400))
            o['s'] = rng.randrange(10 ** 6)
        elif k == 'shape':
            o.update(sh=rng.choice(SHAPES), pos=[rng.randrange(-1, n // 8 + 1) for _ in range(3)], o=rng.randrange(4),
                     off=[rng.randrange(-4, 12) for _ in range(3)], d=rng.randrange(6), len=rng.choice((0, 1, 3, 8, 20)),
                     xyz=[rng.randrange(1, 9) for _ in range(3)], sub=rng.random() < 0.25, prob=rng.choice((None, None, 0.0, 0.5, 1.0)))
        elif k == 'room':
            o.update(what=rng.choice(['m:' + r for r in placement.SMALL] + ['p:' + r for r in placement.PROC]),
                     pos=[rng.randrange(-1, max(1, n // 8)) for _ in range(3)], o=rng.randrange(4), flags=[rng.random() < 0.5 for _ in range(8)])
        elif k == 'fx':
            o.update(fx=rng.choice(('decay', 'decay', 'growth')), p=rng.choice((0.3, 0.5, 0.9, 1.0)))
        elif k == 'colour':
            o['c'] = gen_colour(rng)
        elif k == 'more':
            o['n'] = rng.choice((1, 3, 30))
        elif k == 'export':
            o.update(gen_export(rng))
        o['c'] = o.get('c') or rng.randrange(1000)
        ops.append(o)
    return {'n': n, 'cols': cols, 'man': rng.choice(('shared', 'shared', 'shared', 'own', 'rainbow', 'primary')), 'ops': ops,
            'last': dict(gen_export(rng), fault=None),
            'rng': {'seed': rng.randrange(2 ** 32), 'mode': rng.choice(('natural', 'natural', 'mixed', 'low', 'high', 'runs')),
                    'p': rng.choice((0.1, 0.5, 0.9))}}


def gen_export(rng):
    f = None
    if rng.random() < 0.4:
        f = {'kind': rng.choice(ERRS), 'at': rng.choice((0, 1, 2, 3)), 'part': rng.choice((0, 0.3, 0.9)), 'sticky': rng.random() < 0.3,
             'line': rng.choice((None, None, rng.randrange(1, 300)))}
    return {'way': rng.choice(WAYS), 'name': rng.choice(NAMES), 'fault': f, 'wchunk': rng.choice((None, None, 1000, 61)),
            'rchunk': rng.choice((None, None, 700, 5)), 'twice': rng.random() < 0.2, 'pre': rng.choice((None, None, 0, 10, 50000))}


class Palette:
    """The textures in use and the colour of each."""

    def __init__(self, kind, cols):
        from redeclipse import textures, prefabs
        self.kind = kind
        self.man = {'shared': lambda: prefabs.TEXMAN, 'own': textures.AutomatedMagicaTextureManager,
                    'rainbow': textures.RainbowPukeTextureManager, 'primary': textures.PrimaryThemedTextureManager}[kind]()
        self.names = ['gray', 'darkgray', 'white', 'black', 'red', 'green', 'blue', 'yellow', 'magenta', 'cyan']
        self.nums = [0, 1]
        self.asked = {}
        for c in cols:
            self.add(c)

    def add(self, c):
        if self.kind == 'primary':
            n = self.man.get(self.names[int(c[0] * 9.99)])
        else:
            n = self.man.get_colour(*c)
            if self.kind != 'rainbow':
                self.asked[n] = tuple(c)
        if n not in self.nums:
            self.nums.append(n)

    def pick(self, j):
        # numbers above 254 do not fit the format: nearly always spare them
        fits = [n for n in self.nums if n < 255 or j % 5 == 0]
        return fits[j % len(fits)]


def expected(w, texs):
    return {p: t[0] for p, t in w.model.items() if all(0 <= x <= 255 for x in p)}


def check(data, w, pal, ever, where, ctx):
    try:
        v = formats.parse_vox(data)
    except formats.Bad as e:
        fail('malformed', '%s: %s', where, e)
    want = expected(w, pal)
    got = {}
    for x, y, z, c in v['voxels']:
        if (x, y, z) in got:
            fail('voxels', '%s holds the voxel at %r twice', where, (x, y, z))
        got[x, y, z] = c
    if set(got) != set(want):
        lost, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want))
        fail('voxels', '%s of a world with %d voxels in range: %d missing %r, %d added %r', where, len(want), len(lost), lost[:3],
             len(extra), extra[:3])
    for i, a in enumerate('xyz'):
        lo = 1 + max([p[i] for p in want] or [-1])
        hi = 1 + min(max(ever[i], 0), 255)
        if not max(lo, 0) <= v['size'][i] <= max(hi, 1):
            fail('size', '%s declares %d voxels along %s; it holds some up to %d, the world had some up to %d', where, v['size'][i], a, lo - 1, ever[i])
    tex = {}
    for p, t in want.items():
        if not 1 <= got[p] <= 256:
            fail('colour', '%s: voxel %r has palette entry %d', where, p, got[p])
        tex.setdefault(t, set()).add(got[p])
    for t, cs in sorted(tex.items()):
        rgb = pal.asked.get(t)
        if rgb is None:
            q = pal.man.atlas[t]
            rgb = (q.r, q.g, q.b)
        for c in cs:
            e = v['palette'][c - 1]
            if any(abs(e[i] - 255 * rgb[i]) >= 1 + 1e-9 for i in range(3)) or e[3] != 255:
                fail('colour', '%s: texture %d has colour %r, its palette entry %r', where, t, rgb, e)
    return v


def read_back(name, v, where):
    from redeclipse.magicavoxel.reader import Magicavoxel
    m = Magicavoxel.from_file(name)
    got = [(q.x, q.y, q.z, q.c) for q in m.model_voxels.voxels]
    if got != [tuple(q) for q in v['voxels']] or m.model_voxels.num_voxels != len(got):
        fail('read-back', '%s: the file holds %d voxels, %d were read, or they differ', where, len(v['voxels']), len(got))
    if [(q.r, q.g, q.b, q.a) for q in m.palette.colours] != [tuple(q) for q in v['palette']]:
        fail('read-back', '%s: the palette read differs from the one in the file', where)
    if (m.model_size.x, m.model_size.y, m.model_size.z) != tuple(v['size']):
        fail('read-back', '%s: the size read differs from the one in the file', where)
    return got


class TooMany(Exception):
    pass


def export(o, w, pal, disk, ever, ctx):
    way, name, f = o['way'], o['name'], o['fault']
    if way != 'writer' and pal.kind != 'shared':
        way = 'writer'
    path = '/sim/work/' + name
    if o['pre'] is not None:
        disk.put(path, bytes(i * 7 % 256 for i in range(o['pre'])))
    else:
        disk.put('/sim/work/dir/keep', b'other')

    over = [p for p, t in expected(w, pal).items() if t > 254]

    def go():
        try:
            really()
        except (OSError, fs.SimCrash):
            raise
        except Exception as e:
            if not over or not in_library(e.__traceback__):
                raise
            # A voxel whose texture is beyond the palette cannot be shown.
            raise TooMany()

    def really():
        from redeclipse import prefabs
        from redeclipse.magicavoxel.writer import to_magicavoxel
        if way == 'method':
            w.v.to_magicavoxel(name)
        elif way == 'writer':
            with open(name, 'wb') as h:
                to_magicavoxel(w.v, h, pal.man)
        else:
            from redeclipse.cli import output, output_args
            p = argparse.ArgumentParser()
            output_args(p)
            disk.armed, was = False, disk.armed
            args = p.parse_args(['--magica', name])
            disk.armed = was
            output(w.v, None, None, prefabs, args)

    before = dict(w.v.world)
    order = list(w.v.world)
    disk.wchunk, disk.rchunk = o['wchunk'], o['rchunk']
    err = None
    if f:
        if f['line'] is not None:
            disk.arm()
            env.STEPS.interrupt(f['line'], KeyboardInterrupt)
        else:
            disk.arm([{k: f[k] for k in ('kind', 'at', 'part', 'sticky')}])
    try:
        go()
    except (OSError, KeyboardInterrupt, fs.SimCrash) as e:
        err = e
    except TooMany:
        err = 'too many colours'
    finally:
        env.STEPS.calm()
    hit = disk.log[-1:] if f else None
    disk.disarm()
    if err is not None and err != 'too many colours':
        if f is None:
            raise err
        ctx.fault('export interrupted' if f['line'] is not None else 'export failed')
        ctx.state(way, type(err).__name__, hit)
        if isinstance(err, fs.SimCrash):
            disk.restart()          # a new process, which built the same world again
        disk.collect()
        disk.capacity = None
    try:
        if err is not None:
            go()
        if o['twice']:
            go()
    except TooMany:
        err = 'too many colours'
    if err == 'too many colours':
        ctx.log('too many colours', len(over))
        ctx.probe('refused: too many colours')
        disk.heal()
        return
    disk.collect()
    disk.restart()
    data = disk.content(path)
    if data is None:
        fail('voxels', 'no file after exporting to %s', name)
    where = '%s export' % way
    v = check(data, w, pal, ever, where, ctx)
    disk.rchunk = o['rchunk']
    read_back(name, v, where)
    disk.heal()
    if dict(w.v.world) != before or list(w.v.world) != order:
        fail('world', 'the %s changed the world', where)
    if disk.content('/sim/work/other.vox') != b'other':
        fail('world', 'the %s changed another file', where)
    ctx.nontrivial = ctx.nontrivial or bool(v['voxels'])
    ctx.log('export', way, len(v['voxels']), v['size'], type(err).__name__)
    ctx.state(way, len(v['voxels']), v['size'], len(pal.nums))


def run(sc, ctx):
    from redeclipse import aftereffects
    from redeclipse.objects import cube
    from redeclipse.vector import FineVector
    from sim.rng import StockRandom
    ctx.random(sc['rng'])
    disk = ctx.disk()
    disk.put('/sim/work/other.vox', b'other')
    w = Kept(sc['n'])
    types = placement.Types({'specs': [], 'capspecs': []})
    ever = [0, 0, 0]

    def note(p):
        for i in range(3):
            ever[i] = max(ever[i], int(p[i]))

    with fs.mounted(disk):
        pal = Palette(sc['man'], sc['cols'])
        for o in sc['ops']:
            k, v = o['k'], w.v
            if k == 'export':
                export(o, w, pal, disk, ever, ctx)
                continue
            if k == 'colour':
                pal.add(o['c'])
                continue
            t = pal.pick(o['c'])
            if k in ('set', 'setv', 'del', 'delv', 'aim'):
                op = k
                if k == 'aim':
                    if not w.model:
                        continue
                    keys = sorted(w.model)
                    at = keys[o['j'] % len(keys)]
                    op = o['v']
                    if op == 'delmax':
                        op, at = 'del', max(keys, key=lambda p: p[o['j'] % 3])
                else:
                    at = tuple(o['at'])
                if op in ('set', 'setv'):
                    c = cube.newtexcube(tex=t)
                    v.set_point(*at, c) if op == 'set' else v.set_pointv(FineVector(*at), c)
                    w.model[at] = (t,) * 6
                    note(at)
                else:
                    v.del_point(*at) if op == 'del' else v.del_pointv(FineVector(*at))
                    w.model.pop(at, None)
            elif k in ('many', 'more'):
                r = StockRandom(o.get('s', 5))
                for _ in range(o['n']):
                    at = tuple(gen_coord(r, sc['n']) for _ in range(3))
                    t = pal.pick(r.randrange(10 ** 6))
                    v.set_point(*at, cube.newtexcube(tex=t))
                    w.model[at] = (t,) * 6
                    note(at)
            elif k in ('shape', 'room', 'fx'):
                if k == 'room' and pal.kind != 'shared':
                    continue
                if k == 'shape':
                    shape(dict(o, t=t), w)
                elif k == 'room':
                    class Entities:
                        ents = []
                    types.make_room(o).render(v, Entities())
                elif o['fx'] == 'growth' and (sc['n'] > 16 or pal.kind != 'shared'):
                    continue
                else:
                    if len(w.model) * sc['n'] ** 2 > 10 ** 6 and o['fx'] == 'growth' or sc['n'] > 64:
                        continue
                    getattr(aftereffects, o['fx'])(v, lambda x, y, z: o['p'])
                w.adopt(k)
                for p in w.model:
                    note(p)
                ever[0], ever[1], ever[2] = (max(ever[i], int((v.xmax, v.ymax, v.zmax)[i])) for i in range(3))
            w.agree(k)
            ctx.log(k, len(w.model))
        export(sc['last'], w, pal, disk, ever, ctx)
