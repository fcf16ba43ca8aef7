"""Installing skyboxes and textures leaves complete, correct copies."""
import os

from sim import env, fs
from sim.core import fail, Invalid
from . import formats, maps
from . import storage as S

RUNS = {'quick': 1500, 'thorough': 30000}
RULE = 'a run with an install over stale or partial files, or with a failed or killed install, with an event log unlike any other'
MEASURE = 'distinct (what is installed, state of its files before, error, operation it hit)'
REAL = ['redeclipse.skybox', 'redeclipse.textures (copy_data, emit_conf)', 'redeclipse.Map', 'redeclipse.MapParser', 'shutil and io of the standard library']
STUB = ['operating-system file interface (simulated disk with failing and short operations, stale files and file times)', 'process death', 'random, time']
ASSUME = ['Textures whose images the library does not ship (paper3 to paper5) are not installed.',
          'Textures go to the directory the library names, which ends in data/hxr/textures.']
ERRS = ('EACCES', 'EMFILE', 'ENOSPC', 'EROFS', 'EIO', 'EDQUOT', 'crash', 'crash', 'crash', 'KeyboardInterrupt', 'full')
SIDES = ('bk', 'dn', 'ft', 'lf', 'rt', 'up')
SKIES = ('DesertSky', 'MinecraftSky')
BASES = ('game', 'a/b/c', 're-1.5', '/sim/home/re')
OTHER = ('other.jpg', 'desert_xx.jpg', 'gold_x.png', 'sub/desert_bk.jpg')
STALE = ('empty', 'prefix', 'longer', 'same size', 'junk', 'right', 'blocks', 'old')
ROOT = '/home/hxr/games/redeclipse-1.5.3/data/hxr/textures/'


def gen(rng, tier, index):
    ops = []
    bases = rng.sample(BASES, rng.choice((1, 1, 2)))
    for _ in range(rng.choice((1, 2, 3, 4, 6))):
        k = rng.choice(('sky', 'sky', 'tex', 'tex', 'tex', 'mess', 'mess', 'mess', 'remove'))
        o = {'k': k}
        if k == 'sky':
            o.update(base=rng.choice(bases), sky=rng.choice(SKIES))
        elif k == 'tex':
            man = rng.choice(('MinecraftThemedTextureManager', 'MinecraftThemedTextureManager', 'PaperThemedTextureManager',
                              'AutomatedMagicaTextureManager', 'PrimaryThemedTextureManager', 'DefaultThemedTextureManager', 'TextureManager'))
            o.update(man=man, want=[rng.random() for _ in range(rng.choice((0, 1, 2, 3, 8)))], config=rng.random() < 0.5)
        else:
            o.update(where=rng.choice(('sky', 'sky', 'tex', 'tex', 'other')), base=rng.choice(bases), j=rng.randrange(10 ** 6),
                     how=rng.choice(STALE), n=rng.choice((1, 1, 3, 20)), mtime=rng.choice((None, 0, 4e9)))
        if k in ('sky', 'tex'):
            o['fault'] = None
            if rng.random() < 0.5:
                o['fault'] = {'kind': rng.choice(ERRS), 'frac': rng.random(), 'part': rng.choice((0, 0.3, 0.9)), 'sticky': rng.random() < 0.3,
                              'of': rng.choice((None, None, 'open-w', 'open-w', 'close-w', 'close-w', 'write', 'open-r', 'read', 'mkdir', 'chmod', 'rename', 'close-r')),
                              'line': rng.choice((None, None, None, rng.randrange(1, 60)))}
            o['mess'] = [[rng.random(), rng.choice(STALE), rng.randrange(10 ** 6), rng.choice((None, 0, 4e9))] for _ in range(rng.choice((0, 0, 1, 2, 6)))]
            o['retry'] = rng.random() < 0.7
            o['rchunk'] = rng.choice((None, None, 3000, 500))
            o['wchunk'] = rng.choice((None, None, 3000, 500))
        ops.append(o)
    if ops[-1]['k'] in ('mess', 'remove'):
        ops.append(dict(next((o for o in ops if o['k'] in ('sky', 'tex')), None) or
                        {'k': 'sky', 'base': bases[0], 'sky': rng.choice(SKIES), 'mess': [], 'retry': True, 'rchunk': None, 'wchunk': None}, fault=None))
    m = S.gen_small_map(rng)
    if rng.random() < 0.5:              # a map that has a skybox already
        m['vars'].insert(rng.randrange(len(m['vars']) + 1), [list(b'skybox'), 'str', list(rng.choice((b'', b'skies/night', b'hxr/skybox/desert')))])
    return {'ops': ops, 'map': m, 'rng': {'seed': rng.randrange(2 ** 32)}}


_real = {}


def images():
    """All images the library ships: {file name: [path below the package]}"""
    if not _real:
        for d in ('skybox', 'textures/data/minecraft', 'textures/data/paper', 'textures/data/hxr'):
            for fn in sorted(fs.R['listdir'](os.path.join(env.PKG, d))):
                if fn.endswith(('.png', '.jpg')):
                    _real.setdefault(fn, []).append(d + '/' + fn)
    return _real


def stale(o, right):
    h = o['how']
    if h == 'empty':
        return b''
    if h == 'prefix':
        return right[:o['j'] % (len(right) + 1)]
    if h == 'longer':
        return right + b'x' * (1 + o['j'] % 9000)
    if h == 'same size':
        i = o['j'] % max(1, len(right))
        return right[:i] + bytes([255 - right[i]]) + right[i + 1:] if right else b'x'
    if h == 'junk':
        return bytes(i * 31 % 256 for i in range(o['j'] % 20000))
    if h == 'blocks':
        i = o['j'] % 4096
        return right[:i] + b'\0' * min(512, len(right) - i) + right[i + 512:] if i < len(right) else right
    if h == 'old':
        return right[::-1]
    return right


class World:
    def __init__(self, disk):
        self.disk = disk
        self.others = {}
        self.m = None

    def other(self, path, data):
        path = self.disk.put(path, data)
        self.others[path] = data

    def settle(self, mine, what):
        """Nothing but the files of this install has changed."""
        for p, d in self.others.items():
            if p not in mine and self.disk.content(p) != d:
                fail('bystander', '%s changed %s', what, p)
        for p, node in list(self.disk.files.items()):
            if p not in mine and p not in self.others:
                if self.disk.real_exists(p):            # read, or overlaid
                    with fs.real_open(p, 'rb') as h:
                        if h.read() != bytes(node.data):
                            fail('bystander', '%s changed the file %s', what, p)
                else:
                    self.others[p] = bytes(node.data)       # a new file, no concern of ours
        for p in mine:
            self.others[p] = self.disk.content(p)

    def sync(self):
        for p in list(self.others):
            d = self.disk.content(p)
            if d is None:
                del self.others[p]
            else:
                self.others[p] = d


def attempt(o, go, targets, w, disk, ctx, what):
    """One install, maybe failing, maybe repeated.  True if one returned."""
    names = sorted(targets)
    for frac, how, j, mtime in o['mess'] if names else ():
        p = names[int(frac * len(names))]
        w.other(p, stale({'how': how, 'j': j}, S.shipped(targets[p])))
        if mtime is not None:
            disk.files[p].mtime = mtime
    for i in range(2):
        f = o['fault'] if i == 0 else None
        before = tuple(sorted(state(disk, p, s) for p, s in targets.items()))
        disk.rchunk, disk.wchunk = o['rchunk'], o['wchunk']
        err = None
        if f and f['line'] is not None:
            disk.arm()
            env.STEPS.interrupt(f['line'], KeyboardInterrupt)
        elif f and f['kind'] == 'full':
            disk.arm()
            disk.capacity = disk.used() + int(f['frac'] * sum(len(S.shipped(s)) for s in targets.values()))
        elif f:
            # each file takes some seven operations
            n = 3 + (7 if not o['wchunk'] else 40) * len(targets)
            if f['of']:
                n = 3 if f['of'] == 'mkdir' else len(targets)
            disk.arm([{'at': int(f['frac'] * n), 'of': f['of'], 'kind': f['kind'], 'part': f['part'], 'sticky': f['sticky']}])
        made = None
        try:
            made = go()
        except (OSError, KeyboardInterrupt, fs.SimCrash) as e:
            err = e
        finally:
            env.STEPS.calm()
        last = tuple(x[0] for x in disk.log[-1:]) if disk.armed else None
        disk.heal()
        ctx.log(what, before, type(err).__name__, last)
        ctx.state(what, before, type(err).__name__, last)
        if any(x != 'absent' for x in before) or err:
            ctx.nontrivial = True
        if err is None:
            disk.collect()
            disk.restart()
            w.settle(set(targets), what)
            for p, s in sorted(targets.items()):
                bad = S.Job.same(disk.content(p), S.shipped(s))
                if bad:
                    fail('incomplete', '%s (before: %s) returned, but %s %s', what, ', '.join(before), p, bad)
            return made
        if f is None or not (f['line'] is not None or isinstance(err, fs.SimCrash) or sum(disk.fired.values())):
            raise err
        ctx.fault('install killed' if isinstance(err, fs.SimCrash) else 'install interrupted' if isinstance(err, KeyboardInterrupt) else 'install failed')
        if isinstance(err, fs.SimCrash):
            disk.restart()
        disk.collect()
        disk.restart()
        mine = {p: disk.content(p) for p in targets if disk.content(p) is not None}
        w.settle(set(mine), 'the failed ' + what)
        if not o['retry']:
            return None
    return None


def state(disk, p, src):
    d = disk.content(p)
    if d is None:
        return 'absent'
    right = S.shipped(src)
    return 'right' if d == right else 'prefix' if right.startswith(d) else 'same size' if len(d) == len(right) else 'stale'


def skybase(base):
    return os.path.normpath(os.path.join('/sim/work', base))


def install_sky(o, w, disk, sc, ctx):
    from redeclipse import skybox, MapParser
    name = o['sky'][:-3].lower()
    root = skybase(o['base'])
    targets = {'%s/data/hxr/skybox/%s_%s.jpg' % (root, name, s): 'skybox/%s_%s.jpg' % (name, s) for s in SIDES}
    sb = attempt(o, lambda: getattr(skybox, o['sky'])(o['base']), targets, w, disk, ctx, 'installing ' + o['sky'])
    if sb is None:
        return
    if w.m is None:
        w.m = maps.build_map(sc['map'])
    m = w.m
    m.skybox(sb)
    m.write('sky.mpz')
    disk.collect()
    disk.restart()
    got = [x[2] for x in formats.parse_mpz(disk.content('/sim/work/sky.mpz'))['vars'] if x[0] == b'skybox']
    if len(got) != 1:
        fail('reference', 'after attaching %s the map has %d skybox variables', o['sky'], len(got))
    path = got[0].rstrip(b'\0').decode('latin-1')
    for s in SIDES:
        p = '%s/data/%s_%s.jpg' % (root, path, s)
        bad = S.Job.same(disk.content(p), S.shipped('skybox/%s_%s.jpg' % (name, s)))
        if bad:
            fail('reference', 'the map names the skybox %s, and %s %s', path, p, bad)
    fs.p_remove('/sim/work/sky.mpz')


def install_tex(o, w, disk, ctx):
    from redeclipse import textures
    man = getattr(textures, o['man'])()
    names = sorted(n for n, t in man.texref.items() if type(t).__module__ != 'redeclipse.textures.basetex')
    for q in o['want']:
        if o['man'][0] == 'A':
            man.get_colour(round(q, 1), 0.5, 0.25)
        elif names:
            n = names[min(int(q * len(names)), len(names) - 1)]
            files = [f for f in (getattr(man.texref[n], t, None) for t in 'cnszg') if not isinstance(f, (int, float))]
            if all(f is None or f in images() or 'hxr' not in man.texref[n].basepath for f in files) and (files[0] or o['man'][:2] == 'Pr'):
                man.get(n)
    # What the game will look for is what the config names.
    with open('probe.mpz', 'w') as h:
        man.emit_conf(h)
    disk.collect()
    slots, _ = formats.parse_slots(disk.content('/sim/work/probe.cfg'))
    fs.p_remove('/sim/work/probe.cfg')
    fs.p_remove('/sim/work/probe.mpz')
    targets = {}
    root = texroot(disk)
    for s in slots:
        for fn in s['images'].values():
            if fn.startswith('hxr/textures/'):
                src = [p for p in images().get(fn[13:], ()) if p.startswith('textures/')]
                if not src:
                    fail('incomplete', 'the config of a %s names %s, which the library does not ship', o['man'], fn)
                targets[root + fn[13:]] = src[0]
    attempt(o, lambda: man.copy_data() or 1, targets, w, disk, ctx, 'installing %d textures of %s' % (len(slots), o['man']))


def texroot(disk):
    got = sorted({p[:p.rindex(S.TEXDIR) + len(S.TEXDIR)] for p in disk.files if S.TEXDIR in p})
    return got[0] if got else ROOT


def run(sc, ctx):
    ctx.random(sc['rng'])
    disk = ctx.disk()
    w = World(disk)
    for n in ('a.cfg', 'game/readme', 'game/data/hxr/x.cfg') if len(sc['ops']) % 2 else ('a.cfg',):
        w.other('/sim/work/' + n, n.encode())
    with fs.mounted(disk):
        for o in sc['ops']:
            if o['k'] == 'sky':
                install_sky(o, w, disk, sc, ctx)
            elif o['k'] == 'tex':
                install_tex(o, w, disk, ctx)
            else:
                change(o, w, disk)
                ctx.log(o['k'], o['where'], o['how'])
            w.sync()


def change(o, w, disk):
    """Earlier installs, other programs and users have been here."""
    names = sorted(images())
    for i in range(o['n']):
        q = dict(o, j=o['j'] + 7919 * i)
        if o['where'] == 'sky':
            fn = '%s_%s.jpg' % (('desert', 'minecraft')[q['j'] % 2], SIDES[q['j'] // 2 % 6])
            p, src = skybase(o['base']) + '/data/hxr/skybox/' + fn, 'skybox/' + fn
        elif o['where'] == 'tex':
            tex = [n for n in names if images()[n][0].startswith('textures/')]
            fn = tex[q['j'] % len(tex)]
            p, src = texroot(disk) + fn, images()[fn][0]
        else:
            fn = OTHER[q['j'] % len(OTHER)]
            p = (texroot(disk) if q['j'] % 3 == 0 else skybase(o['base']) + '/data/hxr/skybox/') + fn
            src = None
        if o['k'] == 'remove':
            if disk.content(p) is not None:
                fs.p_remove(p)
                w.others.pop(p, None)
            continue
        w.other(p, stale(q, S.shipped(src)) if src else b'something else')
        if o['mtime'] is not None:
            disk.files[p].mtime = o['mtime']
