"""Texture numbers are stable, dense and match the emitted config."""
import colorsys
import math
import os

from sim import env, fs
from sim.core import fail, Invalid, in_library
from sim.rng import StockRandom
from . import formats

RUNS = {'quick': 4000, 'thorough': 100000}
RULE = 'a run with at least two texture managers\' worth of requests or one failed emission, with an event log unlike any other'
MEASURE = 'distinct (manager, palette after each request) and distinct (manager, error, operation it hit)'
REAL = ['redeclipse.textures (all managers, themes and textures)', 'io buffering of the standard library']
STUB = ['operating-system file interface (simulated disk with faults)', 'random (simulated, forced outcomes)', 'time']
ASSUME = ['Colours are requested with the same spelling each time (1 and 1.0 are not mixed).',
          'The colour manager that ignores the colour asked for (RainbowPuke) is held to the numbering and the config only.']

THEMED = ('MinecraftThemedTextureManager', 'DefaultThemedTextureManager', 'PaperThemedTextureManager', 'PrimaryThemedTextureManager')
MANAGERS = THEMED + ('TextureManager', 'AutomatedMagicaTextureManager', 'RainbowPukeTextureManager')
LISTS = {'generic': 'GenericMaterial', 'column': 'ColumnMaterial', 'floor': 'FloorMaterial', 'wall': 'WallMaterial', 'accent': 'AccentMaterial'}
CATS = tuple(LISTS) + ('unheard-of',)
NAMES = ('a', 'b.b', 'dir/c', 'd.d/e', 'x.mpz.old', 'long name')
ERRS = ('EACCES', 'EMFILE', 'ENOSPC', 'EROFS', 'EIO', 'EDQUOT', 'crash', 'KeyboardInterrupt')


def gen(rng, tier, index):
    n = rng.choice((1, 1, 2, 2, 3))
    mans = [rng.choice(MANAGERS) for _ in range(n)]
    few = rng.random() < 0.4
    ops, cols = [], []
    for _ in range(rng.choice((3, 8, 15, 30, 80))):
        k = rng.choice(('get', 'get', 'cat', 'cat', 'cat', 'colour', 'colour', 'emit', 'bad'))
        o = [k, rng.randrange(n)]
        if k == 'get':
            o.append(rng.random() if not few else rng.randrange(4) / 40)
        elif k == 'cat':
            o.append(rng.choice(CATS))
        elif k == 'colour' and cols and rng.random() < 0.4:
            c = list(rng.choice(cols))              # a colour close to one asked for before
            x = rng.randrange(3)
            c[x] = rng.choice((c[x] + 1e-3, c[x] + 1 / 255, c[x] + 1e-5, c[x] + 1e-9, c[(x + 1) % 3], math.nextafter(c[x], 2)))
            c[x] = c[x] if 0 <= c[x] <= 1 else 0.5
            o.append([v if v not in (0, 1) else int(v) for v in c])
            cols.append(o[-1])
        elif k == 'colour':
            o.append([round(rng.random(), rng.choice((1, 1, 2, 17))) if not few else rng.choice((0, 1)) for _ in range(3)])
            o[-1] = [v if v not in (0, 1) else int(v) for v in o[-1]]
            cols.append(o[-1])
        elif k == 'emit':
            o.append(rng.choice(NAMES))
            o.append(None if rng.random() < 0.5 else {'kind': rng.choice(ERRS), 'at': rng.choice((0, 0, 1, 2, 3, 5)),
                                                      'part': rng.choice((0, 0.3, 0.9)), 'sticky': rng.random() < 0.3,
                                                      'line': rng.choice((None, None, rng.randrange(1, 60)))})
        ops.append(o)
    if rng.random() < 0.12:
        ops.insert(rng.randrange(len(ops) + 1), ['many', rng.randrange(n), rng.choice((20, 98, 130, 253, 254, 300)), rng.randrange(10 ** 6)])
    return {'man': mans, 'ops': ops, 'wchunk': rng.choice((None, None, 1000, 37)),
            'rng': {'seed': rng.randrange(2 ** 32), 'mode': rng.choice(('natural', 'natural', 'natural', 'mixed', 'low', 'high', 'mid', 'runs')), 'p': rng.choice((0.1, 0.5))}}


class Man:
    """A manager, and what is known of the numbers it gave out."""

    def __init__(self, kind):
        from redeclipse import textures
        self.kind = kind
        self.m = getattr(textures, kind)()
        self.count = 2
        self.names = {'sky': 0, 'default': 1}      # request -> number
        self.cand = {0: {'sky'}, 1: {'default'}}    # number -> the textures it may be
        self.colour = {}                            # number -> colour it must be
        self.fixed = {}                             # a category of the colour managers -> number
        self.members = {}
        self.alone = {}                             # texture -> its config by itself
        for name, tex in self.m.texref.items():
            if type(tex).__module__ == 'redeclipse.textures.basetex' and name not in ('sky', 'default'):
                continue                            # not a texture of the theme
            self.learn(name, tex)
        self.offered = sorted(self.alone)
        if kind in THEMED:
            for c in CATS:
                names = getattr(self.m.theme, LISTS.get(c, 'GenericMaterial'))
                self.members[c] = set(names)

    def learn(self, name, tex):
        slots, tail = formats.parse_slots(tex.conf(idx=5).encode())
        if len(slots) != 1 or tail:
            fail('texture', '%s: the config of texture %s alone defines %d textures and ends with %r', self.kind, name, len(slots), tail)
        s = slots[0]
        base = os.path.normpath(getattr(tex, 'basepath', ''))
        for t in 'cnszg':
            fn = getattr(tex, t, None)
            if isinstance(fn, str) and s['images'].get(t) != base + '/' + fn:
                fail('texture', '%s: texture %s has the image %s of type %s, its config says %r', self.kind, name, fn, t, s['images'])
        col = getattr(tex, 'texcolor', None)
        if col is None and all(isinstance(getattr(tex, x, None), (int, float)) for x in 'rgb') and name not in ('sky', 'default'):
            col = (tex.r, tex.g, tex.b)
        if col is not None and (s['colour'] is None or max(abs(a - b) for a, b in zip(col, s['colour'])) > 1e-6):
            fail('texture', '%s: texture %s has colour %r, its config says %r', self.kind, name, col, s['colour'])
        self.alone[name] = s

    # -- requests -------------------------------------------------------------
    def number(self, n, what):
        """A number was given out; is it in order?"""
        if isinstance(n, bool) or not isinstance(n, int) or n < 0 or n > self.count:
            fail('number', '%s: %s has number %r, %d are in use', self.kind, what, n, self.count)
        if n == self.count:
            self.count += 1
            return True
        return False

    def get(self, name):
        n = self.m.get(name)
        new = self.number(n, name)
        if name in self.names:
            if n != self.names[name]:
                fail('unstable', '%s: %s had number %d and now has %d', self.kind, name, self.names[name], n)
            return n
        if new:
            self.cand[n] = {name}
        else:
            if n not in self.cand or len(self.cand[n]) < 2 or name not in self.cand[n]:
                fail('shared', '%s: %s got number %d, which is %s', self.kind, name, n, self.colour.get(n) or sorted(self.cand.get(n, ())))
            self.cand[n] = {name}
        self.names[name] = n
        return n

    def cat(self, c):
        n = self.m.get_c(c)
        new = self.number(n, 'category ' + c)
        if self.kind in THEMED:
            mem = {x for x in self.members[c] if x in self.alone}
            if new:
                self.cand[n] = {x for x in mem if x not in self.names}
                if not self.cand[n]:
                    fail('unstable', '%s: every texture of category %s has a number, yet it got the new number %d', self.kind, c, n)
            else:
                left = self.cand[n] & mem
                if not left:
                    fail('category', '%s: category %s yielded number %d, which is %s', self.kind, c, n, sorted(self.cand[n]))
                self.cand[n] = left
            if len(self.cand[n]) == 1:
                self.names[next(iter(self.cand[n]))] = n
        elif self.kind[0] == 'A':
            if self.fixed.setdefault(c, n) != n:
                fail('unstable', '%s: category %s had number %d and now has %d', self.kind, c, self.fixed[c], n)
            if n < 2:
                fail('category', '%s: category %s yielded number %d', self.kind, c, n)
        elif n < 2:
            fail('category', '%s: category %s yielded number %d', self.kind, c, n)
        return n

    def want(self, rgb):
        n = self.m.get_colour(*rgb)
        new = self.number(n, 'colour %r' % (rgb,))
        if self.kind[0] == 'R':
            return n
        rgb = tuple(rgb)
        if rgb in self.names:
            if self.names[rgb] != n:
                fail('unstable', '%s: colour %r had number %d and now has %d', self.kind, rgb, self.names[rgb], n)
            return n
        if n < 2 or n in self.colour:
            fail('shared', '%s: colour %r got number %d, which is %r', self.kind, rgb, n, self.colour.get(n))
        if not new and n not in self.fixed.values():
            fail('shared', '%s: colour %r got number %d, which was given for something else', self.kind, rgb, n)
        self.names[rgb] = n
        self.colour[n] = rgb
        return n

    # -- the config -------------------------------------------------------------
    def check(self, data, path):
        try:
            slots, tail = formats.parse_slots(data)
        except (formats.Bad, UnicodeDecodeError) as e:
            fail('config', '%s: %s: %s', self.kind, path, e)
        if tail:
            fail('config', '%s: %s ends with %r', self.kind, path, tail)
        if len(slots) != self.count:
            fail('config', '%s: %s defines %d textures, %d were requested', self.kind, path, len(slots), self.count)
        for i, s in enumerate(slots):
            if i in self.cand:
                left = {x for x in self.cand[i] if self.alone[x] == s}
                if not left:
                    fail('config', '%s: number %d was given for %s, the config defines %r', self.kind, i, sorted(self.cand[i]), s)
                self.cand[i] = left
                if len(left) == 1:
                    x = next(iter(left))
                    if self.names.setdefault(x, i) != i:
                        fail('shared', '%s: %s has the numbers %d and %d', self.kind, x, self.names[x], i)
                continue
            col = s['colour']
            if col is None:
                fail('config', '%s: number %d is a colour, the config defines no colour for it: %r', self.kind, i, s)
            if i in self.colour and max(abs(a - b) for a, b in zip(col, self.colour[i])) > 1e-6:
                fail('config', '%s: number %d was given for colour %r, the config says %r', self.kind, i, self.colour[i], col)
            if 'images' in s and os.path.basename(s['images']['c']) != 'empty.png':
                fail('config', '%s: colour %d is painted over %s', self.kind, i, s['images']['c'])
            if self.kind[0] == 'R':
                h, sat, val = colorsys.rgb_to_hsv(*col)
                if abs(sat - 1) > 1e-6 or abs(val - 1) > 1e-6:
                    fail('config', '%s: number %d has the colour %r, which is not of the rainbow', self.kind, i, col)
        seen = {}
        for i, s in enumerate(slots):
            if i in self.cand:
                continue
            c = s['colour']
            if c in seen and not (i in self.colour and seen[c] in self.colour):
                fail('shared', '%s: colour %r has the numbers %d and %d', self.kind, c, seen[c], i)
            seen[c] = i
            if i in self.fixed.values() and i not in self.colour:
                self.colour[i] = c
                self.names.setdefault(c, i)


def emit(man, name, f, disk, sc, ctx):
    """Emit the config, with the fault asked for; returns False when the
    process died."""
    out = open(name + '.mpz', 'w')
    path = '/sim/work/' + os.path.splitext(name + '.mpz')[0] + '.cfg'
    before = disk.snapshot()
    err = None
    disk.wchunk = sc['wchunk']
    if f is None:
        disk.arm()
    elif f['line'] is not None:
        disk.arm()
        env.STEPS.interrupt(f['line'], KeyboardInterrupt)
    else:
        disk.arm([{k: f[k] for k in ('kind', 'at', 'part', 'sticky')}])
    try:
        man.m.emit_conf(out)
    except (Exception, KeyboardInterrupt, fs.SimCrash) as e:
        err = e
    finally:
        env.STEPS.calm()
    hit = disk.fired.copy()
    dead = disk.dead
    disk.heal()
    ctx.log('emit', name, type(err).__name__, dead)
    if err is not None:
        if f is None or not isinstance(err, (OSError, KeyboardInterrupt, fs.SimCrash)):
            raise err
        ctx.nontrivial = True
        ctx.fault('interrupted' if f['line'] is not None else 'emission failed')
        ctx.state(man.kind, f['kind'], disk.log[-1:], man.count)
        if dead:
            disk.restart()
            return False
        disk.collect()
        again = open(name + '.mpz', 'w')
        man.m.emit_conf(again)
    data = disk.content(path)
    if data is None:
        fail('config', '%s: emission for %s left no %s', man.kind, name + '.mpz', path)
    man.check(data, path)
    for p, d in disk.snapshot().items():
        if p not in (path, '/sim/work/' + name + '.mpz') and before.get(p) != d:
            fail('config', '%s: emission for %s changed %s', man.kind, name + '.mpz', p)
    return True


def run(sc, ctx):
    if not sc['man'] or sc['wchunk'] is not None and sc['wchunk'] < 1:
        raise Invalid()
    disk = ctx.disk()
    for n in NAMES:
        disk.put('/sim/work/%s.keep' % n, b'other')
    ctx.random(sc['rng'], cap=20000)
    with fs.mounted(disk):
        mans = [Man(k) for k in sc['man']]
        for k, i, *a in sc['ops']:
            if not 0 <= i < len(mans):
                raise Invalid()
            man = mans[i]
            if k == 'get':
                r = man.get(man.offered[min(int(a[0] * len(man.offered)), len(man.offered) - 1)])
            elif k == 'cat':
                r = man.cat(a[0]) if hasattr(man.m, 'get_c') else None
            elif k == 'colour':
                r = man.want(a[0]) if hasattr(man.m, 'get_colour') else None
            elif k == 'many':
                many = StockRandom(a[1])
                r = None
                for _ in range(a[0]):
                    if hasattr(man.m, 'get_colour'):
                        r = man.want([round(many.random(), 3) for _ in range(3)])
                    else:
                        r = man.get(many.choice(man.offered))
                ctx.probe('palette of over %d' % (man.count // 50 * 50))
            elif k == 'bad':
                r = None
                try:
                    r = man.m.get('no such texture')
                except Exception:
                    pass
                if r is not None:
                    fail('number', '%s: a texture that does not exist got number %r', man.kind, r)
            else:
                r = emit(man, a[0], a[1], disk, sc, ctx)
                if r is False:
                    mans = [Man(x) for x in sc['man']]
            ctx.log(k, i, r)
            ctx.state(man.kind, man.count, sorted(map(repr, man.names.items())))
        for i, man in enumerate(mans):
            emit(man, 'last%d' % i, None, disk, sc, ctx)
        if sum(m.count > 2 for m in mans) >= 2:
            ctx.nontrivial = True
