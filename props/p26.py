"""A command that ends with success has done all it was asked."""
import gzip
import json
import os
import pickle
import random
import sys

from sim import env, fs
from sim.core import fail, Invalid
from . import formats, maps
from . import storage as S

RUNS = {'quick': 1000, 'thorough': 14000}
RULE = 'a run in which a command met a fault or a bad input, or wrote a map, with an event log unlike any other'
MEASURE = 'distinct (command, state of its input and target, fault, operation it hit, exit status)'
REAL = ['redeclipse.cli.iso', 'redeclipse.cli.to_json', 'redeclipse.cli.magica_rooms as a program', 'redeclipse.cli.output', 'redeclipse.MapParser', 'redeclipse.Map',
        'argparse, simplejson, gzip, io, runpy']
STUB = ['operating-system file interface (simulated disk with failing, short and killed operations), standard output among its files', 'process death and exit',
        'random, time', 'tqdm progress bar (disabled)']
ASSUME = ['Texts in a map that is printed as JSON may be any bytes; those that are not UTF-8 are only required to differ when the bytes do.',
          'At exit the interpreter flushes standard output, failing with status 120, and then what was left open, ignoring errors.',
          'Generating opens its targets before it reads its input, as shells do: of a generation that failed nothing is said about its targets.']
ERRS = ('EIO', 'EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EPIPE', 'KeyboardInterrupt', 'MemoryError', 'crash', 'short')
BAD = ('cut', 'cut', 'flip', 'empty', 'text', 'missing', 'directory', 'unzipped', 'magic', 'vertices')
SECTIONS = ('magic', 'version', 'headersize', 'meta', 'map_vars', 'texmru', 'entities', 'world', 'vslots', 'chg')
SHIPPED = ('maps/empty-day.mpz', 'maps/empty-night.mpz', 'maps/empty2.mpz', 'tests/files/empty.mpz')
TYPES = {1: 'ET_LIGHT', 2: 'ET_MAPMODEL', 3: 'ET_PLAYERSTART', 8: 'ET_SUNLIGHT', 9: 'ET_WEAPON', 13: 'ET_PUSHER', 14: 'ET_AFFINITY'}


def gen_fault(rng, of, ext=(None,)):
    out = []
    for _ in range(rng.choice((1, 1, 2))):
        k = rng.choice(ERRS)
        f = {'of': rng.choice(of), 'at': rng.choice((0, 0, 0, 1, 1, 2, 3, 5, 9)), 'kind': k, 'part': rng.choice((0, 0.4, 0.9)),
             'sticky': k == 'EPIPE' or rng.random() < 0.4, 'ext': rng.choice(ext)}
        if f['ext'] and (f['of'] != 'write' or f['ext'] in ('.json', '.cfg')):
            f['at'] = rng.choice((0, 0, 1))
        out.append(f)
    return out


def gen(rng, tier, index):
    if index % 11 == 7:
        n = rng.choice((1, 2, 4))
        argv = ['--size', str(rng.choice((32, 64, 64)))]
        if rng.random() < 0.9:
            argv += ['--rooms', str(n)]
        else:
            argv += ['--rooms', '6']
        if rng.random() < 0.7:
            argv += ['--seed', str(rng.choice((0, 1, 42, rng.randrange(2 ** 31))))]
        if rng.random() < 0.6:
            argv += ['--mirror', rng.choice('124')]
        for f in ('--ctf', '--debug'):
            if rng.random() < 0.3:
                argv.append(f)
        if rng.random() < 0.4:
            argv += ['--flavor'] + rng.sample(S.FLAVORS, rng.choice((1, 2)))
        bad = rng.choice((None,) * 8 + (['--mirror', '3'], ['--flavor', 'none'], ['--rooms', 'x'], ['--sid', '1']))
        out = rng.choice((['mpz'], ['mpz', 'vox', 'json'], ['mpz', 'vox', 'json'], ['vox', 'json'], ['mpz', 'json']))
        faults = []
        if rng.random() < 0.4:
            # at one of the files that are written
            ext = '.' + rng.choice(out + ['cfg'] * ('mpz' in out))
            faults = [{'of': rng.choice(('write', 'write', 'write', 'close-w', 'open-w')), 'at': rng.choice((0, 0, 0, 1)) if ext != '.vox' else rng.choice((0, 1, 2, 9)),
                       'kind': rng.choice(ERRS), 'part': rng.choice((0, 0.4, 0.9)), 'sticky': rng.random() < 0.5, 'ext': ext}]
        elif rng.random() < 0.6:
            faults = gen_fault(rng, ('open-w', 'write', 'write', 'write', 'close-w', 'read', 'open-r', 'mkdir'), (None, '.mpz', '.vox', '.json', '.cfg'))
        return {'cmds': [{'c': 'make', 'argv': argv + (bad or []), 'refuse': bool(bad), 'in': rng.choice(('a', 'b', 'real')),
                          'out': out, 'faults': faults}],
                'a': S.gen_small_map(rng), 'b': S.gen_small_map(rng), 'bad': None, 'real': rng.randrange(len(SHIPPED)), 'wchunk': None, 'rchunk': None,
                'rng': {'seed': rng.randrange(2 ** 32)}}
    cmds = []
    for _ in range(rng.choice((1, 2, 3, 5))):
        c = rng.choice(('iso', 'iso', 'json'))
        w = rng.choice(('a', 'a', 'b', 'b', 'bad', 'bad', 'real', 'last'))
        d = {'c': c, 'in': w, 'faults': []}
        if rng.random() < 0.6:
            d['faults'] = gen_fault(rng, ('open-w', 'write', 'write', 'close-w', 'open-r', 'read', 'read', 'close-r') if c == 'iso' else ('write', 'write', 'open-r', 'read'))
        if c == 'iso':
            d['out'] = rng.choice(('new', 'new', 'b', 'b', 'longer', 'same', 'nowhere', 'directory'))
        else:
            d['section'] = rng.choice((None, None, rng.choice(SECTIONS), 'none'))
        cmds.append(d)
    return {'cmds': cmds, 'a': S.gen_small_map(rng) if rng.random() < 0.7 else maps.gen_map(rng), 'b': S.gen_small_map(rng),
            'bad': {'k': rng.choice(BAD), 'frac': rng.choice((rng.random(), 1 - rng.random() ** 5 * 0.2, rng.random() ** 5)), 'bit': rng.randrange(8)},
            'real': rng.randrange(len(SHIPPED)), 'wchunk': rng.choice((None, None, 1, 7, 100)), 'rchunk': rng.choice((None, None, 1, 50, 1000)),
            'rng': {'seed': rng.randrange(2 ** 32)}}


def damaged(b, x, ref):
    """(bytes or None, or 'dir')"""
    k = b['k']
    i = min(int(b['frac'] * len(x)), len(x) - 1)
    if k == 'cut':
        return x[:i]
    if k == 'flip':
        return x[:i] + bytes([x[i] ^ 1 << b['bit']]) + x[i + 1:]
    if k == 'empty':
        return b''
    if k == 'text':
        return b'MAPZ is not a map\n' * 5
    if k == 'unzipped':
        return gzip.decompress(x)
    if k == 'magic':
        return gzip.compress(b'XXXZ' + gzip.decompress(x)[4:], mtime=0)
    if k == 'vertices':
        # what the library does not support: a surface with vertices
        one = ('cube', 0x21, None, (1,) * 6, None, None, (1, 4, ((1, 1, 0, 4),) + (None,) * 5))
        return gzip.compress(formats.encode(dict(ref, world=(one,) + ref['world'][1:])) + b'\1' * 40, mtime=0)
    return None


# -- processes ---------------------------------------------------------------------
def status_of(disk, argv, start):
    """Run a program in this process; returns its exit status, or None if it
    was killed."""
    old = sys.argv, sys.stdout
    sys.argv = argv
    disk.disarm()
    out = sys.stdout = disk.open('/sim/work/stdout', 'w')
    out.reconfigure(errors='strict')
    st = 0
    try:
        start()
    except SystemExit as e:
        st = 0 if e.code is None else e.code & 255 if isinstance(e.code, int) else 1
    except KeyboardInterrupt:
        st = 130
    except fs.SimCrash:
        st = None
    except Exception:
        st = 1
    finally:
        out = sys.stdout if hasattr(sys.stdout, 'flush') else out
        sys.argv, sys.stdout = old
    if st is None:
        disk.dead = False
        disk.restart()
        return None
    try:
        out.flush()
    except fs.SimCrash:
        st = None
    except (Exception, KeyboardInterrupt):
        st = 120
    try:
        if st is not None:
            disk.collect()
    except fs.SimCrash:
        st = None
    except KeyboardInterrupt:
        pass
    disk.dead = False
    disk.restart()
    return st


def in_child(f):
    """What f returns, computed in a process of its own."""
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
        try:
            d = pickle.dumps(f())
        except BaseException as e:
            d = pickle.dumps(('error', '%s: %s' % (type(e).__name__, e)))
        try:
            while d:
                d = d[fs.R['write'](w, d):]
        finally:
            os._exit(0)
    os.close(w)
    d = b''
    while True:
        c = fs.R['read'](r, 1 << 16)
        if not c:
            break
        d += c
    os.close(r)
    os.waitpid(p, 0)
    return pickle.loads(d)


# -- the JSON form, from the reference form -----------------------------------------
def text_ok(got, raw):
    try:
        return got == raw.decode('utf-8')
    except UnicodeDecodeError:
        return isinstance(got, str)


def wrong_cube(d, c, path):
    if c[0] == 'sub':
        if d.get('octsav') != c[1] or len(d.get('children') or ()) != 8:
            return '%s: %.80r instead of a group of eight' % (path, d)
        for i in range(8):
            bad = wrong_cube(d['children'][i], c[2][i], '%s/%d' % (path, i))
            if bad:
                return bad
        return None
    _, o, edges, tex, mat, merged, surf = c
    want = {'octsav': o, 'texture': list(tex), 'children': []}
    if edges is not None:
        want['edges'] = list(edges)
    if mat is not None:
        want['material'] = mat
    if merged is not None:
        want['merged'] = merged
    for k, v in want.items():
        if d.get(k) != v:
            return '%s: %s is %.60r instead of %.60r' % (path, k, d.get(k), v)
    if o & 7 == 2 and d.get('faces') not in ([], None) and set(d['faces']) != {'F_SOLID'}:
        return '%s: full cube with faces %r' % (path, d['faces'])
    if surf is not None:
        ss = (d.get('ext') or {}).get('surfaces')
        if d.get('surfmask') != surf[0] or d.get('totalverts') != surf[1] or ss is None:
            return '%s: surfaces %r %r %.60r' % (path, d.get('surfmask'), d.get('totalverts'), ss)
        have = [s for s in ss if s]
        if len(ss) == 6 and any((s is None or not s) and w is not None for s, w in zip(ss, surf[2])):
            return '%s: a surface is missing' % path
        if len(ss) != 6 and len(have) != len([w for w in surf[2] if w]):
            return '%s: %d surfaces' % (path, len(ss))
        for s, w in zip(ss if len(ss) == 6 else have, surf[2] if len(ss) == 6 else [w for w in surf[2] if w]):
            if w is not None and (s['lmid'] != list(w[:2]) or s['verts'] != w[2] or s['numverts'] != w[3]):
                return '%s: surface %r instead of %r' % (path, s, w)
    return None


def wrong_section(k, d, ref):
    if k == 'magic':
        return None if d == ref['magic'].decode() else repr(d)
    if k in ('version', 'headersize'):
        return None if d == ref[k] else repr(d)
    if k in ('texmru', 'chg'):
        return None if d == list(ref[k]) else '%.80r' % (d,)
    if k == 'meta':
        got = {a: b for a, b in d}
        for a, b in ref['meta'].items():
            if a == 'gameident':
                if not text_ok(got.get(a), b):
                    return 'meta %s: %r' % (a, got.get(a))
            elif got.get(a) != b:
                return 'meta %s: %r instead of %r' % (a, got.get(a), b)
        return None
    if k == 'map_vars':
        if len(d) != len(ref['vars']):
            return '%d map variables instead of %d' % (len(d), len(ref['vars']))
        texts = {}
        for (a, b), (name, t, v) in zip(d, ref['vars']):
            ok = text_ok(a, name) and texts.setdefault(a, name) == name
            if t == 'str':
                ok = ok and text_ok(b, v) and texts.setdefault((0, b), v) == v
            elif t == 'int':
                ok = ok and b == v and isinstance(b, int)
            else:
                ok = ok and isinstance(b, float) and maps.same_float(b, v)
            if not ok:
                return 'map variable %r: %.60r instead of %.60r' % (a, b, v)
        return None
    if k == 'entities':
        if len(d) != len(ref['ents']):
            return '%d entities instead of %d' % (len(d), len(ref['ents']))
        for i, (e, (xyz, t, r, at, ln)) in enumerate(zip(d, ref['ents'])):
            a = e['attr']
            vals = [a[x] for x in a['_order']]
            if t == 9 and vals and isinstance(vals[0], str):
                from redeclipse.enums import WeaponType
                vals[0] = WeaponType[vals[0]].value
            if [float(x) for x in e['position']] != [float(x) for x in xyz] or e['type'] != TYPES.get(t, e['type']) or vals != list(at) \
                    or e['links'] != list(ln) or list(e['reserved']) != list(r):
                return 'entity %d: %.200r instead of %.200r' % (i, e, (xyz, t, r, at, ln))
        return None
    if k == 'vslots':
        return None if len(d) == ref['meta']['numvslots'] else '%d texture slots' % len(d)
    if len(d) != len(ref['world']):
        return '%d cubes' % len(d)
    for i, c in enumerate(ref['world']):
        bad = wrong_cube(d[i], c, 'cube /%d' % i)
        if bad:
            return bad
    return None


def wrong_json(data, ref, section):
    try:
        d = json.loads(data.decode('utf-8'))
    except (ValueError, UnicodeDecodeError) as e:
        return 'no JSON text of %d bytes: %s' % (len(data), e)
    try:
        if section:
            return wrong_section(section, d, ref)
        for k in SECTIONS:
            if k not in d:
                return 'no %s' % k
            bad = wrong_section(k, d[k], ref)
            if bad:
                return '%s: %s' % (k, bad)
    except (KeyError, TypeError, IndexError, ValueError, AttributeError) as e:
        return 'shape: %s: %s' % (type(e).__name__, e)
    return None


# -- generated files ----------------------------------------------------------------
def content(kind, d):
    """What a generated file says, without what is arbitrary in it."""
    if d is None:
        return None
    if kind == 'mpz':
        try:
            return formats.mpz_payload(d)
        except formats.Bad as e:
            return 'damaged map: %s' % e
    if kind == 'json':
        try:
            g = formats.parse_json(d)
        except ValueError as e:
            return 'damaged graph: %s' % e
        num = {}
        for q in g['nodes']:
            q['id'] = num.setdefault(repr(q['id']), len(num))
        for q in g['links']:
            q['source'], q['target'] = num.get(repr(q['source'])), num.get(repr(q['target']))
        return json.dumps(g, sort_keys=True)
    return d


OPT = {'mpz': '--mpz_out', 'vox': '--magica', 'json': '--graph'}


def wanted(c, base):
    out = {k: '/sim/work/%s.%s' % (base, k) for k in c['out']}
    if 'mpz' in out:
        out['cfg'] = '/sim/work/%s.cfg' % base
    return out


def reference(c, path, data, real):
    """The same generation by calling the library, in a process of its own and
    on a disk without faults."""
    def go():
        import argparse
        from redeclipse import cli, prefabs
        from redeclipse.cli import magica_rooms
        disk = fs.Disk()
        if not real:
            disk.put(path, data)
        o = {'size': 256, 'seed': 42, 'rooms': 200, 'mirror': 2, 'ctf': False, 'debug': False, 'flavor': None}
        a = list(c['argv'])
        while a:
            k = a.pop(0)[2:]
            if k in ('ctf', 'debug'):
                o[k] = True
            elif k == 'flavor':
                o[k] = []
                while a and a[0][:2] != '--':
                    o[k].append(a.pop(0))
            else:
                o[k] = int(a.pop(0))
        with fs.mounted(disk):
            with open(path) as h:
                v, m, upm = magica_rooms.main(h, **o)
            ap = argparse.ArgumentParser()
            cli.output_args(ap)
            out = wanted(c, 'o')
            args = ap.parse_args([x for k in c['out'] for x in (OPT[k], out[k])])
            cli.output(v, m, upm, prefabs, args)
            disk.restart()
        return {k: content(k, disk.content(p)) for k, p in out.items()}
    return in_child(go)


# -- a run -----------------------------------------------------------------------
def ref_of(data):
    try:
        return maps.touch(formats.parse_mpz(data))
    except (formats.Bad, Exception):
        return None


def run(sc, ctx):
    disk = ctx.disk()
    W = '/sim/work/'
    ref = {k: maps.ref_map(sc[k]) for k in 'ab'}
    names = {'a': W + 'a.mpz', 'b': W + 'b.mpz', 'bad': W + 'bad.mpz', 'longer': W + 'longer.mpz', 'new': W + 'o.mpz', 'nowhere': W + 'no/o.mpz',
             'directory': '/sim/tmp', 'real': env.REPO + '/' + SHIPPED[sc['real'] % len(SHIPPED)], 'last': W + 'o.mpz'}
    for k in 'ab':
        disk.put(names[k], gzip.compress(formats.encode(ref[k]), mtime=0))
    disk.put(names['longer'], bytes(i * 7 % 251 for i in range(70000)))
    unsupported = False
    if sc['bad']:
        d = damaged(sc['bad'], disk.content(names['a']), ref['a'])
        if sc['bad']['k'] == 'directory':
            names['bad'] = '/sim/home'
        elif d is not None:
            disk.put(names['bad'], d)
        unsupported = sc['bad']['k'] == 'vertices'
    with fs.real_open(names['real'], 'rb') as h:
        shipped = h.read()
    chunks = False
    for n, c in enumerate(sc['cmds']):
        src = names[c['in']]
        if c['in'] == 'real':
            data = shipped
        else:
            data = disk.content(src)
        what = None if data is None else ref_of(data)
        if what is not None and what['rest'] and c['in'] != 'real':
            what = None
        if unsupported and data is not None and data == disk.content(names['bad']):
            what = None
        before = {p: d for p, d in disk.snapshot().items() if p != W + 'stdout'}
        want = None
        if c['c'] == 'make':
            env.STEPS.stop()            # that generating ends is P10's matter
            want = reference(c, src, data, c['in'] == 'real') if not c['refuse'] else None
            if isinstance(want, tuple):
                fail('generation-failed', 'generating with %s in a fresh process: %s', ' '.join(c['argv']), want[1])
            dst = None
            out = wanted(c, 'o')
            argv = ['magica_rooms.py', src] + [x for k in c['out'] for x in (OPT[k], out[k])] + c['argv']
            if len(ctx.meta.setdefault('made', '')):
                raise Invalid()         # one generation per process
            ctx.meta['made'] = 'made'
            mine = set(out.values())
        elif c['c'] == 'iso':
            dst = src if c['out'] == 'same' else names[c['out']]
            argv = ['redeclipse_iso', src, dst]
            mine = {dst}
        else:
            dst = None
            argv = ['redeclipse_to_json', src] + (['--section', c['section']] if c['section'] is not None else [])
            mine = set()

        def start():
            disk.arm(c['faults'])
            disk.wchunk = max(sc['wchunk'], len(data or b'') // (20 if c['c'] == 'json' else 1000)) if sc['wchunk'] else None
            disk.rchunk = max(sc['rchunk'], len(data or b'') // 1000) if sc['rchunk'] else None
            if c['c'] == 'make':
                import runpy
                runpy.run_path(os.path.join(env.PKG, 'cli', 'magica_rooms.py'), run_name='__main__')
            elif c['c'] == 'iso':
                from redeclipse.cli import iso
                iso.main()
            else:
                from redeclipse.cli import to_json
                to_json.main()
        fired = dict(disk.fired)
        with fs.mounted(disk):
            st = status_of(disk, argv, start)
        disk.heal()
        disk.log.clear() if len(disk.log) > 10 ** 6 else None
        hit = sorted(k for k in disk.fired if disk.fired[k] != fired.get(k, 0) and k not in ('short-read', 'short-write'))
        printed = disk.content(W + 'stdout')
        cmd = '%s%s' % (' '.join(a.replace('/sim/work/', '') for a in argv[:9]), ' (%s)' % ', '.join(hit) if hit else '')
        after = {p: d for p, d in disk.snapshot().items() if p != W + 'stdout'}
        ctx.log(c['c'], c['in'], c.get('out'), c.get('section'), c['faults'], st, hit)
        where = [(f['of'], f['at']) for f in c['faults']] if hit else None
        ctx.state(c['c'], what is not None, c.get('out') if c['c'] != 'make' else len(c['out']), hit, where, st, c.get('section'))
        # nothing else has changed
        for p, d in before.items():
            if p not in mine and after.get(p) != d:
                fail('bystander', '%s (status %s) changed %s', cmd, st, p)
        for p, d in after.items():
            if p in before or p in mine:
                continue
            if disk.real_exists(p):
                with fs.real_open(p, 'rb') as h:
                    if h.read() != d:
                        fail('bystander', '%s (status %s) changed %s', cmd, st, p)
            elif st is not None and st == 0 and p.startswith(W) and c['c'] != 'make':
                fail('stray', '%s left the file %s', cmd, p)
        if c['c'] == 'iso' and what is None and dst != src and after.get(dst) != before.get(dst):
            fail('target-touched', '%s: the input is no map, yet the target was changed', cmd)
        if what is None or hit or c['c'] != 'json':
            ctx.nontrivial = True
        if st is None:
            continue
        if st == 0:
            if what is None:
                fail('success-on-bad-input', '%s ended with status 0, but its input (%s) is no readable map', cmd,
                     sc['bad']['k'] if c['in'] == 'bad' else 'missing' if data is None else 'damaged')
            if c['c'] == 'iso':
                got = after.get(dst)
                try:
                    # what follows the cubes (lightmaps) is not carried over
                    have = None if got is None else formats.parse_mpz(got)
                    bad = 'nothing' if got is None else maps.diff(have, what) or ('more at its end' if have['rest'] else None)
                except formats.Bad as e:
                    bad = 'a damaged file: %s' % e
                if bad:
                    fail('incomplete-copy', '%s ended with status 0, but wrote %s', cmd, bad)
            elif c['c'] == 'json':
                if c['section'] == 'none':
                    fail('unknown-option', '%s ended with status 0', cmd)
                bad = wrong_json(printed or b'', what, c['section'])
                if bad:
                    fail('incomplete-text', '%s ended with status 0, but printed %s', cmd, bad)
            else:
                if c['refuse']:
                    fail('unknown-option', '%s ended with status 0', ' '.join(argv))
                check_made(c, out, want, after, cmd)
        else:
            ok = what is not None and not hit and c.get('section') != 'none' and c.get('out') not in ('nowhere', 'directory') and not c.get('refuse')
            if ok:
                fail('refused', '%s ended with status %d for no reason', cmd, st)


def check_made(c, out, want, after, cmd):
    for k, p in out.items():
        got = content(k, after.get(p))
        if got is None:
            fail('missing-output', '%s ended with status 0, but there is no %s', cmd, p)
        if got != want[k]:
            a, b = got, want[k]
            fail('wrong-output', '%s ended with status 0, but %s (%s) is not what these options give (%d): %s', cmd, p, len(a), len(b),
                 a[:60] if isinstance(a, str) else '')
    opts = c['argv']
    if 'cfg' in out:
        from redeclipse import worldflavors
        names = [f for f in opts if f in S.FLAVORS]
        tail = [x for f in names for x in getattr(worldflavors, f)()]
        lines = after[out['cfg']].decode().split('\n')[:-1]
        if tail and lines[-len(tail):] != tail:
            fail('flavour', '%s: the config does not end with the settings of %s', cmd, names)
    if 'mpz' in out:
        m = formats.parse_mpz(after[out['mpz']])
        flags = sum(e[1] == 14 for e in m['ents'])
    if 'json' in out:
        g = formats.parse_json(after[out['json']])
        rooms = [q for q in g['nodes'] if q['name'] != 'None']
        if not rooms:
            fail('no-rooms', '%s: a graph without rooms', cmd)
