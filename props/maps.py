"""Random maps in the class the library supports, their reference form, and
edits applied to both."""
import struct
import copy
from collections import OrderedDict

from . import formats


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


# -- the reference form of a library Map -----------------------------------------
def num(x):
    return x if isinstance(x, int) else getattr(x, 'value', x)


def canon_cube(c):
    o = c.octsav
    t = o & 7
    if t == 0:
        return ('sub', o, tuple(canon_cube(k) for k in c.children))
    surf = None
    if o & 0x20:
        ss = []
        for i in range(6):
            if c.surfmask & (1 << i):
                q = c.ext.surfaces[i]
                ss.append((q.lmid[0], q.lmid[1], q.verts, q.numverts))
            else:
                ss.append(None)
        surf = (c.surfmask, c.totalverts, tuple(ss))
    return ('cube', o, tuple(c.edges) if t == 3 else None, tuple(num(x) for x in c.texture),
            c.material if o & 0x40 else None, c.merged if o & 0x80 else None, surf)


def canon(m):
    """Reference form of a Map object, from its public attributes."""
    meta = {k: m.meta[k] for k in formats.META}
    g = m.meta['gameident']
    meta['gameident'] = g.encode() if isinstance(g, str) else bytes(g)
    meta['numents'] = len(m.ents)
    meta['numvars'] = len(m.map_vars)
    vs = []
    for k, v in m.map_vars.items():
        if isinstance(v, float):
            vs.append((bytes(k), 'float', f32(v)))
        elif isinstance(v, int):
            vs.append((bytes(k), 'int', v))
        else:
            vs.append((bytes(k), 'str', bytes(v)))
    ents = []
    for e in m.ents:
        ents.append(((f32(e.o.x), f32(e.o.y), f32(e.o.z)), e.type.value, tuple(e.reserved),
                     tuple(num(a) for a in e.attrs), tuple(e.links)))
    magic = m.magic.encode() if isinstance(m.magic, str) else bytes(m.magic)
    return {'magic': magic, 'version': m.version, 'headersize': m.headersize, 'meta': meta, 'vars': tuple(vs),
            'texmru': tuple(m.texmru), 'ents': tuple(ents), 'chg': tuple(m.chg),
            'world': tuple(canon_cube(c) for c in m.world), 'rest': 0}


def same_float(a, b):
    return struct.pack('<f', a) == struct.pack('<f', b)


def diff(a, b):
    """The first difference between two reference maps, or None."""
    for k in ('magic', 'version', 'headersize'):
        if a[k] != b[k]:
            return '%s: %r and %r' % (k, a[k], b[k])
    for k in a['meta']:
        if a['meta'][k] != b['meta'].get(k):
            return 'header field %s: %r and %r' % (k, a['meta'][k], b['meta'].get(k))
    if len(a['vars']) != len(b['vars']):
        return '%d and %d map variables' % (len(a['vars']), len(b['vars']))
    for x, y in zip(a['vars'], b['vars']):
        if x != y and not (x[:2] == y[:2] and x[1] == 'float' and same_float(x[2], y[2])):
            return 'map variable %r and %r' % (x, y)
    if a['texmru'] != b['texmru']:
        return 'recent textures %r and %r' % (a['texmru'][:9], b['texmru'][:9])
    if len(a['ents']) != len(b['ents']):
        return '%d and %d entities' % (len(a['ents']), len(b['ents']))
    for i, (x, y) in enumerate(zip(a['ents'], b['ents'])):
        if x != y:
            return 'entity %d: %r and %r' % (i, x, y)
    if a['chg'] != b['chg']:
        return 'texture-slot records %r and %r' % (a['chg'][:9], b['chg'][:9])
    return diff_tree(a['world'], b['world'], 'cube ')


def diff_tree(a, b, path):
    if len(a) != len(b):
        return '%s: %d and %d children' % (path, len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x == y:
            continue
        p = '%s/%d' % (path, i)
        if x[0] == 'sub' and y[0] == 'sub' and x[1] == y[1]:
            return diff_tree(x[2], y[2], p)
        return '%s: %r and %r' % (p, str(x)[:160], str(y)[:160])
    return None


# -- random content (plain JSON values; the simulator's choices) --------------------
ETYPES = {1: 6, 2: 13, 3: 6, 8: 8, 9: 5, 13: 6, 14: 6}
WEAPONS = (0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)


def gen_int(rng):
    return rng.choice((0, 1, -1, 5, 127, 128, 255, 256, 65535, 65536, 2 ** 31 - 1, -2 ** 31, rng.randrange(-2 ** 31, 2 ** 31),
                       rng.randrange(0, 400)))


def gen_bytes(rng, n):
    k = rng.choice((0, 1, 2, 5, n, rng.randrange(n + 1)))
    lo, hi = rng.choice(((97, 123), (0, 256), (128, 256), (32, 127)))
    out = [rng.randrange(lo, hi) for _ in range(k)]
    if rng.random() < 0.5:          # what stripping or decoding would change
        edge = list(rng.choice((b'\0', b'\0', b'\0\0', b' ', b'\n', b'\t', b'"', b'\\', b'\xef\xbb\xbf', b'\r\n')))
        out = rng.choice((out + edge, out + edge, out + edge, edge + out, out[:k // 2] + edge + out[k // 2:]))
    return out


def gen_var(rng):
    t = rng.choice(('int', 'float', 'str'))
    if t == 'int':
        v = gen_int(rng)
    elif t == 'float':
        v = f32(rng.choice((0.0, 1.0, -1.5, 0.1, 3.4e38, 1e-40, -0.0, rng.uniform(-1e6, 1e6), rng.random())))
    else:
        v = gen_bytes(rng, rng.choice((8, 300)) if rng.random() < 0.95 else 5000)
    return [gen_bytes(rng, 12) + [rng.randrange(97, 123)], t, v]


def gen_ent(rng):
    t = rng.choice(sorted(ETYPES))
    at = [gen_int(rng) for _ in range(ETYPES[t])]
    if t == 9:
        at[0] = rng.choice(WEAPONS)
    pos = [rng.choice((rng.randrange(0, 1025), rng.randrange(0, 4097) / 4, f32(rng.uniform(-500, 5000)), -3, 0))
           for _ in range(3)]
    return {'pos': pos, 't': t, 'at': at, 'ln': [rng.randrange(-1, 40) for _ in range(rng.choice((0, 0, 1, 3)) if rng.random() < 0.98 else rng.choice((70, 300)))],
            'r': [rng.choice((0, 0, 1, 127, 128, 255, rng.randrange(256))) for _ in range(3)]}


def gen_cube(rng, depth, wide):
    if depth > 0 and rng.random() < (0.55 if wide else 0.3):
        o = rng.choice((0, 0, 0, 8, 16))
        if rng.random() < 0.25:
            # eight alike, or all but one: what an optimiser would merge
            one = gen_cube(rng, 0, False)
            if rng.random() < 0.7:
                one = {'o': rng.choice((1, 2, 2)), 't': [one['t'][0]] * 6 if rng.random() < 0.5 else one['t']}
            kids = [dict(one) for _ in range(8)]
            if rng.random() < 0.4:
                kids[rng.randrange(8)] = dict(kids[0], t=kids[0]['t'][:5] + [kids[0]['t'][5] ^ 1])
            return {'o': o, 'c': kids}
        return {'o': o, 'c': [gen_cube(rng, depth - 1, False) for _ in range(8)]}
    t = rng.choice((1, 1, 2, 2, 3, 3, 4))
    c = {'o': t, 't': [rng.choice((0, 1, 2, 255, 256, 65535, rng.randrange(2000))) for _ in range(6)]}
    if rng.random() < 0.15:
        c['t'] = [c['t'][0]] * 6
    if t == 3:
        c['e'] = [rng.choice((128, 0, 8, rng.randrange(256))) for _ in range(12)]
    if rng.random() < 0.2:
        c['o'] |= 0x40
        c['m'] = rng.randrange(65536)
    if rng.random() < 0.2:
        c['o'] |= 0x80
        c['g'] = rng.randrange(256)
    if rng.random() < 0.25:
        c['o'] |= 0x20
        mask = rng.randrange(64)
        # A surface that declares vertices (numverts & 15) needs vertex data,
        # which the library refuses; the other bits are layer flags.
        c['s'] = [mask, rng.choice((0, 0, 4, 255)),
                  [[rng.randrange(256), rng.randrange(256), 0, rng.choice((0, 32, 64, 96, 16, 32))] if mask & (1 << i) else None
                   for i in range(6)]]
    return c


def gen_map(rng, big=False):
    ws = rng.choice((2, 16, 256, 512, 1024, 2048, 4096, 8192))
    runs = [-rng.choice((1, rng.randrange(1, 1000))) for _ in range(rng.choice((0, 1, 1, 2, 5)))]
    mru = [rng.randrange(65536) for _ in range(rng.choice((0, 1, 7)) if rng.random() < 0.95 else rng.choice((130, 300)))]
    ents = [gen_ent(rng) for _ in range(rng.choice((0, 1, 2, 60 if big else 5)) if rng.random() < (0.9 if big else 0.99) else 1100)]
    for some in (mru, ents):
        if some and rng.random() < 0.3:
            some.append(copy.deepcopy(rng.choice(some)))         # twice the same
    world = [gen_cube(rng, rng.choice((0, 1, 2, 3)) if not big else 3, True) for _ in range(8)]
    if rng.random() < 0.06:
        # one corner as deep as it goes
        c = world[rng.randrange(8)]
        for _ in range(rng.choice((4, 7, 10, 11))):
            kids = [gen_cube(rng, 0, False) for _ in range(8)]
            kids[rng.randrange(8)] = c
            c = {'o': rng.choice((0, 0, 8, 16)), 'c': kids}
            if depth([c]) >= 11:
                break
        world[rng.randrange(8)] = c
    return fit({
        'magic': rng.choice(('MAPZ', 'MAPZ', 'BFGZ')), 'version': rng.choice((43, 44, 40, gen_int(rng))),
        'hs': rng.choice((48, gen_int(rng))), 'ws': ws,
        'meta': [gen_int(rng) for _ in range(5)], 'gi': [rng.randrange(97, 123) for _ in range(3)],
        'vars': [gen_var(rng) for _ in range(rng.choice((0, 1, 3, 30 if big else 6)))],
        'mru': mru, 'ents': ents,
        'chg': runs,
        'world': world,
    })


def depth(cubes):
    return max([1 + depth(c['c']) for c in cubes if 'c' in c] or [0])


def fit(m):
    """Cubes are at least one unit large."""
    m['ws'] = max(m['ws'], 2 << depth(m['world']))
    return m


# -- JSON -> library objects ---------------------------------------------------------
def build_cube(c):
    from redeclipse.objects import cube, cubext, SurfaceInfo
    from redeclipse.enums import Faces
    o = c['o']
    k = cube.newcube(Faces.F_SOLID if o & 7 == 2 else Faces.F_EMPTY)
    k.octsav = o
    if o & 7 == 0:
        k.children = [build_cube(x) for x in c['c']]
        return k
    k.texture = list(c['t'])
    if 'e' in c:
        k.edges = list(c['e'])
    if 'm' in c:
        k.material = c['m']
    if 'g' in c:
        k.merged = c['g']
    if 's' in c:
        k.surfmask, k.totalverts = c['s'][0], c['s'][1]
        k.ext = cubext()
        k.ext.surfaces = [None if s is None else SurfaceInfo(*s) for s in c['s'][2]]
    return k


def build_ent(e):
    from redeclipse.entities import Entity
    from redeclipse.enums import EntType
    from redeclipse.vector import FineVector
    return Entity(FineVector(*e['pos']) / 4, EntType(e['t']), list(e['at']), list(e['ln']), list(e['r']))


def var_value(t, v):
    return bytes(v) if t == 'str' else v


def build_map(j):
    from redeclipse import Map
    from redeclipse.objects import VSlot
    meta = OrderedDict()
    nv = -sum(j['chg'])
    vals = list(j['meta'])
    for k in formats.META:
        meta[k] = {'worldsize': j['ws'], 'numents': len(j['ents']), 'numvslots': nv}.get(k)
        if meta[k] is None:
            meta[k] = vals.pop(0)
    meta['gameident'] = bytes(j['gi'])
    mv = OrderedDict()
    for name, t, v in j['vars']:
        mv[bytes(name)] = var_value(t, v)
    meta['numvars'] = len(mv)
    return Map(j['magic'].encode(), j['version'], j['hs'], meta, mv, list(j['mru']), [build_ent(e) for e in j['ents']],
               [VSlot(None, i) for i in range(nv)], list(j['chg']), [build_cube(c) for c in j['world']])


def ref_cube(c):
    o = c['o']
    if o & 7 == 0:
        return ('sub', o, tuple(ref_cube(x) for x in c['c']))
    s = None
    if 's' in c:
        s = (c['s'][0], c['s'][1], tuple(None if q is None else tuple(q) for q in c['s'][2]))
    return ('cube', o, tuple(c['e']) if 'e' in c else None, tuple(c['t']), c.get('m'), c.get('g'), s)


def ref_ent(e):
    return (tuple(f32(float(x)) for x in e['pos']), e['t'], tuple(e['r']), tuple(e['at']), tuple(e['ln']))


def ref_map(j):
    """The reference form of the same description, without library code."""
    meta, vals = {}, list(j['meta'])
    for k in formats.META:
        meta[k] = {'worldsize': j['ws'], 'numents': len(j['ents']), 'numvslots': -sum(j['chg'])}.get(k)
        if meta[k] is None:
            meta[k] = vals.pop(0)
    meta['gameident'] = bytes(j['gi'])
    mv = OrderedDict()
    for name, t, v in j['vars']:
        mv[bytes(name)] = (t, var_value(t, v))
    meta['numvars'] = len(mv)
    return {'magic': j['magic'].encode(), 'version': j['version'], 'headersize': j['hs'], 'meta': meta,
            'vars': tuple((k, t, f32(v) if t == 'float' else v) for k, (t, v) in mv.items()),
            'texmru': tuple(j['mru']), 'ents': tuple(ref_ent(e) for e in j['ents']), 'chg': tuple(j['chg']),
            'world': tuple(ref_cube(c) for c in j['world']), 'rest': 0}


def touch(ref):
    """Bring the counts in the header in line after an edit."""
    meta = dict(ref['meta'], numents=len(ref['ents']), numvars=len(ref['vars']))
    return dict(ref, meta=meta)
