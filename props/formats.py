"""Reference readers for the files the library writes, written from the file
format documentation and independent of the library's own code."""
import gzip
import json
import struct


class Bad(Exception):
    """Not a well-formed file."""


class Cur:
    def __init__(self, data):
        self.d = data
        self.i = 0

    def take(self, fmt):
        n = struct.calcsize('<' + fmt)
        if self.i + n > len(self.d):
            raise Bad('short file at offset %d' % self.i)
        v = struct.unpack_from('<' + fmt, self.d, self.i)
        self.i += n
        return v

    def one(self, fmt):
        return self.take(fmt)[0]

    def raw(self, n):
        if n < 0 or self.i + n > len(self.d):
            raise Bad('short file at offset %d' % self.i)
        v = self.d[self.i:self.i + n]
        self.i += n
        return bytes(v)


META = ('worldsize', 'numents', 'numpvs', 'lightmaps', 'blendmap', 'numvslots', 'gamever', 'revision')


def cube_tree(c, depth=0):
    if depth > 20:
        raise Bad('cubes nested too deep')
    return tuple(one_cube(c, depth) for _ in range(8))


def one_cube(c, depth):
    o = c.one('B')
    t = o & 7
    if t == 0:
        return ('sub', o, cube_tree(c, depth + 1))
    if t > 4:
        raise Bad('cube type %d' % t)
    edges = c.take('12B') if t == 3 else None
    tex = c.take('6H')
    mat = c.one('H') if o & 0x40 else None
    merged = c.one('B') if o & 0x80 else None
    surf = None
    if o & 0x20:
        mask, tv = c.take('2B')
        s = []
        for i in range(6):
            if mask & (1 << i):
                q = c.take('4B')
                if q[3] & 15:
                    raise Bad('surface with vertices')
                s.append(q)
            else:
                s.append(None)
        surf = (mask, tv, tuple(s))
    return ('cube', o, edges, tex, mat, merged, surf)


def mpz_payload(data):
    """The uncompressed contents of a complete .mpz file."""
    try:
        if data[:2] != b'\x1f\x8b':
            raise Bad('not a gzip file')
        return gzip.decompress(data)
    except Bad:
        raise
    except Exception as e:
        raise Bad('gzip: %s %s' % (type(e).__name__, e))


def parse_mpz(data):
    return parse_payload(mpz_payload(data))


def parse_payload(data):
    c = Cur(data)
    m = {'magic': c.raw(4)}
    if m['magic'] not in (b'MAPZ', b'BFGZ'):
        raise Bad('magic')
    m['version'], m['headersize'] = c.take('2i')
    meta = {k: c.one('i') for k in META}
    ident = c.raw(4)
    if ident[3:] != b'\0':
        raise Bad('game identifier')
    meta['gameident'] = ident[:3]
    nv = meta['numvars'] = c.one('i')
    m['meta'] = meta
    vs = []
    for _ in range(nv):
        n = c.one('i')
        name = c.raw(n + 1)
        if name[-1:] != b'\0':
            raise Bad('variable name')
        t = c.one('i')
        if t == 0:
            vs.append((name[:-1], 'int', c.one('i')))
        elif t == 1:
            vs.append((name[:-1], 'float', struct.unpack('<f', c.raw(4))[0]))
        elif t == 2:
            k = c.one('i')
            s = c.raw(k + 1)
            if s[-1:] != b'\0':
                raise Bad('variable value')
            vs.append((name[:-1], 'str', s[:-1]))
        else:
            raise Bad('variable type %d' % t)
    m['vars'] = tuple(vs)
    m['texmru'] = c.take('%dH' % c.one('H'))
    ents = []
    for _ in range(meta['numents']):
        x, y, z = c.take('3f')
        et, r1, r2, r3 = c.take('4B')
        na = c.one('i')
        if not 0 <= na < 1000:
            raise Bad('attributes')
        at = c.take('%di' % na)
        nl = c.one('i')
        if not 0 <= nl < 100000:
            raise Bad('links')
        ents.append(((x, y, z), et, (r1, r2, r3), at, c.take('%di' % nl)))
    m['ents'] = tuple(ents)
    left = meta['numvslots']
    chg = []
    while left > 0:
        k = c.one('i')
        chg.append(k)
        if k >= 0:
            raise Bad('texture-slot records with parameters')
        left += k
    if left < 0:
        raise Bad('texture-slot count')
    m['chg'] = tuple(chg)
    m['world'] = cube_tree(c)
    m['rest'] = len(data) - c.i
    return m


def encode(m):
    """The payload of a reference map, the inverse of parse_payload."""
    o = bytearray()
    o += m['magic'] + struct.pack('<2i', m['version'], m['headersize'])
    for k in META:
        o += struct.pack('<i', m['meta'][k])
    o += m['meta']['gameident'] + b'\0' + struct.pack('<i', m['meta']['numvars'])
    for name, t, v in m['vars']:
        o += struct.pack('<i', len(name)) + name + b'\0'
        if t == 'int':
            o += struct.pack('<2i', 0, v)
        elif t == 'float':
            o += struct.pack('<if', 1, v)
        else:
            o += struct.pack('<2i', 2, len(v)) + v + b'\0'
    o += struct.pack('<H%dH' % len(m['texmru']), len(m['texmru']), *m['texmru'])
    for (xyz, et, r, at, ln) in m['ents']:
        o += struct.pack('<3f4B', *(tuple(xyz) + (et,) + tuple(r)))
        o += struct.pack('<i%di' % len(at), len(at), *at)
        o += struct.pack('<i%di' % len(ln), len(ln), *ln)
    for k in m['chg']:
        o += struct.pack('<i', k)

    def sub(cs):
        for c in cs:
            o.append(c[1])
            if c[0] == 'sub':
                sub(c[2])
                continue
            _, oc, edges, tex, mat, merged, surf = c
            if oc & 7 == 3:
                o.extend(edges)
            o.extend(struct.pack('<6H', *tex))
            if oc & 0x40:
                o.extend(struct.pack('<H', mat))
            if oc & 0x80:
                o.append(merged)
            if oc & 0x20:
                o.extend(surf[:2])
                for s in surf[2]:
                    if s is not None:
                        o.extend(s)
    sub(m['world'])
    return bytes(o)


def solid(c):
    """True for a full cube, False for empty space, None for another shape."""
    o, edges = c[1], c[2]
    if o & 7 == 2:
        return True
    if o & 7 == 3:
        if all(e == 0x80 for e in edges):
            return True
        return None
    return False


def voxels(world, size):
    """Expand a cube tree covering size^3 into {(x,y,z): six textures}."""
    out = {}

    def walk(c, x, y, z, s):
        if c[0] == 'sub':
            if s < 2:
                raise Bad('cubes smaller than a voxel')
            h = s // 2
            for i, k in enumerate(c[2]):
                walk(k, x + h * (i & 1), y + h * (i >> 1 & 1), z + h * (i >> 2 & 1), h)
            return
        k = solid(c)
        if k is None:
            raise Bad('a cube that is neither empty nor full')
        if k:
            for i in range(s):
                for j in range(s):
                    for l in range(s):
                        out[x + i, y + j, z + l] = c[3]
    walk(('sub', 0, world), 0, 0, 0, size)
    return out


# -- .vox -------------------------------------------------------------------
def parse_vox(data):
    c = Cur(data)
    if c.raw(4) != b'VOX ':
        raise Bad('not a .vox file')
    v = {'version': c.one('I')}
    if c.raw(4) != b'MAIN':
        raise Bad('no MAIN chunk')
    n, child = c.take('2I')
    c.raw(n)
    if len(data) - c.i != child:
        raise Bad('MAIN declares %d bytes of chunks, %d follow' % (child, len(data) - c.i))
    seen = []
    while c.i < len(data):
        cid = c.raw(4)
        n, ch = c.take('2I')
        body = Cur(c.raw(n))
        c.raw(ch)
        seen.append(cid)
        if cid == b'SIZE':
            v['size'] = body.take('3I')
        elif cid == b'XYZI':
            k = body.one('I')
            if n != 4 + 4 * k:
                raise Bad('XYZI declares %d voxels in %d bytes' % (k, n))
            v['voxels'] = [body.take('4B') for _ in range(k)]
        elif cid == b'RGBA':
            if n != 1024:
                raise Bad('palette of %d bytes' % n)
            v['palette'] = [body.take('4B') for _ in range(256)]
        if cid in (b'SIZE', b'XYZI', b'RGBA') and body.i != n:
            raise Bad('chunk %r' % cid)
    if sorted(seen) != [b'RGBA', b'SIZE', b'XYZI']:
        raise Bad('chunks %r' % seen)
    return v


# -- .cfg ---------------------------------------------------------------------
def words(line):
    """The words of one config line; a comment ends it."""
    out, i, n = [], 0, len(line)
    while i < n:
        ch = line[i]
        if ch in ' \t\r':
            i += 1
        elif line.startswith('//', i):
            break
        elif ch == '"':
            j = line.find('"', i + 1)
            if j < 0:
                raise Bad('unbalanced quotes: %s' % line)
            out.append(line[i:j + 1])
            i = j + 1
        else:
            j = i
            while j < n and line[j] not in ' \t\r"':
                j += 1
            out.append(line[i:j])
            i = j
    return out


def numbers(w, *counts):
    try:
        v = tuple(float(x) for x in w)
    except ValueError:
        raise Bad('not a number: %s' % ' '.join(w))
    if len(v) not in counts:
        raise Bad('%d numbers: %s' % (len(v), ' '.join(w)))
    return v


def parse_slots(data):
    """The texture slots a config defines, in order, the way the game reads
    it: shader, shader parameters, images by type, colour; and the other
    commands that follow the last of them."""
    slots, tail = [], []
    shader, params = None, {}
    for line in data.decode('utf-8').split('\n'):
        w = words(line)
        if not w:
            continue
        cmd, a = w[0], w[1:]
        if cmd in ('texture', 'texcolor', 'texscroll', 'texrotate', 'texscale', 'setshader', 'setshaderparam') and tail:
            raise Bad('texture commands after %r' % tail[-1])
        if cmd == 'texture':
            if len(a) < 2 or len(a[1]) < 3 or a[1][0] != '"':
                raise Bad('texture without an image: %s' % line)
            place = numbers(a[2:], 0, 4)
            if a[0] in ('c', '0'):
                slots.append({'shader': shader, 'params': dict(params), 'images': {'c': a[1][1:-1]}, 'place': place,
                              'colour': None, 'other': []})
            elif not slots or a[0] not in 'udngsze' or len(a[0]) != 1:
                raise Bad('texture of type %s' % a[0])
            elif a[0] in slots[-1]['images']:
                raise Bad('two images of type %s in one texture' % a[0])
            else:
                slots[-1]['images'][a[0]] = a[1][1:-1]
        elif cmd == 'texcolor':
            if not slots or slots[-1]['colour'] is not None:
                raise Bad('texcolor without a texture of its own')
            slots[-1]['colour'] = numbers(a, 3)
        elif cmd in ('texscroll', 'texrotate', 'texscale'):
            if not slots:
                raise Bad('texture attribute before any texture')
            slots[-1]['other'].append(w)
        elif cmd == 'setshader':
            if len(a) != 1:
                raise Bad('setshader: %s' % line)
            shader, params = a[0], {}
        elif cmd == 'setshaderparam':
            if not a:
                raise Bad('setshaderparam: %s' % line)
            params[a[0]] = numbers(a[1:], 1, 2, 3, 4)
        else:
            tail.append(' '.join(w))
    return slots, tail


def parse_json(data):
    return json.loads(data.decode('utf-8'))
