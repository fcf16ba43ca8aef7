"""Editing, saving and reloading a map loses and changes nothing."""
from sim import env, fs
from sim.core import fail, Invalid
from . import formats, maps
from . import storage as S

RUNS = {'quick': 1200, 'thorough': 20000}
RULE = 'a run in which at least one map was saved and read back, with an event log unlike any other'
MEASURE = 'distinct (kind of edit or storage event, numbers of variables, entities and cubes of the map it met)'
REAL = ['redeclipse.MapParser', 'redeclipse.Map', 'redeclipse.entities', 'redeclipse.objects', 'redeclipse.skybox', 'redeclipse.voxel (octrees)',
        'gzip and io of the standard library']
STUB = ['operating-system file interface (simulated disk with failing and short operations)', 'process death', 'random, time']
ASSUME = ['Maps within what the library supports: the seven entity types it knows, no texture-slot parameters, no surfaces with vertices (it refuses the others).',
          'Map variables have byte-string names and integer, float or byte-string values.']
FILES = ['tests/files/empty.mpz', 'tests/files/empty-large.mpz', 'tests/files/empty-medium.mpz', 'tests/files/empty-xl.mpz', 'tests/files/scaff1.mpz',
         'tests/files/scaff2.mpz', 'tests/files/scaff3.mpz', 'maps/empty-day.mpz', 'maps/empty-night.mpz', 'maps/empty2.mpz']
SLOTS = 3
PATHS = ['a.mpz', 'b.mpz', 'c.old.mpz']
# entity classes: module, type, attributes in the order of the file format
CLASSES = {
    'PlayerSpawn': ('', 3, ['team', 'yaw', 'pitch', 'modes', 'muts', 'id'], 'fine'),
    'Sunlight': ('', 13, ['yaw', 'pitch', 'red', 'green', 'blue', 'offset', 'flare', 'flarescale'], 'raw'),
    'Light': ('', 1, ['radius', 'red', 'green', 'blue', 'flare', 'flarescale'], 'any'),
    'Pusher': ('', 13, ['yaw', 'pitch', 'force', 'maxrad', 'minrad', 'type'], 'any'),
    'TeamFlag': ('', 14, ['team', 'yaw', 'pitch', 'modes', 'muts', 'id'], 'any'),
    'Weapon': ('.weapon', 9, ['type', 'flags', 'modes', 'muts', 'id'], 'fine'),
    'Grenade': ('.weapon', 9, ['flags', 'modes', 'muts', 'id'], 'fine'),
    'Shotgun': ('.weapon', 9, ['flags', 'modes', 'muts', 'id'], 'fine'),
    'MapModel': ('.model', 2, ['type', 'yaw', 'pitch', 'roll', 'blend', 'scale', 'flags', 'colour', 'palette', 'palindex', 'spinyaw', 'spinpitch',
                               'spinroll'], 'fine'),
}
FIRST = {'Grenade': [9], 'Shotgun': [3]}
TYPE = {'Sunlight': 8, 'Pusher': 13}


def gen_edit(rng):
    k = rng.choice(('ent', 'ent', 'cls', 'cls', 'cls', 'delent', 'delent', 'noents', 'swap', 'attr', 'move', 'links', 'var', 'var', 'delvar', 'mru', 'sky', 'head',
                    'tex', 'tex', 'mat', 'nomat', 'shape', 'solid', 'split', 'octree', 'chg', 'ident'))
    e = {'e': k, 'i': rng.randrange(50)}
    if k == 'ent':
        e['ent'] = maps.gen_ent(rng)
    elif k == 'cls':
        c = rng.choice(sorted(CLASSES))
        kind = CLASSES[c][3]
        n = len(CLASSES[c][2])
        e.update(c=c, at=[maps.gen_int(rng) for _ in range(n)], pos=[rng.choice((0, 1, 7, 31, 100, rng.randrange(256), rng.randrange(2048) / 8))
                 for _ in range(3)], coarse=kind == 'any' and rng.random() < 0.5, order=rng.randrange(1000),
                 ln=rng.choice((None, [], [rng.randrange(30)])), r=rng.choice((None, None, [rng.randrange(256) for _ in range(3)])))
        if c == 'Weapon':
            e['at'][0] = rng.choice(maps.WEAPONS)
    elif k in ('attr', 'head'):
        e['v'] = maps.gen_int(rng)
    elif k == 'move':
        e['pos'] = maps.gen_ent(rng)['pos']
    elif k == 'links':
        e['ln'] = [rng.randrange(-1, 40) for _ in range(rng.randrange(4))]
    elif k == 'var':
        e['v'] = maps.gen_var(rng)
        e['again'] = rng.random() < 0.3          # one that is there already
    elif k == 'mru':
        e['v'] = [rng.randrange(65536) for _ in range(rng.randrange(8))]
    elif k == 'sky':
        e['sky'] = rng.choice(('DesertSky', 'MinecraftSky'))
    elif k in ('tex', 'mat', 'nomat', 'shape', 'solid', 'split'):
        e['path'] = [rng.randrange(8) for _ in range(12)]
        if k == 'tex':
            e['f'], e['v'] = rng.randrange(6), rng.choice((0, 255, 256, 65535, rng.randrange(65536)))
        if k == 'mat':
            e['v'] = rng.randrange(65536)
        if k == 'shape':
            e['v'] = [rng.choice((128, 0, 8, rng.randrange(256))) for _ in range(12)]
        if k == 'split':
            e['c'] = [maps.gen_cube(rng, 0, False) for _ in range(8)]
    elif k == 'octree':
        e['w'] = S.gen_world(rng, rng.choice((2, 4, 8)))
    elif k == 'chg':
        e['v'] = -rng.randrange(1, 500)
    elif k == 'ident':
        e['v'] = [rng.randrange(97, 123) for _ in range(3)]
    return e


def gen(rng, tier, index):
    ops = []
    live, paths = [], []
    for _ in range(rng.choice((6, 10, 20, 40))):
        k = rng.choice(('new', 'real', 'load', 'load', 'edit', 'edit', 'edit', 'edit', 'save', 'save', 'restart', 'badsave'))
        if k == 'load' and not paths or k == 'restart' and rng.random() < 0.5:
            k = 'save'
        if not live and k in ('save', 'edit', 'badsave', 'restart'):
            k = rng.choice(('new', 'new', 'real') + (('load',) * 4 if paths else ()))
        o = {'k': k, 's': rng.randrange(SLOTS) if k in ('new', 'real', 'load') or not live else rng.choice(live)}
        if k in ('new', 'real', 'load') and o['s'] not in live:
            live.append(o['s'])
        if k == 'restart':
            live = []
        if k == 'new':
            o['map'] = S.gen_small_map(rng) if rng.random() < 0.6 else maps.gen_map(rng, rng.random() < 0.1)
        elif k == 'real':
            o['f'] = rng.randrange(len(FILES))
        elif k in ('load', 'save', 'badsave'):
            o['p'] = rng.choice(paths) if k == 'load' and paths else rng.randrange(len(PATHS))
            if k == 'save' and o['p'] not in paths:
                paths.append(o['p'])
            if k == 'badsave':
                o['at'] = rng.randrange(8)
                o['err'] = rng.choice(('ENOSPC', 'EIO', 'crash', 'KeyboardInterrupt'))
        elif k == 'edit':
            o['edits'] = [gen_edit(rng) for _ in range(rng.choice((1, 1, 3)))]
        ops.append(o)
    return {'ops': ops, 'wchunk': rng.choice((None, None, 300)), 'rchunk': rng.choice((None, None, 500)), 'rng': {'seed': rng.randrange(2 ** 32)}}


# -- edits to the library's map and to the reference -----------------------------------
def leaf_at(world, path):
    """The indices down to a leaf, following the path."""
    out = []
    cs = world
    for i in path:
        out.append(i)
        c = cs[i]
        if c[0] != 'sub':
            return out
        cs = c[2]
    return None


def replace(cs, where, fn):
    i = where[0]
    c = cs[i]
    c = fn(c) if len(where) == 1 else ('sub', c[1], replace(c[2], where[1:], fn))
    return cs[:i] + (c,) + cs[i + 1:]


def node(m, where):
    c = m.world[where[0]]
    for i in where[1:]:
        c = c.children[i]
    return c


def edit(m, ref, e, ctx, base):
    """Apply one edit to both.  Returns the new reference."""
    from redeclipse.vector import FineVector, CoarseVector
    k = e['e']
    ents, vs = list(ref['ents']), list(ref['vars'])
    if k == 'ent':
        m.ents.append(maps.build_ent(e['ent']))
        ents.append(maps.ref_ent(e['ent']))
    elif k == 'cls':
        import importlib
        mod, et, names, kind = CLASSES[e['c']]
        et = TYPE.get(e['c'], et)
        cls = getattr(importlib.import_module('redeclipse.entities' + mod), e['c'])
        kw = list(zip(names, e['at']))
        kw = kw[e['order'] % len(kw):] + kw[:e['order'] % len(kw)]
        pos = e['pos']
        if kind == 'raw':
            xyz, want = FineVector(*pos), pos
        elif e['coarse']:
            pos = [int(q) % 32 for q in pos]
            xyz, want = CoarseVector(*pos), [q * 32 for q in pos]
        else:
            xyz, want = FineVector(*pos), [q * 4 for q in pos]
        kw = dict(kw)
        if e['ln'] is not None:
            kw['links'] = list(e['ln'])
        if e['r'] is not None:
            kw['reserved'] = list(e['r'])
        m.ents.append(cls(xyz, **kw))
        ents.append((tuple(maps.f32(float(q)) for q in want), et, tuple(e['r'] or (0, 0, 0)), tuple(FIRST.get(e['c'], []) + e['at']),
                     tuple(e['ln'] or ())))
    elif k == 'noents':
        del m.ents[:]
        ents = []
    elif k == 'swap':
        m.ents.reverse()
        ents.reverse()
        if ents:
            m.ents.append(m.ents.pop(e['i'] % len(ents)))
            ents.append(ents.pop(e['i'] % len(ents)))
    elif k in ('delent', 'attr', 'move', 'links'):
        if not ents:
            return ref
        i = e['i'] % len(ents)
        xyz, et, r, at, ln = ents[i]
        if k == 'delent':
            del m.ents[i]
            del ents[i]
        else:
            q = m.ents[i]
            if k == 'attr':
                j = len(at) - 1
                q.attrs[j] = e['v']
                at = at[:j] + (e['v'],)
            elif k == 'move':
                q.o.x, q.o.y, q.o.z = e['pos']
                xyz = tuple(maps.f32(float(v)) for v in e['pos'])
            else:
                q.links.append(7)
                ln = ln + (7,)
                q.links.extend(e['ln'])
                ln = ln + tuple(e['ln'])
            ents[i] = (xyz, et, r, at, ln)
    elif k == 'var':
        name, t, v = e['v']
        name, v = bytes(name), maps.var_value(t, v)
        if e.get('again') and vs:
            name = vs[e['i'] % len(vs)][0]
        m.map_vars[name] = v
        new = (name, t, maps.f32(v) if t == 'float' else v)
        at = [i for i, x in enumerate(vs) if x[0] == name]
        if at:
            vs[at[0]] = new
        else:
            vs.append(new)
    elif k == 'delvar':
        if not vs:
            return ref
        i = e['i'] % len(vs)
        del m.map_vars[vs[i][0]]
        del vs[i]
    elif k == 'mru':
        m.texmru[:] = e['v']
        ref = dict(ref, texmru=tuple(e['v']))
    elif k == 'sky':
        from redeclipse import skybox
        sb = getattr(skybox, e['sky'])(base)
        m.skybox(sb)
        new = (b'skybox', 'str', b'hxr/skybox/' + e['sky'][:-3].lower().encode())
        at = [i for i, x in enumerate(vs) if x[0] == b'skybox']
        if at:
            vs[at[0]] = new
        else:
            vs.append(new)
    elif k == 'head':
        name = ('revision', 'gamever', 'blendmap', 'lightmaps', 'numpvs')[e['i'] % 5]
        m.meta[name] = e['v']
        ref = dict(ref, meta=dict(ref['meta'], **{name: e['v']}))
    elif k == 'ident':
        m.meta['gameident'] = bytes(e['v'])
        ref = dict(ref, meta=dict(ref['meta'], gameident=bytes(e['v'])))
    elif k == 'chg':
        from redeclipse.objects import VSlot
        m.chg.append(e['v'])
        for i in range(-e['v']):
            m.vslots.append(VSlot(None, len(m.vslots)))
        m.meta['numvslots'] -= e['v']
        ref = dict(ref, chg=ref['chg'] + (e['v'],), meta=dict(ref['meta'], numvslots=ref['meta']['numvslots'] - e['v']))
    elif k == 'octree':
        if ref['meta']['worldsize'] < e['w']['size']:
            return ref
        from redeclipse.voxel import VoxelWorld
        from redeclipse.objects import cube
        n = e['w']['size']
        v = VoxelWorld(size=n)
        want = {}
        for x, y, z, c in e['w']['vox']:
            v.set_point(x % n, y % n, z % n, cube.newtexcube(tex=c + 2))
            want[x % n, y % n, z % n] = (c + 2,) * 6
        m.world = v.to_octree()
        w = maps.canon(m)['world']
        if formats.voxels(w, n) != want:
            fail('octree', 'the cube tree of a %d voxel world differs from the world', n)
        ref = dict(ref, world=w)
    else:
        where = leaf_at(ref['world'], e['path'])
        if where is None:
            return ref
        c = node(m, where)
        if k == 'tex':
            c.texture[e['f']] = e['v']

            def fn(r):
                return r[:3] + (r[3][:e['f']] + (e['v'],) + r[3][e['f'] + 1:],) + r[4:]
        elif k == 'mat':
            c.octsav |= 0x40
            c.material = e['v']

            def fn(r):
                return ('cube', r[1] | 0x40, r[2], r[3], e['v']) + r[5:]
        elif k == 'nomat':
            c.octsav &= ~0x40

            def fn(r):
                return ('cube', r[1] & ~0x40, r[2], r[3], None) + r[5:]
        elif k == 'shape':
            c.octsav = c.octsav & ~7 | 3
            c.edges = list(e['v'])

            def fn(r):
                return ('cube', r[1] & ~7 | 3, tuple(e['v'])) + r[3:]
        elif k == 'solid':
            c.octsav = c.octsav & ~7 | 2

            def fn(r):
                return ('cube', r[1] & ~7 | 2, None) + r[3:]
        else:
            if ref['meta']['worldsize'] < 2 << len(where):
                return ref
            c.octsav = 0
            c.children = [maps.build_cube(x) for x in e['c']]

            def fn(r):
                return ('sub', 0, tuple(maps.ref_cube(x) for x in e['c']))
        ref = dict(ref, world=replace(ref['world'], where, fn))
    return maps.touch(dict(ref, ents=tuple(ents), vars=tuple(vs)))


def cubes(w):
    return sum(1 if c[0] == 'cube' else cubes(c[2]) for c in w)


def run(sc, ctx):
    from redeclipse import MapParser
    disk = ctx.disk()
    slots = {}                 # number -> [library map, reference]
    saved = {}                 # path -> reference, None when unknown
    parser = MapParser()
    with fs.mounted(disk):
        disk.wchunk, disk.rchunk = sc['wchunk'] or None, sc['rchunk'] or None

        def compare(s, what):
            got = maps.canon(slots[s][0])
            bad = maps.diff(slots[s][1], got)
            if bad:
                fail('memory', 'after %s, map %d in memory differs: %s', what, s, bad)

        for o in sc['ops']:
            k, s = o['k'], o['s'] % SLOTS
            note = None
            if k == 'new':
                slots[s] = [maps.build_map(o['map']), maps.touch(maps.ref_map(o['map']))]
            elif k == 'real':
                f = env.REPO + '/' + FILES[o['f'] % len(FILES)]
                with fs.real_open(f, 'rb') as h:
                    raw = h.read()
                ref = formats.parse_mpz(raw)
                m = parser.read(f)
                bad = maps.diff(ref, maps.canon(m))
                if bad:
                    fail('load', '%s was read wrongly: %s', FILES[o['f'] % len(FILES)], bad)
                slots[s] = [m, dict(maps.touch(ref), raw=formats.mpz_payload(raw))]
                note = o['f']
            elif k == 'load':
                p = PATHS[o['p'] % len(PATHS)]
                if saved.get(p) is None:
                    continue
                m = parser.read(p)
                bad = maps.diff(saved[p], maps.canon(m))
                if bad:
                    fail('load', 'the map read back differs from the one saved: %s', bad)
                slots[s] = [m, saved[p]]
                ctx.nontrivial = True
            elif k == 'edit':
                if s not in slots:
                    continue
                for e in o['edits']:
                    m, ref = slots[s]
                    new = edit(m, ref, e, ctx, '/sim/work/game')
                    if new is not ref:
                        new = {q: v for q, v in new.items() if q != 'raw'}
                    slots[s] = [m, new]
                    note = (note or '') + e['e'] + ' '
                    ctx.state('edit', e['e'], e.get('c'), len(ref['vars']), len(ref['ents']), min(9, cubes(ref['world']) // 8))
            elif k == 'save':
                if s not in slots:
                    continue
                p = PATHS[o['p'] % len(PATHS)]
                m, ref = slots[s]
                m.write(p)
                data = formats.mpz_payload(disk.content(p))
                bad = maps.diff(ref, formats.parse_payload(data))
                if bad:
                    fail('save', 'the file differs from the map saved: %s', bad)
                if data != formats.encode(ref):
                    fail('bytes', 'the file has the right content in other bytes than it should: %d, %d bytes', len(data), len(formats.encode(ref)))
                if 'raw' in ref and not ref['raw'].startswith(data):
                    fail('bytes', 'a map saved without edits is not what was loaded')
                saved[p] = {q: v for q, v in ref.items()}
                note = len(data)
                ctx.state('save', len(ref['vars']), len(ref['ents']), min(99, cubes(ref['world'])), 'raw' in ref)
            elif k == 'badsave':
                if s not in slots:
                    continue
                p = PATHS[o['p'] % len(PATHS)]
                disk.arm([{'at': o['at'], 'kind': o['err'], 'part': 0.5}])
                try:
                    slots[s][0].write(p)
                    disk.disarm()
                    disk.restart()
                    saved[p] = slots[s][1]
                except (OSError, KeyboardInterrupt, fs.SimCrash) as e:
                    note = type(e).__name__
                    saved[p] = None
                    disk.disarm()
                    disk.dead = False
                    disk.collect()
                    if o['err'] == 'crash':
                        slots.clear()
                        disk.restart()
                        parser = MapParser()
            elif k == 'restart':
                disk.restart()
                slots.clear()
                parser = MapParser()
                ctx.fault('process restart')
            ctx.log(k, s, note)
            for q in sorted(slots):
                compare(q, k + (' ' + note if k == 'edit' and note else ''))
        # in the end, everything saved is read back by a new process
        disk.restart()
        for p in sorted(saved):
            if saved[p] is not None:
                m = MapParser().read(p)
                bad = maps.diff(saved[p], maps.canon(m))
                if bad:
                    fail('load', '%s read back in a new process differs from the map saved: %s', p, bad)
                ctx.nontrivial = True

