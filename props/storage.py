"""Things the library writes, as jobs of the storage simulations P01-P03."""
import argparse
import gzip
import os

from sim import env, fs
from sim.core import fail, Invalid
from . import formats, maps

COLOURS = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0.5, 0.5, 0.5], [0.25, 0.75, 0.125], [0.1, 0.1, 0.1], [1, 1, 0], [0, 0, 1]]
NAMES = ['a', 'b.b', 'level-1', 'long.name.with.dots', 'x']
FLAVORS = ['space_station', 'crushed_blacks', 'maliwan']


# -- scenarios -------------------------------------------------------------------
def gen_world(rng, size=None):
    size = size or rng.choice((2, 4, 8, 16))
    n = rng.choice((0, 1, 3, 10, 40))
    # a palette of hundreds does not fit into one write buffer
    pal = rng.choice((0, 0, 0, 0, 40, 90, 150, 230))
    return {'size': size, 'pal': pal, 'vox': [[rng.randrange(size) for _ in range(3)] + [rng.randrange(len(COLOURS) + pal)] for _ in range(n)]}


def colour(i):
    i = int(i)
    return COLOURS[i] if i < len(COLOURS) else [i % 7 / 8, i % 16 / 16 + 0.001, i / 512]


def gen_small_map(rng):
    m = maps.gen_map(rng)
    m['world'] = [maps.gen_cube(rng, rng.choice((0, 0, 1)), False) for _ in range(8)]
    return maps.fit(m)


TEXTURES = {'MinecraftThemedTextureManager': ['admin', 'gold', 'stone', 'dirt', 'wood', 'book', 'brick', 'coal', 'cobble'],
            'PrimaryThemedTextureManager': ['gray', 'white', 'red'],
            'DefaultThemedTextureManager': ['tex4', 'tex5', 'tex100'],
            'PaperThemedTextureManager': ['paper1', 'paper2', 'paper7'],
            'AutomatedMagicaTextureManager': [0, 1, 2, 3]}
TEXDIR = '/data/hxr/textures/'


def gen_job(rng, kinds=('map', 'map', 'export', 'export', 'vox', 'conf')):
    kind = rng.choice(kinds)
    if kind == 'sky':
        return {'kind': kind, 'name': rng.choice(('game', 'a/b/c', 're-1.5')), 'sky': rng.choice(('DesertSky', 'MinecraftSky'))}
    if kind == 'tex':
        man = rng.choice(sorted(TEXTURES))
        if man[0] == 'P' and man[1] == 'a' and rng.random() < 0.7:
            man = 'MinecraftThemedTextureManager'
        return {'kind': kind, 'name': 'tex', 'man': man, 'want': rng.sample(TEXTURES[man], rng.randrange(1, 4))}
    j = {'kind': kind, 'name': rng.choice(NAMES)}
    if kind in ('map', 'export'):
        j['map'] = gen_small_map(rng) if rng.random() < 0.9 else maps.gen_map(rng)
    if kind in ('export', 'vox', 'conf'):
        j['w'] = gen_world(rng)
    if kind == 'export':
        j['files'] = rng.choice((['mpz'], ['mpz', 'vox', 'json'], ['mpz', 'vox', 'json'], ['vox'], ['json'], ['mpz', 'json']))
        j['flavors'] = rng.sample(FLAVORS, rng.choice((0, 1, 3)))
        j['rooms'] = rng.choice((0, 1, 3, 8, 8, 150))
        if rng.random() < 0.5:
            j['map']['ents'] = j['map']['ents'][:2]
    return j


# -- jobs --------------------------------------------------------------------------
class Job:
    """One thing to save.  make() builds the in-memory state once; go() does
    the save, with fresh handles; check() reads the disk with independent
    decoders and returns what is wrong, or None."""

    def __init__(self, j, disk):
        from redeclipse import prefabs
        self.j, self.disk = j, disk
        self.kind = j['kind']
        self.name = j['name']
        self.texman = prefabs.TEXMAN
        self.m = self.v = self.upm = None
        if 'map' in j:
            self.m = maps.build_map(j['map'])
            self.ref = maps.ref_map(j['map'])
        if 'w' in j:
            from redeclipse.voxel import VoxelWorld
            from redeclipse.objects import cube
            self.v = VoxelWorld(size=j['w']['size'])
            for i in range(j['w'].get('pal', 0)):
                self.texman.get_colour(*colour(len(COLOURS) + i))
            for x, y, z, c in j['w']['vox']:
                self.v.set_point(x % j['w']['size'], y % j['w']['size'], z % j['w']['size'],
                                 cube.newtexcube(tex=self.texman.get_colour(*colour(c))))
        if self.kind == 'export':
            from redeclipse import worldflavors
            from redeclipse.upm import UnusedPositionManager
            worldflavors.update(self.m, j['flavors'])
            self.extra = [x for f in j['flavors'] for x in getattr(worldflavors, f)()]
            self.upm = UnusedPositionManager(256, mirror=1)
            from redeclipse.prefabs.castle import castle_small_deis
            from redeclipse.prefabs import Room
            from redeclipse.vector import CoarseVector

            class NamedRoom(Room):
                name = 'named'
            prev = None
            for i in range(j['rooms']):
                r = NamedRoom(pos=CoarseVector(2 + i % 28, 3 + i // 28, 3))
                self.upm.register_room(r)
                if prev is not None:
                    self.upm.register_link(prev, r)
                prev = r
        if self.kind == 'tex':
            from redeclipse import textures
            self.texman = getattr(textures, j['man'])()
            for w in j['want']:
                if isinstance(w, int):
                    self.texman.get_colour(*COLOURS[w])
                else:
                    self.texman.get(w)
        self.paths = self.outputs()
        self.args = None

    def outputs(self):
        b = '/sim/work/' + self.name
        if self.kind in ('sky', 'tex'):
            return {}
        if self.kind == 'map':
            return {'mpz': b + '.mpz'}
        if self.kind == 'vox':
            return {'vox': b + '.vox'}
        if self.kind == 'conf':
            return {'cfg': b + '.cfg'}
        out = {}
        for f in self.j['files']:
            out[f] = b + '.' + f
        if 'mpz' in out:
            out['cfg'] = b + '.cfg'
        return out

    def prepare(self):
        """What the caller does before: open the output arguments."""
        if self.kind == 'export':
            from redeclipse.cli import output_args
            p = argparse.ArgumentParser()
            output_args(p)
            argv = []
            for f, flag in (('mpz', '--mpz_out'), ('vox', '--magica'), ('json', '--graph')):
                if f in self.paths:
                    argv += [flag, os.path.basename(self.paths[f])]
            self.args = p.parse_args(argv)
        elif self.kind == 'conf':
            self.args = open(self.name + '.mpz', 'w')

    def go(self):
        if self.kind == 'map':
            self.m.write(os.path.basename(self.paths['mpz']))
        elif self.kind == 'vox':
            self.v.to_magicavoxel(os.path.basename(self.paths['vox']))
        elif self.kind == 'conf':
            self.texman.emit_conf(self.args)
        elif self.kind == 'sky':
            from redeclipse import skybox
            self.sky = getattr(skybox, self.j['sky'])('/sim/work/' + self.name)
        elif self.kind == 'tex':
            self.texman.copy_data()
        else:
            from redeclipse import prefabs
            from redeclipse.cli import output
            output(self.v, self.m, self.upm, prefabs, self.args)

    def memory(self):
        """The in-memory state that a save must not disturb."""
        out = []
        if self.m is not None:
            c = maps.canon(self.m)
            if self.kind == 'export':
                c.pop('world')
            out.append(repr(c))
            out.append(list(self.m.cfg_extra))
        if self.v is not None:
            out.append(sorted((tuple(k), list(q.texture)) for k, q in self.v.world.items()))
        out.append([(k, id(t)) for k, t in self.texman.atlas.items()])
        out.append(dict(self.texman.atlas_backref))
        if self.upm is not None:
            out.append(([id(r) for r in self.upm.rooms], list(map(repr, self.upm.links))))
        return out

    def check(self):
        d = self.disk
        for f, path in self.paths.items():
            data = d.content(path)
            if data is None:
                return '%s was not written' % path
            try:
                bad = getattr(self, 'check_' + f)(data)
            except formats.Bad as e:
                bad = str(e)
            except (ValueError, UnicodeDecodeError, IndexError) as e:
                bad = 'unreadable: %s' % e
            if bad:
                return '%s: %s' % (path, bad)
        if self.kind == 'sky':
            return self.check_sky()
        if self.kind == 'tex' or 'mpz' in self.paths and self.kind == 'export':
            return self.check_textures()
        return None

    def check_sky(self):
        """The six images are where the map will look for them."""
        base = self.j['sky'][:-3].lower()
        for side in ('bk', 'dn', 'ft', 'lf', 'rt', 'up'):
            fn = '%s_%s.jpg' % (base, side)
            got = self.disk.content('/sim/work/%s/data/hxr/skybox/%s' % (self.name, fn))
            bad = self.same(got, shipped('skybox/' + fn))
            if bad:
                return '%s: %s' % (fn, bad)
        return None

    @staticmethod
    def same(got, want):
        if got is None:
            return 'was not installed'
        if got != want:
            return 'is not the shipped file (%d bytes, %d shipped)' % (len(got), len(want))
        return None

    def wanted_textures(self):
        out = {}
        for t in self.texman.atlas.values():
            for fn in t.files() or ():
                out[fn] = 'textures/%s/%s' % (t.srcpath, fn)
        return out

    def check_textures(self):
        for fn, src in sorted(self.wanted_textures().items()):
            got = [p for p in self.disk.files if p.endswith(TEXDIR + fn)]
            bad = self.same(self.disk.content(got[0]) if got else None, shipped(src))
            if bad:
                return 'texture %s %s' % (fn, bad)
        return None

    def check_mpz(self, data):
        got = formats.parse_mpz(data)
        want = dict(maps.touch(self.ref))
        if self.v is not None:
            want['world'] = got['world']
            bad = maps.diff(want, got)
            if bad:
                return bad
            vox = formats.voxels(got['world'], self.v.size)
            mine = {tuple(k): tuple(q.texture) for k, q in self.v.world.items()}
            if vox != mine:
                return '%d voxels, the world has %d, or they differ' % (len(vox), len(mine))
            return None
        return maps.diff(want, got)

    def check_vox(self, data):
        g = formats.parse_vox(data)
        mine = sorted(tuple(k) + (q.texture[0] + 1,) for k, q in self.v.world.items())
        if sorted(g['voxels']) != mine:
            return 'holds %d voxels, the world has %d, or they differ' % (len(g['voxels']), len(mine))
        pal = [(int(255 * t.r), int(255 * t.g), int(255 * t.b), 255) for t in self.texman.atlas.values()]
        if [tuple(p) for p in g['palette'][:len(pal)]] != pal:
            return 'palette'
        return None

    def check_cfg(self, data):
        slots, tail = formats.parse_slots(data)
        tex = list(self.texman.atlas.values())
        if len(slots) != len(tex):
            return '%d textures defined, the palette has %d' % (len(slots), len(tex))
        for i, (s, t) in enumerate(zip(slots, tex)):
            c = s['colour']
            r = (getattr(t, 'r', None), getattr(t, 'g', None), getattr(t, 'b', None))
            if c is not None and i > 1 and any(abs(a - b) > 1e-4 for a, b in zip(c, r)):
                return 'texture %d is defined with colour %r, it has %r' % (i, c, r)
        if self.kind == 'export' and tail != self.extra:
            return 'ends with the commands %r, the flavours need %r' % (tail, self.extra)
        return None

    def check_json(self, data):
        g = formats.parse_json(data)
        ids = [n['id'] for n in g['nodes']]
        if len(g['nodes']) != 1 + len(self.upm.rooms):
            return '%d nodes for %d rooms' % (len(g['nodes']), len(self.upm.rooms))
        if len(g['links']) != len(self.upm.links):
            return '%d links of %d' % (len(g['links']), len(self.upm.links))
        for k in g['links']:
            if k['source'] not in ids or k['target'] not in ids:
                return 'a link joins something that is not listed'
        return None


_shipped = {}


def shipped(rel):
    """A file as it lies in the library's directory."""
    if rel not in _shipped:
        with fs.real_open(os.path.join(env.PKG, rel), 'rb') as h:
            _shipped[rel] = h.read()
    return _shipped[rel]


def alike(j, at):
    """Files that are as long as the ones this job writes, but differ in a byte."""
    disk = fs.Disk()
    with fs.mounted(disk):
        job = Job(j, disk)
        job.prepare()
        job.go()
    out = {}
    for f, p in job.paths.items():
        data = bytearray(disk.content(p) or b'')
        if f == 'mpz':
            data = bytearray(gzip.decompress(bytes(data)))
        if data:
            data[min(int(at * len(data)), len(data) - 1)] ^= 1
        out[p] = gzip.compress(bytes(data), mtime=1) if f == 'mpz' else bytes(data)
    return out


def fill(disk, job, pre):
    """What lies at the paths before, by the list `pre`: a number of bytes, or
    how far into the file a copy differs from what is going to be written."""
    twins = None
    for i, (f, p) in enumerate(sorted(job.paths.items())):
        n = pre[i % len(pre)] if pre else None
        if n is None or disk.content(p) is not None:
            continue
        if isinstance(n, float):
            twins = twins or alike(job.j, n)
            disk.put(p, twins[p])
        else:
            disk.put(p, bytes((i * 37 + q) % 251 for q in range(n)))
