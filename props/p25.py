"""A modelled room is drawn as its model shows it."""
import os
import struct

from sim import fs
from sim.core import fail, in_library, Invalid
from sim.rng import SIM, StockRandom
from . import placement
from .placement import rot, add, tup

RUNS = {'quick': 900, 'thorough': 16000}
RULE = 'a run in which at least one modelled room was drawn and compared with its model, with an event log unlike any other'
MEASURE = 'distinct (model, direction, way the room came about, faults met before, number of rooms alive)'
REAL = ['redeclipse.prefabs.magica', 'redeclipse.prefabs (modelled rooms)', 'redeclipse.magicavoxel.reader', 'redeclipse.upm (mirrored copies)', 'redeclipse.voxel',
        'redeclipse.vector', 'redeclipse.textures', 'redeclipse.lighting', 'kaitaistruct and io of the standard library']
STUB = ['operating-system file interface (simulated disk)', 'random module source (simulated, seeded)', 'time, os.urandom (simulated)',
        'the map: an object with the list of entities only']
ASSUME = ['A model is what its .vox file holds, decoded by a decoder of ours; entry c of the palette is the colour of voxels marked c, as in the shipped models.',
          'The rooms that choose textures by other means (original.spawn_room, and the red of castle_flag_room and station_flagroom) are only required to '
          'give voxels of one colour one texture.',
          'Two colours are the same texture if they differ by less than 1/1000.',
          'A handle nobody can reach any more counts as closed when descriptors are counted.']
CHOOSES = ('original.spawn_room',)
RED = ('castle.castle_flag_room', 'spacestation.station_flagroom')
SHIPPED = list(dict.fromkeys(placement.SMALL + placement.LARGE + placement.CAPS))
HEAVY = ('castle.castle_large', 'castle.castle_flag_room', 'castle.castle_wall_section_x', 'castle.castle_wall_section_tjoint', 'spacestation.station_flagroom')


def gen_model(rng):
    """A model and the doorways of its room."""
    size = [rng.choice((1, 2, 7, 8, 9, 15, 16, 17, 24)) for _ in range(3)]
    n = rng.choice((0, 1, 3, 8, 30, 120))
    ncol = rng.choice((1, 2, 5, 40))
    cols = rng.sample(range(1, 256), min(ncol, 255))
    if rng.random() < 0.3:
        cols[0] = rng.choice((1, 254, 255))
    vox = {}
    for _ in range(n):
        vox[tuple(rng.choice((0, s - 1, rng.randrange(s))) for s in size)] = rng.choice(cols)
    near = rng.random() < 0.4           # colours that differ little
    base = [rng.randrange(40, 200) for _ in range(3)]
    pal = [[(b + rng.randrange(-2, 3)) if near else rng.choice((0, 255, rng.randrange(256))) for b in base] + [rng.choice((0, 255))] for _ in range(256)]
    add_ = {k: rng.choice((1, 3, 4, 7, 8)) for k in rng.sample(('WEST', 'SOUTH'), rng.choice((0, 0, 1, 2)))}
    doors = [[[rng.randrange(-1, 4), rng.randrange(-1, 4), rng.randrange(0, 3)], rng.randrange(4)] for _ in range(rng.choice((1, 2, 4)))]
    order = list(vox.items())
    rng.shuffle(order)
    return {'size': size, 'vox': [list(k) + [c] for k, c in order], 'pal': pal, 'add': add_, 'doors': doors, 'tail': rng.choice((0, 0, 0, 9))}


def gen(rng, tier, index):
    models = [gen_model(rng) for _ in range(rng.choice((1, 2, 3)))]
    if len(models) > 1 and rng.random() < 0.3:        # two types that share a model file
        models[1].update({k: models[0][k] for k in ('size', 'vox', 'pal', 'tail')}, same=True)
    types = ['s:%d' % i for i in range(len(models))]
    pool = types + types + ['m:' + (rng.choice(SHIPPED) if rng.random() < 0.7 else rng.choice([x for x in SHIPPED if x not in HEAVY]))
                            for _ in range(rng.choice((0, 1, 2)))]
    if index % 4 == 0:
        pool = pool[len(types):] + ['m:' + SHIPPED[index // 4 % len(SHIPPED)]]
    steps = []

    def make():
        return {'op': 'make', 't': rng.choice(pool), 'pos': [rng.randrange(0, 28) for _ in range(3)], 'o': rng.randrange(4)}
    steps.append(make())
    for _ in range(rng.choice((3, 6, 10))):
        k = rng.random()
        if k < 0.2:
            steps.append(make())
        elif k < 0.55:
            steps.append({'op': 'draw', 'i': rng.randrange(64), 'w': rng.choice((0, 0, 1)), 'seed': rng.randrange(2 ** 32),
                          'mode': rng.choice(('natural', 'low', 'high', 'mixed'))})
        elif k < 0.75:
            steps.append({'op': 'ask', 'i': rng.randrange(64), 'q': rng.choice(('tiles', 'doors'))})
        elif k < 0.85:
            steps.append({'op': 'copies', 'i': rng.randrange(64), 'mirror': rng.choice((1, 2, 4))})
        elif k < 0.88:
            steps.append(dict(make(), op='crowd', t=rng.choice(types + ['m:castle.wooden_bridge', 'm:dungeon.dungeon_walkway']), n=rng.choice((5, 20, 40))))
        else:
            f = {'of': rng.choice(('open-r', 'read', 'read', 'read')), 'at': rng.choice((0, 0, 0, 1)), 'kind': rng.choice(('EIO', 'EMFILE', 'ENFILE', 'EACCES', 'EPERM'))}
            if f['of'] == 'read':
                f['kind'] = 'EIO'
            steps.append({'op': 'fault', 'f': f} if rng.random() < 0.6 else
                         {'op': 'damage', 't': rng.choice(pool), 'cut': rng.choice((0.0, 0.3, 0.9, rng.random())), 'missing': rng.random() < 0.2})
            steps.append({'op': rng.choice(('draw', 'ask', 'ask')), 'i': -1, 'w': 0, 'q': rng.choice(('tiles', 'doors')), 'seed': 1, 'mode': 'natural'})
            if rng.random() < 0.7:
                steps.insert(len(steps) - 2, make())
    steps.append({'op': 'draw', 'i': -1, 'w': 0, 'seed': rng.randrange(2 ** 32), 'mode': 'natural'})
    return {'models': models, 'steps': steps, 'rchunk': rng.choice((None, None, None, 1, 7, 1000)), 'fds': rng.choice((None, None, 16, 30))}


def vox_bytes(m):
    v = m['vox']
    xyzi = struct.pack('<I', len(v)) + b''.join(struct.pack('4B', *q) for q in v)
    rgba = b''.join(struct.pack('4B', *q) for q in m['pal'])
    body = b'SIZE' + struct.pack('<2I3I', 12, 0, *m['size']) + b'XYZI' + struct.pack('<2I', len(xyzi), 0) + xyzi + \
        b'RGBA' + struct.pack('<2I', len(rgba), 0) + rgba
    return b'VOX ' + struct.pack('<I', 150) + b'MAIN' + struct.pack('<2I', 0, len(body)) + body + b'MATT' + bytes(m['tail']) * (m['tail'] > 0)


def decode(data):
    """(voxels, palette) of a .vox file."""
    i = 20
    vox = pal = None
    while i + 12 <= len(data) and (vox is None or pal is None):
        cid, n, ch = data[i:i + 4], *struct.unpack_from('<2I', data, i + 4)
        body = data[i + 12:i + 12 + n]
        if cid == b'XYZI':
            vox = [struct.unpack_from('4B', body, 4 + 4 * k) for k in range(struct.unpack_from('<I', body)[0])]
        elif cid == b'RGBA':
            pal = [struct.unpack_from('4B', body, 4 * k)[:3] for k in range(256)]
        i += 12 + n + ch
    return {v[:3]: v[3] for v in vox}, pal


# Space above a model that its stairs need.
ABOVE = {'egypt.stair_toplatform': [(0, 0, 1)]}


class Entities:
    def __init__(self):
        self.ents = []


class Kind:
    """A type of room: its class, and what its model says."""

    def __init__(self, disk, name, sc):
        from redeclipse.prefabs.magica import MagicaRoom
        from redeclipse.vector import CoarseVector
        from redeclipse.vector.orientations import CARDINALS
        self.name = name
        kind, what = name.split(':', 1)
        self.what = what
        if kind == 's':
            m = sc['models'][int(what) % len(sc['models'])]
            # Names alike, in different places.
            self.path = '/sim/work/set%s/room.vox' % ('0' if m.get('same') else what)
            disk.put(self.path, vox_bytes(m))
            self.doors = [(tuple(p), o) for p, o in m['doors']]
            self.off = (m['add'].get('WEST', 0), m['add'].get('SOUTH', 0), 0)
            self.cls = type('Modelled', (MagicaRoom,), {
                'name': 'modelled', 'vox_file': self.path, 'boundary_additions': dict(m['add']),
                'doors': [{'orientation': CARDINALS[o], 'offset': CoarseVector(*p)} for p, o in self.doors]})
        else:
            import redeclipse.prefabs as P
            mod, n = what.split('.')
            self.cls = getattr(getattr(P, mod), n)
            self.path = self.cls.vox_file
            self.doors = [(tup(d['offset']), placement.quarter(d['orientation'])) for d in self.cls.doors]
            add_ = getattr(self.cls, 'boundary_additions', {})
            self.off = (add_.get('WEST', 0), add_.get('SOUTH', 0), 0)
            disk.node(self.path)
        self.data = disk.content(self.path)
        self.vox, self.pal = decode(self.data)

    def drawn(self, pos, o):
        """Voxel -> colour number, for a room at a tile."""
        out = {}
        for p, c in self.vox.items():
            x, y, z = add(p, self.off)
            for _ in range(o):
                x, y = 7 - y, x
            out[(x + 8 * pos[0], y + 8 * pos[1], z + 8 * pos[2])] = c
        return out

    def offered(self, pos, o):
        return sorted((add(pos, rot(p, o)), (q + o) % 4) for p, q in self.doors)


class Sim:
    def __init__(self, sc, ctx):
        from redeclipse.voxel import VoxelWorld
        self.sc, self.ctx = sc, ctx
        self.disk = ctx.disk(rand=StockRandom('order'))
        self.kinds = {}
        self.rooms = []                 # (room, kind, how it came about)
        self.damaged = set()
        self.pending = None
        self.met = 0
        self.shared = VoxelWorld(size=256)
        self.sharedvox = {}

    def kind(self, name):
        if name not in self.kinds:
            self.kinds[name] = Kind(self.disk, name, self.sc)
        return self.kinds[name]

    def attempt(self, k, what, f):
        """f() under the pending fault.  (True, result) or (False, error)."""
        fault, self.pending = self.pending, None
        before = dict(self.disk.fired)
        if fault:
            self.disk.arm([fault])
        try:
            return True, f()
        except Exception as e:
            hit = {q: n for q, n in self.disk.fired.items() if n != before.get(q, 0) and q not in ('short-read',)}
            if 'descriptor limit' in hit:
                fail('descriptors', '%s of %s with %d rooms alive fails: more than %d files are open at a time', what, k.name, len(self.rooms), self.disk.maxfd)
            if hit or k.path in self.damaged:
                self.met += 1
                return False, e
            at = in_library(e.__traceback__)
            if at is None:
                raise
            fail('fails', '%s of %s: %s: %s (%s line %d)', what, k.name, type(e).__name__, e, at.name, at.lineno)
        finally:
            self.disk.disarm()

    def make(self, s):
        from redeclipse.vector import CoarseVector
        from redeclipse.vector.orientations import CARDINALS
        k = self.kind(s['t'])
        ok, r = self.attempt(k, 'making a room', lambda: k.cls(pos=CoarseVector(*s['pos']), orientation=CARDINALS[s['o'] % 4]))
        if ok:
            self.rooms.append((r, k, 'made'))
            return r, k

    def where(self, r):
        return tup(r.pos), placement.quarter(r.orientation)

    def tiles(self, r, k):
        ok, got = self.attempt(k, 'asking for the tiles', lambda: r.get_positions())
        if not ok:
            return
        got = sorted(tup(p) for p in got)
        pos, o = self.where(r)
        want = sorted({(x // 8, y // 8, z // 8) for x, y, z in k.drawn(pos, o)} | {placement.sub(p, placement.DIRS[q]) for p, q in k.offered(pos, o)}
                      | {add(pos, rot(p, o)) for p in ABOVE.get(k.what, ())})
        if got != want:
            fail('tiles', '%s at %r facing %d claims the tiles %r, its model reaches and its doorways lead out of %r', k.name, pos, o, got[:40], want[:40])
        self.ctx.probe('tiles compared')

    def doors(self, r, k):
        ok, got = self.attempt(k, 'asking for the doorways', lambda: r.get_doorways())
        if not ok:
            return
        got = sorted((tup(d['offset']), placement.quarter(d['orientation'])) for d in got)
        pos, o = self.where(r)
        if got != k.offered(pos, o):
            fail('doorways', '%s at %r facing %d offers the doorways %r instead of %r', k.name, pos, o, got, k.offered(pos, o))
        self.ctx.probe('doorways compared')

    def draw(self, s, r, k, how):
        from redeclipse.voxel import VoxelWorld
        world = self.shared if s['w'] else VoxelWorld(size=256)
        SIM.begin(s['seed'], s['mode'], 0.5)
        before = {p: q for p, q in world.world.items()}
        try:
            ok, _ = self.attempt(k, 'drawing', lambda: r.render(world, Entities()))
        finally:
            SIM.begin(1)
        pos, o = self.where(r)
        want = k.drawn(pos, o)
        got = {}
        for p, q in world.world.items():
            if before.get(p) is not q:
                got[tup(p)] = q
        if not ok:
            if got:
                fail('part', 'drawing %s failed because its model could not be read, having drawn %d of %d voxels', k.name, len(got), len(want))
            return
        if set(got) != set(want):
            lacks, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want), key=repr)
            fail('voxels', '%s (%s) at %r facing %d: %d voxels of its model were not drawn (first %r), %d others were (first %r)', k.name, how, pos, o,
                 len(lacks), lacks[:1], len(extra), extra[:1])
        from redeclipse.prefabs import TEXMAN
        atlas = list(TEXMAN.atlas.values())
        tex = {}
        for p, q in got.items():
            c = k.pal[want[p]]
            t = tuple(q.texture)
            if len(set(t)) != 1:
                fail('colour', '%s at %r: the faces of the voxel at %r have the textures %r', k.name, pos, p, t)
            if tex.setdefault(c, t[0]) != t[0]:
                fail('colour', '%s: voxels of the colour %r have the textures %d and %d', k.name, c, tex[c], t[0])
            if k.what in CHOOSES or k.what in RED and c == (255, 0, 0):
                continue
            have = atlas[t[0]] if 0 <= t[0] < len(atlas) else None
            rgb = [getattr(have, a, None) for a in 'rgb']
            if None in rgb or any(abs(a * 255 - b) > 0.255 for a, b in zip(rgb, c)):
                fail('colour', '%s at %r facing %d: the voxel at %r has the colour %r in the model and the texture %d of colour %r on the map', k.name, pos, o, p, c,
                     t[0], rgb)
        self.ctx.probe('drawings compared')
        self.ctx.nontrivial = True
        self.ctx.state(k.what if k.name[0] == 'm' else (len(k.vox), k.off), o, how, min(self.met, 3), min(len(self.rooms), 8))
        self.ctx.log('drew', k.name, pos, o, how, len(got), len(tex))

    def run(self):
        sc, disk = self.sc, self.disk
        disk.rchunk = sc['rchunk']
        for s in sc['steps']:
            if s['op'] in ('draw', 'ask', 'copies') and not self.rooms:
                continue
            if s['op'] == 'make':
                self.make(s)
            elif s['op'] == 'crowd':
                # As many rooms as a map has, all of them kept.
                disk.maxfd = sc['fds'] and len(disk.fds) + sc['fds']
                for j in range(s['n']):
                    got = self.make(s)
                    if got:
                        self.tiles(*got)
                disk.maxfd = None
                self.ctx.fault('descriptor limit of %s' % sc['fds'])
            elif s['op'] == 'ask':
                r, k, how = self.rooms[s['i'] % len(self.rooms) if s['i'] >= 0 else -1]
                (self.tiles if s['q'] == 'tiles' else self.doors)(r, k)
                self.ctx.log('asked', k.name, s['q'])
            elif s['op'] == 'draw':
                self.draw(s, *self.rooms[s['i'] % len(self.rooms) if s['i'] >= 0 else -1])
            elif s['op'] == 'copies':
                from redeclipse.upm import UnusedPositionManager
                r, k, how = self.rooms[s['i'] % len(self.rooms)]
                if s['mirror'] not in (1, 2, 4):
                    raise Invalid()
                upm = UnusedPositionManager(256, mirror=s['mirror'], noclip=True)
                ok, _ = self.attempt(k, 'placing a room', lambda: upm.register_room(r))
                if ok:
                    if len(upm.rooms) != s['mirror']:
                        fail('copies', 'placing %s with mirror mode %d gave %d rooms', k.name, s['mirror'], len(upm.rooms))
                    self.rooms += [(q, k, 'placed') for q in upm.rooms]
                    self.ctx.log('copies', k.name, s['mirror'])
            elif s['op'] == 'fault':
                self.pending = s['f']
                self.ctx.log('fault', s['f']['of'], s['f']['kind'])
            elif s['op'] == 'damage':
                k = self.kind(s['t'])
                n = disk.node(k.path)
                if s['missing']:
                    disk.files.pop(k.path, None)
                    disk.gone.add(k.path)
                else:
                    n.data[:] = k.data[:int(s['cut'] * len(k.data))]
                self.damaged.add(k.path)
                self.ctx.fault('model file ' + ('missing' if s['missing'] else 'cut short'))
                continue
            if s['op'] not in ('fault', 'make') and self.damaged:
                # The files are put back as they were.
                for k in self.kinds.values():
                    if k.path in self.damaged:
                        disk.gone.discard(k.path)
                        disk.put(k.path, k.data)
                self.damaged.clear()


def run(sc, ctx):
    sim = Sim(sc, ctx)
    with fs.mounted(sim.disk):
        sim.run()
