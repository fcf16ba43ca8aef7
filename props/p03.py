"""A damaged or half-written map is never read as a different map."""
from sim import env, fs
from sim.core import fail, Invalid
from . import formats, maps
from . import storage as S

RUNS = {'quick': 1500, 'thorough': 40000}
RULE = 'a run in which at least one damaged or half-written file was read, with an event log unlike any other'
MEASURE = 'distinct (kind of damage or interruption, where relative to the file or the save, what reading it gave)'
REAL = ['redeclipse.MapParser', 'redeclipse.Map.write', 'redeclipse.magicavoxel reader and writer', 'gzip and io of the standard library']
STUB = ['operating-system file interface (simulated disk with damage, crashes, errors and short reads)', 'process death', 'random, time']
ASSUME = ['Damage does not forge the CRC-32 and length stored in the file (probability 2^-32 per damaged file).',
          'For a voxel model, which has no checksum, only cuts and interrupted exports are considered.']
FILES = ['tests/files/empty.mpz', 'maps/empty-day.mpz', 'maps/empty-night.mpz', 'maps/empty2.mpz']


def gen(rng, tier, index):
    vox = rng.random() < 0.2
    acts = []
    for _ in range(rng.choice((2, 4, 8))):
        k = rng.choice(('cut', 'cut', 'flip', 'flip', 'block', 'mix', 'line', 'line', 'line', 'op', 'op', 'bad', 'tail'))
        if vox:
            k = rng.choice(('cut', 'line', 'line', 'op', 'op'))
        a = {'k': k, 'frac': rng.choice((rng.random(), rng.random(), 0.0, 0.999, rng.random() ** 6, 1 - rng.random() ** 6))}
        if k == 'flip':
            a['bits'] = [[rng.choice((rng.random(), rng.random() * 0.02, 1 - rng.random() * 0.02)), rng.randrange(8)]
                         for _ in range(rng.choice((1, 1, 2, 5, 30)))]
        if k in ('block', 'mix'):
            a['size'] = rng.choice((1, 8, 64, 512, 4096))
            a['how'] = rng.choice(('zero', 'drop', 'twice', 'ff'))
        if k in ('line', 'op'):
            a['exc'] = rng.choice(('KeyboardInterrupt', 'MemoryError', 'crash') if k == 'line' else
                                  ('crash', 'crash', 'ENOSPC', 'EIO', 'KeyboardInterrupt', 'MemoryError'))
            a['part'] = rng.choice((0, 0.5, 0.9))
            a['collect'] = rng.random() < 0.4
        a['rchunk'] = rng.choice((None, None, 1, 3, 100, 5000))
        a['fresh'] = rng.random() < 0.5
        acts.append(a)
    sc = {'acts': acts, 'vox': vox, 'wchunk': rng.choice((None, None, 64, 1000)), 'rng': {'seed': rng.randrange(2 ** 32)}}
    if vox:
        sc['a'], sc['b'] = S.gen_world(rng), S.gen_world(rng)
    elif rng.random() < 0.1:
        sc['real'] = rng.randrange(len(FILES))
        sc['a'] = None
        sc['b'] = S.gen_small_map(rng)
    else:
        sc['a'], sc['b'] = S.gen_small_map(rng), S.gen_small_map(rng) if rng.random() < 0.7 else maps.gen_map(rng)
    return sc


class Side:
    """One content that is saved to the file, and how to save and read it."""

    def __init__(self, what, vox, real=None):
        self.vox = vox
        if vox:
            from redeclipse.voxel import VoxelWorld
            from redeclipse.objects import cube
            from redeclipse import prefabs
            v = VoxelWorld(size=what['size'])
            for x, y, z, c in what['vox']:
                v.set_point(x % what['size'], y % what['size'], z % what['size'],
                            cube.newtexcube(tex=prefabs.TEXMAN.get_colour(*S.colour(c))))
            self.v = v
            self.ref = sorted(tuple(k) + (q.texture[0] + 1,) for k, q in v.world.items())
        elif real is not None:
            from redeclipse import MapParser
            self.m = MapParser().read(env.REPO + '/' + real)
            with fs.real_open(env.REPO + '/' + real, 'rb') as h:
                self.ref = maps.touch(formats.parse_mpz(h.read()))
        else:
            self.m = maps.build_map(what)
            self.ref = maps.touch(maps.ref_map(what))

    def save(self, path):
        if self.vox:
            self.v.to_magicavoxel(path)
        else:
            self.m.write(path)


def read(path, vox, parser):
    if vox:
        from redeclipse.magicavoxel.reader import Magicavoxel
        g = Magicavoxel.from_file(path)
        try:
            return sorted((q.x, q.y, q.z, q.c) for q in g.model_voxels.voxels)
        finally:
            g._io.close()
    return maps.canon(parser.read(path))


def same(got, ref, vox):
    if vox:
        return got == ref
    return maps.diff(got, ref) is None


def damage(a, x, y):
    """A damaged version of the bytes x, of which y is an earlier content."""
    n = len(x)
    at = min(int(a['frac'] * n), max(0, n - 1))
    k = a['k']
    if k == 'cut':
        return x[:at]
    if k == 'tail':
        return x[at:]
    if k == 'flip':
        z = bytearray(x)
        for f, bit in a['bits']:
            z[min(int(f * n), n - 1)] ^= 1 << bit
        return bytes(z)
    s = max(1, a['size'])
    b = at // s * s
    if k == 'block':
        blk = x[b:b + s]
        new = {'zero': bytes(len(blk)), 'drop': b'', 'twice': blk + blk, 'ff': b'\xff' * len(blk)}[a['how']]
        return x[:b] + new + x[b + s:]
    if k == 'mix':
        # only the first blocks of the new content reached the disk
        return x[:b] + y[b:]
    raise Invalid()


EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'crash': fs.SimCrash}


def interrupted(a, disk, path, side, lines, ops, ctx):
    """Save, but something happens on the way.  True if it did."""
    disk.arm()
    done = False
    if a['k'] == 'line':
        env.STEPS.interrupt(1 + min(int(a['frac'] * lines), lines - 1), EXC[a['exc']])
    else:
        disk.arm([{'at': min(int(a['frac'] * ops), ops - 1), 'kind': a['exc'], 'part': a['part'], 'sticky': a['exc'].startswith('E'),
                   'after': a['part'] > 0.6}])
    try:
        side.save(path)
        done = True
    except (Exception, KeyboardInterrupt, fs.SimCrash):
        pass
    finally:
        env.STEPS.calm()
    if a['k'] == 'line':
        ctx.fault(a['exc'] + ' at a line')
        if a['exc'] == 'crash':
            disk.restart()
    disk.dead = False
    disk.disarm()
    if a['collect'] and a['exc'] != 'crash':
        disk.collect()
    disk.restart()
    return done


def run(sc, ctx):
    from redeclipse import MapParser
    disk = ctx.disk()
    vox = sc['vox']
    path = 'm.vox' if vox else 'm.mpz'
    with fs.mounted(disk):
        A = Side(sc['a'], vox, FILES[sc['real']] if sc.get('real') is not None else None)
        B = Side(sc['b'], vox)
        parser = MapParser()
        disk.wchunk = sc['wchunk'] or None

        def fresh(side):
            side.save(path)
            disk.restart()
            got = read(path, vox, parser)
            if not same(got, side.ref, vox):
                fail('undamaged', 'an undamaged file reads differently')
            return disk.content(path)
        b = fresh(B)
        a = fresh(A)
        counts = {}
        for act in sc['acts']:
            refs = [A.ref]
            if act['k'] in ('line', 'op', 'bad', 'mix'):
                refs.append(B.ref)
            if act['k'] in ('line', 'op'):
                if 'n' not in counts:
                    env.STEPS.interrupt(None)
                    disk.arm()
                    B.save(path)
                    counts['n'] = max(1, disk.n)
                    counts['l'] = max(1, env.STEPS.calm())
                    disk.restart()
                disk.put(path, a)
                interrupted(act, disk, path, B, counts['l'], counts['n'], ctx)
            elif act['k'] == 'bad':
                # the save itself fails on something that cannot be stored
                disk.put(path, a)
                B.m.texmru.append(70000)
                try:
                    B.save(path)
                except Exception:
                    ctx.fault('unstorable value')
                finally:
                    B.m.texmru.pop()
                disk.restart()
            else:
                disk.put(path, damage(act, a, b))
                ctx.fault('damage ' + act['k'])
            before = disk.snapshot()
            disk.rchunk = act['rchunk'] or None
            if act['fresh']:
                parser = MapParser()
            got, err = None, None
            try:
                got = read(path, vox, parser)
            except (Exception, SystemExit) as e:
                err = type(e).__name__
            disk.rchunk = None
            after = disk.snapshot()
            if before != after:
                fail('changed', 'reading changed %s', [p for p in set(before) | set(after) if before.get(p) != after.get(p)])
            ctx.log(act['k'], len(before.get(disk.norm(path), b'')), err)
            ctx.state(vox, act['k'], act.get('exc'), act.get('how'), int(act['frac'] * 64), err)
            ctx.nontrivial = True
            if err is None:
                ctx.probe('read in full')
                if not any(same(got, r, vox) for r in refs):
                    what = 'other voxels' if vox else maps.diff(got, refs[-1])
                    fail('different', 'after %s (%s) the file reads as something that was never saved: %s', act['k'],
                         act.get('exc') or act.get('how') or '', what)
            else:
                ctx.probe('rejected')
            disk.put(path, a)
        disk.wchunk = None
        got = read(path, vox, parser)
        if not same(got, A.ref, vox):
            fail('undamaged', 'the undamaged file reads differently after damaged ones were read')
