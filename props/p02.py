"""Storage errors while saving, exporting or installing are reported."""
from sim import fs
from sim.core import fail, Invalid
from . import storage as S

RUNS = {'quick': 1500, 'thorough': 40000}
RULE = 'a run in which at least one storage error was injected into a save, export or installation, with an event log unlike any other'
MEASURE = 'distinct (kind of output, files asked for, kind of error, operation it hit, file it hit, how much of the data got through)'
REAL = ['redeclipse.Map.write', 'redeclipse.cli.output', 'redeclipse.voxel / magicavoxel.writer', 'redeclipse.textures (emit_conf, copy_data)',
        'redeclipse.skybox', 'gzip, shutil, io buffering of the standard library']
STUB = ['operating-system file interface (simulated disk with faults)', 'random, time']
ASSUME = ['Errors strike operations made during the call; opening the output arguments beforehand is argparse\'s job.',
          'Error codes: EACCES, EPERM, EMFILE, ENFILE, ENOSPC, EROFS, EIO, EDQUOT and a device that fills up.']
KINDS = ('map', 'map', 'export', 'export', 'vox', 'conf', 'sky', 'tex')
ERRS = ('EACCES', 'EPERM', 'EMFILE', 'ENFILE', 'ENOSPC', 'EROFS', 'EIO', 'EDQUOT')


def gen(rng, tier, index):
    fl = []
    for _ in range(rng.choice((1, 2, 3, 5))):
        f = {'frac': rng.random(), 'kind': rng.choice(ERRS + ('full',)), 'sticky': rng.random() < 0.4,
             'part': rng.choice((0, 0, 0.3, 0.9)), 'restart': rng.random() < 0.5,
             # any operation, or one of a kind of operation on one of the files
             'sort': rng.choice((None, rng.random(), rng.random()))}
        fl.append(f)
    return {'job': S.gen_job(rng, KINDS), 'faults': fl, 'pre': [rng.choice((None, 0, 1, 60, 3000, rng.random())) for _ in range(4)],
            'wchunk': rng.choice((None, None, 4096, 700)), 'rng': {'seed': rng.randrange(2 ** 32)}}


def prepare(sc, job, ctx):
    disk = ctx.disk()
    job.disk = disk
    S.fill(disk, job, sc['pre'])
    return disk


def chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


def run(sc, ctx):
    if sc['wchunk'] is not None and sc['wchunk'] < 1:
        raise Invalid()
    scout = ctx.disk()
    with fs.mounted(scout):
        job = S.Job(sc['job'], scout)
    ctx.meta['kind'] = job.kind
    # how many operations, and how much data, when nothing goes wrong
    disk = prepare(sc, job, ctx)
    with fs.mounted(disk):
        job.prepare()
        disk.wchunk = sc['wchunk']
        before = disk.used()
        disk.arm()
        job.go()
        n = disk.n
        ops = list(disk.log)
        disk.heal()
        amount = sum(o[2] for o in ops if o[0] == 'write')
        bad = job.check()
        if bad:
            fail('incomplete', 'with no error: %s', bad)
    if not n:
        raise Invalid()
    mem = job.memory()
    ctx.log('plain', job.kind, n, amount)
    for f in sc['faults']:
        disk = prepare(sc, job, ctx)
        with fs.mounted(disk):
            attempt(sc, job, disk, f, ops, amount, before, mem, ctx)


def pick(f, ops):
    """The operation to fail."""
    if f.get('sort') is None:
        return min(int(f['frac'] * len(ops)), len(ops) - 1)
    sorts = sorted({o[:2] for o in ops}, key=str)
    want = sorts[min(int(f['sort'] * len(sorts)), len(sorts) - 1)]
    at = [i for i, o in enumerate(ops) if o[:2] == want]
    return at[min(int(f['frac'] * len(at)), len(at) - 1)]


def attempt(sc, job, disk, f, ops, amount, before, mem, ctx):
    job.prepare()
    disk.wchunk = sc['wchunk']
    at = pick(f, ops)
    if f['kind'] == 'full':
        disk.arm()
        disk.capacity = disk.used() + int(f['frac'] * amount)
        want = 'ENOSPC'
    else:
        disk.arm([{'at': at, 'kind': f['kind'], 'sticky': f['sticky'], 'part': f['part']}])
        want = f['kind']
    err = None
    start = sum(disk.fired.get(e, 0) for e in ERRS)
    try:
        job.go()
    except Exception as e:
        err = e
    hit = sum(disk.fired.get(e, 0) for e in ERRS) - start
    where = disk.log[at] if at < len(disk.log) else None
    disk.heal()
    ctx.log('fault', f['kind'], at, where, hit, type(err).__name__)
    if hit:
        ctx.nontrivial = True
        ctx.state(job.kind, sorted(job.paths), f['kind'], where and where[:2], f['part'], f['sticky'])
    if err is None:
        # nothing was reported, so everything must be there
        bad = job.check()
        if bad:
            fail('silent', 'after %s at %s, returned normally, but %s', want, where, bad)
        disk.restart()
        bad = job.check()
        if bad:
            fail('silent', 'after %s, returned normally, but %s', want, bad)
    elif not hit:
        raise err
    else:
        no = fs.ERR[want]
        if not any(isinstance(e, OSError) and e.errno == no for e in chain(err)):
            fail('disguised', '%s at %s was reported as %s: %s', want, where, type(err).__name__, err)
    if job.memory() != mem:
        fail('disturbed', '%s at %s changed the map, world or palette in memory', want, where)
    # storage has recovered: once more
    if f['restart']:
        disk.restart()
    job.prepare()
    job.go()
    if not f['restart']:
        disk.collect()
    disk.restart()
    bad = job.check()
    if bad:
        fail('retry', 'repeated after %s at %s: %s', want, where, bad)
    if job.memory() != mem:
        fail('disturbed', 'the repetition changed the map, world or palette in memory')
