"""A save or export that returned is completely on disk."""
from sim import fs
from sim.core import fail, Invalid
from . import storage as S

RUNS = {'quick': 1600, 'thorough': 40000}
RULE = 'a run in which at least one save returned and its files were read back after the process was killed, with an event log unlike any other'
MEASURE = 'distinct (kind of save, earlier content, write size limit, sequence position, sizes of the files written)'
REAL = ['redeclipse.Map.write', 'redeclipse.cli.output', 'redeclipse.voxel / magicavoxel.writer', 'redeclipse.textures (emit_conf, copy_data)',
        'gzip, shutil, io buffering of the standard library']
STUB = ['operating-system file interface (simulated disk)', 'process death (handles and their buffers are dropped)', 'random, time']
ASSUME = ['The process is killed, the machine keeps running: data handed to the operating system survives (no power loss).',
          'Garbage collection, reference counting included, closes no file.']


def gen(rng, tier, index):
    jobs = [S.gen_job(rng) for _ in range(rng.choice((1, 1, 2, 3)))]
    return {'jobs': jobs, 'pre': [rng.choice((None, 0, 1, 60, 3000, 200000, rng.random(), rng.random())) for _ in range(4)],
            'wchunk': rng.choice((None, None, 1, 7, 100, 511, 4096)), 'one_process': rng.random() < 0.4, 'gc': rng.randrange(3),
            'rng': {'seed': rng.randrange(2 ** 32)}}


def run(sc, ctx):
    disk = ctx.disk()
    done = []
    with fs.mounted(disk):
        for k, j in enumerate(sc['jobs']):
            job = S.Job(j, disk)
            ctx.meta.setdefault('kinds', '')
            ctx.meta['kinds'] += j['kind'] + ' '
            S.fill(disk, job, sc['pre'])
            disk.wchunk = sc['wchunk'] or None
            job.prepare()
            job.go()
            disk.wchunk = None
            if not sc['one_process']:
                # this very moment the process dies
                disk.restart()
                ctx.fault('kill after return')
            bad = job.check()
            sizes = tuple(len(disk.content(p) or b'') for p in sorted(job.paths.values()))
            ctx.log('saved', job.kind, job.name, sizes, bad)
            ctx.state(job.kind, sc['pre'], sc['wchunk'], k, sizes)
            if bad:
                fail('incomplete', 'after %s returned: %s', job.kind, bad)
            done = [o for o in done if not set(o.paths.values()) & set(job.paths.values()) and
                    not (o.kind == 'map' and job.kind == 'conf' and o.name == job.name)]
            if job.kind != 'conf':
                done.append(job)
            for o in done:
                if 'cfg' in o.paths or 'vox' in o.paths:
                    continue               # the palette has grown since
                bad = o.check()
                if bad:
                    fail('damaged-later', 'saving %s damaged an earlier file: %s', job.kind, bad)
            ctx.nontrivial = True
            if sc['one_process'] and k == sc['gc']:
                n = disk.collect()
                ctx.fault('late garbage collection')
                ctx.log('collected', n)
                for o in done:
                    bad = None if 'cfg' in o.paths or 'vox' in o.paths and o is not job else o.check()
                    if bad:
                        fail('damaged-later', 'garbage collection damaged a file: %s', bad)
