#!/opt/venv/bin/python
"""check.py run P06 [--tier quick|thorough] [--runs N]   explore a property
check.py replay FILE                                     repeat a violation
check.py one P06 INDEX                                   one run, with its log
check.py digests P06 I J K ...                           event-log digests of runs"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import env            # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['run', 'replay', 'one', 'digests', 'zygote'])
    ap.add_argument('what')
    ap.add_argument('rest', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--hashseed', default='0')
    ap.add_argument('--wall', type=float)
    a = ap.parse_intermixed_args()
    env.settle([os.path.join(HERE, 'check.py')] + sys.argv[1:], a.hashseed)
    if a.cmd == 'zygote':
        from sim import zygote
        return zygote.serve(a.hashseed)
    t0 = time.monotonic()
    env.boot()
    from sim import core
    if a.cmd == 'replay':
        return replay(core, a)
    if a.cmd == 'one':
        sc = core.scenario_of(a.what, a.seed, a.tier, int(a.rest[0]))
        print(json.dumps(sc))
        res = core.forked(a.what, sc, want_events=True)
        for e in res.pop('events', []):
            print('  ', e)
        res.pop('fps', None)
        res.pop('forced', None)
        print(json.dumps(res, indent=1, default=str))
        return 0
    if a.cmd == 'digests':
        out = {}
        for i in a.rest:
            res = core.forked(a.what, core.scenario_of(a.what, a.seed, a.tier, int(i)))
            out[i] = res.get('digest') or res.get('error')
        print(json.dumps(out))
        return 0
    return run(core, a, t0)


def load_known():
    out = []
    with open(os.path.join(HERE, 'known_findings.txt')) as h:
        for line in h:
            line = line.rstrip('\n')
            if line.startswith('finding: '):
                out.append(json.loads(line[len('finding: '):]))
    return out


def known_match(known, pid, violation):
    for k in known:
        if k['property'] == pid and k['cls'] == violation['cls'] and k['match'] in violation['msg']:
            return k
    return None


def run(core, a, t0):
    pid = a.what.upper()
    mod = core.prop(pid)
    runs = a.runs or mod.RUNS[a.tier]
    wall = a.wall or {'quick': 240.0, 'thorough': 720.0}[a.tier]
    known = load_known()
    print('%s tier=%s VERIF_SEED=%d runs=%d jobs=%d code=%s' % (pid, a.tier, a.seed, runs, a.jobs, env.REPO), flush=True)
    rep = core.explore(pid, a.seed, a.tier, runs, a.jobs, wall)
    code = 0
    hits = {}
    fresh = []
    for i, sc, res in sorted(rep.violations, key=lambda v: v[0]):
        k = known_match(known, pid, res['violation'])
        if k:
            hits[k['what']] = hits.get(k['what'], 0) + 1
        else:
            fresh.append((i, sc, res))
    for what in hits:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    problems = list(rep.errors)
    stat = getattr(mod, 'overall', None)
    if stat and not fresh:
        # Statistics over all runs are judged together; each run still replays.
        for bad in stat(rep):
            fresh.append(bad)
    redo = {'checked': 0, 'different': 0}
    viol = None
    if fresh:
        i, sc, res = fresh[0]
        small, sres, tried = core.minimise(pid, sc, res, wall=25.0 if a.tier == 'quick' else 90.0)
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d-%d.json' % (pid, a.seed, i))
        with open(path, 'w') as h:
            json.dump({'property': pid, 'VERIF_SEED': a.seed, 'seed_index': i, 'tier': a.tier, 'violation': sres['violation'],
                       'digest': sres['digest'], 'minimisation_runs': tried, 'scenario': small, 'original_scenario': sc,
                       'events': sres.get('events', [])[-120:]}, h, indent=1)
            h.write('\n')
        p = subprocess.run([env.PYTHON, '-B', os.path.join(HERE, 'check.py'), 'replay', path, '--hashseed', '12345'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env={k: v for k, v in os.environ.items() if k != 'VERIF_SETTLED'})
        print('%d violating run(s); first: seed index %d' % (len(fresh), i))
        print('%s: %s' % (sres['violation']['cls'], sres['violation']['msg']))
        print('minimised in %d runs; replay in a fresh process: %s' % (
            tried, 'reproduced exactly' if p.returncode == 1 else 'NOT reproduced (exit %d)\n%s' % (p.returncode, p.stdout[-2000:])))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        viol = sres['violation']
        code = 1
    elif problems:
        for i, sc, e in problems[:3]:
            print('ERROR in run %s: %s' % (i, e))
        code = 2
    elif rep.runs == 0 or rep.invalid > rep.runs * 0.5:
        print('ERROR: %d runs, %d of them void' % (rep.runs, rep.invalid))
        code = 2
    else:
        n = getattr(mod, 'REDO', 6 if a.tier == 'quick' else 40)
        have = sorted(i for i in rep.digests if getattr(mod, 'REDO_OK', lambda i: True)(i))
        pick = have[::max(1, len(have) // n)][:n]
        env2 = {k: v for k, v in os.environ.items() if k != 'VERIF_SETTLED'}
        p = subprocess.run([env.PYTHON, '-B', os.path.join(HERE, 'check.py'), 'digests', pid, '--tier', a.tier, '--seed', str(a.seed),
                            '--hashseed', '987654'] + [str(x) for x in pick],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env2)
        try:
            got = json.loads(p.stdout)
        except ValueError:
            print('ERROR: repeat in a fresh process failed: %s' % p.stderr[-1500:])
            got = {}
            code = 2
        redo['checked'] = len(got)
        redo['different'] = sum(1 for k in got if got[k] != rep.digests[int(k)])
        print('%d runs held; %d distinct states; repeat in a fresh interpreter: %d of %d identical' % (
            rep.runs, len(rep.fps), redo['checked'] - redo['different'], redo['checked']))
    total = core.clock.real_monotonic() - t0
    ev = {
        'property': pid, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': rep.runs, 'distinct_nontrivial': rep.nontrivial, 'rule': mod.RULE, 'samples': rep.samples,
            'runs_per_hour': int(rep.runs / max(rep.wall, 1e-9) * 3600), 'seeds_per_hour': int(len(rep.digests) / max(rep.wall, 1e-9) * 3600),
            'simulated_seconds': round(rep.simtime, 3), 'faults_injected': dict(sorted(rep.faults.items())),
            'rare_conditions_hit': dict(sorted(rep.probes.items())),
            'distinct_states': len(rep.fps), 'distinct_states_measure': mod.MEASURE,
            'distinct_event_logs': len(rep.sigs), 'library_steps': rep.steps, 'random_draws': rep.draws, 'events': rep.events,
            'void_runs': rep.invalid, 'mix': {k: dict(sorted(v.items(), key=lambda t: -t[1])[:40]) for k, v in rep.meta.items()},
            'real_components': mod.REAL, 'stub_components': mod.STUB,
            'determinism_recheck': redo, 'violation': viol, 'known_findings_hit': hits,
        },
        'assumptions': mod.ASSUME,
        'wall_s': round(total, 2),
        'violations': len(fresh),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as h:
        json.dump(ev, h, indent=1, default=str)
        h.write('\n')
    return code


def replay(core, a):
    with open(a.what) as h:
        rec = json.load(h)
    res = core.forked(rec['property'], rec['scenario'], want_events=True)
    if res.get('error'):
        print(res['error'])
        return 2
    v = res.get('violation')
    print('seed index %s of VERIF_SEED %s' % (rec['seed_index'], rec['VERIF_SEED']))
    for e in res.get('events', [])[-60:]:
        print('  ', e)
    if not v:
        print('the recorded run holds now')
        return 0
    same = v['cls'] == rec['violation']['cls'] and res['digest'] == rec['digest']
    print('%s: %s' % (v['cls'], v['msg']))
    print('identical to the recorded run' if same else 'differs from the recorded run')
    if v['cls'] != rec['violation']['cls']:
        return 3
    print('VIOLATION property=%s replay=%s' % (rec['property'], a.what))
    return 1


if __name__ == '__main__':
    sys.exit(main())
