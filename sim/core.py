"""Runs, seeds, workers, minimisation, replay files, evidence."""
import gc
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import traceback

from . import env, clock
from .rng import StockRandom as Random

RUN_WALL = 120                     # seconds before a run counts as a harness failure


class Violation(BaseException):
    """The property is broken.  cls names what is broken, stably, so that a
    smaller run can be recognised as the same failure."""

    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg


class Invalid(BaseException):
    """This scenario says nothing (only shrinking produces such)."""


class HarnessError(Exception):
    pass


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256('/'.join(map(str, parts)).encode()).digest()[:8], 'big')


class Ctx:
    """What a run reports back."""

    def __init__(self):
        self.events = []
        self.hash = hashlib.sha256()
        self.nev = 0
        self.fps = set()
        self.probes = {}
        self.faults = {}
        self.disks = []
        self.nontrivial = False
        self.meta = {}

    def log(self, *ev):
        s = repr(ev)
        self.nev += 1
        self.hash.update(s.encode())
        if len(self.events) < 400:
            self.events.append(s[:300])

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def state(self, *what):
        """Note a distinct state or interleaving."""
        self.fps.add(hashlib.sha256(repr(what).encode()).digest()[:8])

    def disk(self, **kw):
        from . import fs
        d = fs.Disk(**kw)
        self.disks.append(d)
        return d

    def random(self, spec, cap=None):
        """Start the simulated random source from its part of the scenario."""
        from .rng import SIM
        SIM.begin(spec['seed'], spec.get('mode', 'natural'), spec.get('p', 0.0), cap, spec.get('entropy', 0),
                  spec.get('forced', ()))
        self.rspec = spec


def fail(cls, fmt, *a):
    raise Violation(cls, fmt % a if a else fmt)


def prop(pid):
    return importlib.import_module('props.' + pid.lower())


def in_library(tb):
    """The innermost frame of library code under a traceback, if any."""
    found = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(env.PKG):
            found = f
    return found


def run_one(pid, scenario, steps=None, want_events=False):
    """Execute one scenario in this process.  The process must be fresh."""
    from .rng import SIM, Budget, set_entropy
    from .steps import Stuck
    mod = prop(pid)
    ctx = Ctx()
    gc.collect()
    gc.disable()
    SIM.begin(scenario.get('rng', {}).get('seed', 1) if isinstance(scenario.get('rng'), dict) else 1)
    set_entropy(scenario.get('entropy', 7))
    clock.CLOCK.set(scenario.get('clock', 1.5e9))
    res = {'ok': True, 'violation': None, 'error': None, 'invalid': False}
    limit = getattr(mod, 'STEP_LIMIT', 60_000_000)
    try:
        if env.STEPS is not None:
            env.STEPS.budget(limit)
        mod.run(scenario, ctx)
    except Violation as v:
        res['violation'] = {'cls': v.cls, 'msg': v.msg}
    except Invalid:
        res['invalid'] = True
    except Stuck:
        res['violation'] = {'cls': 'no-progress', 'msg': 'still running after %d steps of library code' % limit}
    except Budget as e:
        res['violation'] = {'cls': 'no-progress', 'msg': 'no end in sight: %s' % e}
    except BaseException as e:
        f = in_library(e.__traceback__)
        if f is not None and not isinstance(e, HarnessError):
            res['violation'] = {'cls': 'unexpected-' + type(e).__name__,
                                'msg': '%s: %s (in %s, %s:%d)' % (type(e).__name__, e, f.name, f.filename[len(env.REPO) + 1:], f.lineno)}
        else:
            res['error'] = traceback.format_exc()
    finally:
        if env.STEPS is not None:
            res['steps'] = env.STEPS.stop()
    for d in ctx.disks:
        for k, v in d.fired.items():
            ctx.faults[k] = ctx.faults.get(k, 0) + v
    if SIM.forced:
        ctx.fault('random-outcome', SIM.forced)
    if res['violation']:
        ctx.log('VIOLATION', res['violation']['cls'])
    res.update(digest=ctx.hash.hexdigest()[:24], nev=ctx.nev, fps=ctx.fps, probes=ctx.probes, faults=ctx.faults,
               simtime=clock.CLOCK.elapsed(), nontrivial=ctx.nontrivial, draws=SIM.draws, meta=ctx.meta)
    if want_events or res['violation']:
        res['events'] = ctx.events
        res['forced'] = list(SIM.record or [])
    return res


def forked(pid, scenario, wall=RUN_WALL, want_events=False):
    """Execute one scenario in a forked copy of this (pristine) process."""
    r, w = os.pipe()
    pid_ = os.fork()
    if pid_ == 0:
        code = 0
        try:
            os.close(r)
            nul = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(nul, fd)
            res = run_one(pid, scenario, want_events=want_events)
            data = pickle.dumps(res)
            from .fs import R
            off = 0
            data = struct.pack('<Q', len(data)) + data
            while off < len(data):
                off += R['write'](w, data[off:off + 65536])
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = clock.real_monotonic() + wall
    killed = False
    while True:
        left = deadline - clock.real_monotonic()
        if left <= 0:
            killed = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if killed:
        os.kill(pid_, signal.SIGKILL)
    _, st = os.waitpid(pid_, 0)
    if killed:
        return {'ok': False, 'violation': None, 'error': 'run killed after %d s of wall time' % wall, 'wall': True}
    if len(buf) < 8 or len(buf) != 8 + struct.unpack('<Q', buf[:8])[0]:
        return {'ok': False, 'violation': None, 'error': 'run process died: status %d' % st}
    return pickle.loads(bytes(buf[8:]))


def scenario_of(pid, seed, tier, index):
    mod = prop(pid)
    rng = Random(seed_of(seed, pid, index))
    return mod.gen(rng, tier, index)


# -- exploration ---------------------------------------------------------------
def explore(pid, seed, tier, runs, jobs, wall):
    """Run `runs` seeds over `jobs` worker processes.  Returns the merged
    report; stops soon after a violation."""
    t0 = clock.real_monotonic()
    workers = []
    for j in range(jobs):
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            for x in workers:
                os.close(x[1])
            out = os.fdopen(w, 'wb') if False else None
            try:
                from .fs import R

                def send(obj):
                    d = pickle.dumps(obj)
                    d = struct.pack('<Q', len(d)) + d
                    o = 0
                    while o < len(d):
                        o += R['write'](w, d[o:o + 65536])
                start = getattr(prop(pid), 'worker', None)
                if start:
                    start(range(j, runs, jobs))
                for i in range(j, runs, jobs):
                    if clock.real_monotonic() - t0 > wall:
                        break
                    sc = scenario_of(pid, seed, tier, i)
                    res = forked(pid, sc)
                    send((i, sc if (res.get('violation') or res.get('error') or i < 3) else None, res))
            except BaseException:
                send((-1, None, {'error': traceback.format_exc()}))
            finally:
                os._exit(0)
        os.close(w)
        workers.append((p, r))
    rep = Report(pid, seed, tier)
    bufs = {r: bytearray() for _, r in workers}
    live = dict((r, p) for p, r in workers)
    stop_at = None
    while live:
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            chunk = os.read(r, 1 << 18)
            b = bufs[r]
            if not chunk:
                os.close(r)
                os.waitpid(live.pop(r), 0)
                continue
            b += chunk
            while len(b) >= 8:
                n = struct.unpack('<Q', b[:8])[0]
                if len(b) < 8 + n:
                    break
                rep.add(*pickle.loads(bytes(b[8:8 + n])))
                del b[:8 + n]
        if rep.violations and stop_at is None:
            stop_at = clock.real_monotonic() + float(os.environ.get("VERIF_GRACE") or 3.0)
        if stop_at is not None and clock.real_monotonic() > stop_at:
            for r, p in list(live.items()):
                try:
                    os.kill(p, signal.SIGTERM)
                except OSError:
                    pass
                os.waitpid(p, 0)
                os.close(r)
                del live[r]
    rep.wall = clock.real_monotonic() - t0
    return rep


class Report:
    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.runs = 0
        self.digests = {}
        self.fps = set()
        self.sigs = set()
        self.nontrivial = 0
        self.faults, self.probes = {}, {}
        self.simtime = 0.0
        self.steps = self.draws = self.events = 0
        self.invalid = 0
        self.violations, self.errors, self.samples = [], [], []
        self.meta = {}
        self.wall = 0.0

    def add(self, i, sc, res):
        if res.get('error'):
            self.errors.append((i, sc, res['error']))
            return
        self.runs += 1
        self.digests[i] = res['digest']
        new = res['digest'] not in self.sigs
        self.sigs.add(res['digest'])
        self.fps |= res['fps']
        if res['invalid']:
            self.invalid += 1
        elif res['nontrivial'] and new:
            self.nontrivial += 1
        for a, b in ((self.faults, res['faults']), (self.probes, res['probes'])):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        self.simtime += res['simtime']
        self.steps += res.get('steps', 0)
        self.draws += res['draws']
        self.events += res['nev']
        for k, v in res['meta'].items():
            self.meta.setdefault(k, {})
            self.meta[k][str(v)] = self.meta[k].get(str(v), 0) + 1
        if res['violation']:
            self.violations.append((i, sc, res))
        elif sc is not None and len(self.samples) < 3:
            self.samples.append({'seed_index': i, 'scenario': sc})


# -- minimisation ----------------------------------------------------------------
def simpler(x, key=None):
    """Smaller variants of a JSON value, most drastic first."""
    if isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        for y in (0, 1, 2, x // 2, x - 1):
            if 0 <= y < x:
                yield y
    elif isinstance(x, float):
        for y in (0.0, 1.0, float(int(x))):
            if abs(y) < abs(x):
                yield y
    elif isinstance(x, list):
        n = len(x)
        size = n
        while size >= 1:
            for s in range(0, n, size):
                yield x[:s] + x[s + size:]
            size //= 2
        for i, v in enumerate(x):
            for y in simpler(v):
                yield x[:i] + [y] + x[i + 1:]
    elif isinstance(x, dict):
        for k in x:
            for y in simpler(x[k], k):
                d = dict(x)
                d[k] = y
                yield d


def minimise(pid, scenario, res, wall=30.0, jobs=8):
    """Greedily shrink the scenario while the same violation class persists."""
    cls = res['violation']['cls']
    t0 = clock.real_monotonic()
    tried = 0

    def same(sc):
        nonlocal tried
        tried += 1
        r = forked(pid, sc, wall=20, want_events=True)
        v = r.get('violation')
        return r if v and v['cls'] == cls else None
    # Turn a random-fault policy into the explicit list of forced outcomes.
    rs = scenario.get('rng')
    if isinstance(rs, dict) and rs.get('mode', 'natural') != 'natural' and res.get('forced') is not None:
        sc = dict(scenario, rng=dict(rs, mode='list', p=0.0, forced=res['forced']))
        if len(res['forced']) < 5000:
            r = same(sc)
            if r:
                scenario, res = sc, r
    seen = set()
    again = True
    while again and clock.real_monotonic() - t0 < wall:
        again = False
        for cand in simpler(scenario):
            if clock.real_monotonic() - t0 > wall:
                break
            key = json.dumps(cand, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            r = same(cand)
            if r:
                scenario, res = cand, r
                again = True
                break
    return scenario, res, tried
