"""The simulated random source.

``SIM`` replaces the hidden generator behind the functions of the ``random``
module, so every draw the library makes is made here.  In mode ``natural`` it
draws exactly what the stock generator would draw for the same seed.  In the
other modes some draws are replaced by legal but unusual outcomes.
"""
import random as _random

StockRandom = _random.Random
ONE = 1.0 - 2.0 ** -53          # largest value random() can return


class Budget(BaseException):
    """More work than any terminating run needs."""


class SimRandom(StockRandom):
    def __init__(self, x=0):
        self.mode = 'natural'
        self.p = 0.0
        self.pol = StockRandom(0)
        self.draws = 0
        self.cap = None
        self.forced = 0
        self.trace = None
        self.asked = 0
        self.listed = {}
        self.record = None
        self._last = (None, None)
        self._same = 0
        self.entropy = StockRandom(0)
        self.watch = None
        super().__init__(x)

    # -- control, for the simulator only --------------------------------
    def begin(self, seed, mode='natural', p=0.0, cap=None, entropy=0, forced=()):
        StockRandom.seed(self, seed)
        self.mode = mode
        self.p = p
        self.pol = StockRandom('policy/%s' % seed)
        self.draws = 0
        self.forced = 0
        self.asked = 0
        self.listed = {}
        self.record = []
        self.cap = cap
        self.watch = None
        self._last = (None, None)
        self._same = 0
        self.entropy = StockRandom('entropy/%s' % entropy)
        self.listed = {k: v for k, v in forced}

    # -- what the library sees ------------------------------------------
    def seed(self, a=None, version=2):
        if a is None:
            a = self.entropy.getrandbits(256) if hasattr(self, 'entropy') else 0
        StockRandom.seed(self, a, version)

    def _tick(self):
        self.draws += 1
        if self.watch is not None:
            self.watch()            # the simulator looks at the state between draws
        if self.cap is not None and self.draws > self.cap:
            raise Budget('more than %d random draws' % self.cap)

    def _force(self):
        """One of None, 'low', 'high', 'mid': the outcome forced on this draw."""
        f = self._pick()
        if self.mode != 'list':
            self.asked += 1
            if f and self.record is not None and len(self.record) < 20000:
                self.record.append([self.asked - 1, f])
        return f

    def _pick(self):
        m = self.mode
        if m == 'natural':
            return None
        if m in ('low', 'high', 'mid'):
            return m
        if m == 'mixed':
            if self.pol.random() < self.p:
                return self.pol.choice(('low', 'high', 'mid', 'low', 'high'))
            return None
        if m == 'list':          # exactly the listed draws (minimised schedules)
            self.asked += 1
            return self.listed.get(self.asked - 1)
        if m == 'runs':          # long runs of one extreme
            if self._same <= 0:
                self._same = self.pol.randrange(1, 30)
                self._run = self.pol.choice((None, 'low', 'high', 'mid'))
            self._same -= 1
            return self._run
        raise ValueError(m)

    def random(self):
        self._tick()
        v = StockRandom.random(self)
        f = self._force()
        if f:
            self.forced += 1
            v = {'low': 0.0, 'high': ONE, 'mid': 0.5}[f]
        if self.trace is not None:
            self.trace.append(v)
        return v

    def getrandbits(self, k):
        self._tick()
        v = StockRandom.getrandbits(self, k)
        if self.trace is not None:
            self.trace.append(v)
        return v

    def _randbelow(self, n):
        f = self._force()
        if f:
            v = {'low': 0, 'high': n - 1, 'mid': n // 2}[f]
            # A rejection loop in the standard library may ask again until it
            # sees a new value; never starve it.
            if self._last == (n, v):
                self._rep = getattr(self, '_rep', 0) + 1
            else:
                self._rep = 0
            self._last = (n, v)
            if self._rep < 200:
                self._tick()
                self.forced += 1
                if self.trace is not None:
                    self.trace.append(v)
                return v
        k = n.bit_length()
        r = self.getrandbits(k)
        while r >= n:
            r = self.getrandbits(k)
        return r


SIM = SimRandom(0)
_ENTROPY = StockRandom('os')


def set_entropy(seed):
    _ENTROPY.seed('os/%s' % (seed,))


def sim_urandom(n):
    return bytes(_ENTROPY.getrandbits(8) for _ in range(n))


class SeededRandom(StockRandom):
    """Stands in for random.Random: an unseeded instance draws its seed from
    the simulated operating system."""

    def __init__(self, x=None):
        super().__init__(_ENTROPY.getrandbits(256) if x is None else x)

    def seed(self, a=None, version=2):
        if a is None:
            a = _ENTROPY.getrandbits(256)
        super().seed(a, version)


def install():
    import os
    inst = _random._inst
    for name in dir(_random):
        obj = getattr(_random, name)
        if getattr(obj, '__self__', None) is inst:
            setattr(_random, name, getattr(SIM, name))
    _random._inst = SIM
    _random.Random = SeededRandom
    _random._urandom = sim_urandom
    os.urandom = sim_urandom
    os.getrandom = lambda n, flags=0: sim_urandom(n)
