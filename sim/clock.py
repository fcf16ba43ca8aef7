"""The simulated clock: every way Python code can ask for the time."""
import time as _time
import datetime as _dt

real_monotonic = _time.monotonic
real_perf_counter = _time.perf_counter
real_time = _time.time


class Clock:
    def __init__(self):
        self.now = 1.5e9
        self.start = self.now
        self.tick = 1e-6

    def set(self, t):
        self.now = float(t)
        self.start = self.now

    def advance(self, dt):
        self.now += dt

    def elapsed(self):
        return self.now - self.start


CLOCK = Clock()


def install():
    def t():
        CLOCK.now += CLOCK.tick
        return CLOCK.now
    _time.time = t
    _time.time_ns = lambda: int(t() * 1e9)
    _time.monotonic = lambda: t() - 1e9
    _time.monotonic_ns = lambda: int((t() - 1e9) * 1e9)
    _time.perf_counter = lambda: t() - 1e9
    _time.perf_counter_ns = lambda: int((t() - 1e9) * 1e9)
    _time.process_time = lambda: t() - 1e9
    _time.sleep = lambda s: CLOCK.advance(s)
    rgm, rlt = _time.gmtime, _time.localtime
    _time.gmtime = lambda s=None: rgm(t() if s is None else s)
    _time.localtime = lambda s=None: rlt(t() if s is None else s)

    real_datetime, real_date = _dt.datetime, _dt.date

    class datetime(real_datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(t(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(t(), _dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(t())

    class date(real_date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(t())

    _dt.datetime = datetime
    _dt.date = date
