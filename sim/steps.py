"""Deterministic work counting and interruption inside the library's code.

A run's work is counted in backward jumps, branches and calls executed in
/repo's package, so 'did not terminate' is a number of steps, not seconds.
"""
import sys

TOOL = 3
mon = sys.monitoring
E = mon.events


class Stuck(BaseException):
    """The step budget ran out."""


class Steps:
    def __init__(self, root):
        self.root = root
        self.count = 0
        self.limit = None
        self.lines = 0
        self.cut_at = None
        self.cut_exc = None
        self.cut_fired = False
        self.counting = False
        mon.use_tool_id(TOOL, 'sim')
        mon.register_callback(TOOL, E.JUMP, self._jump)
        mon.register_callback(TOOL, E.PY_START, self._start)
        mon.register_callback(TOOL, E.LINE, self._line)
        mon.set_events(TOOL, 0)

    def _mine(self, code):
        return code.co_filename.startswith(self.root)

    def _jump(self, code, off, dest):
        if not self._mine(code):
            return mon.DISABLE
        self._step()

    def _start(self, code, off):
        if not self._mine(code):
            return mon.DISABLE
        self._step()

    def _step(self):
        self.count += 1
        if self.limit is not None and self.count > self.limit:
            limit = self.limit
            self.stop()
            raise Stuck('more than %d steps' % limit)

    def _line(self, code, line):
        if not self._mine(code):
            return mon.DISABLE
        self.lines += 1
        if self.cut_at is not None and self.lines >= self.cut_at and not self.cut_fired:
            self.cut_fired = True
            raise self.cut_exc('at line event %d' % self.lines)

    # -- control ---------------------------------------------------------
    def _events(self):
        mon.restart_events()
        ev = 0
        if self.limit is not None:
            ev |= E.JUMP | E.PY_START
        if self.counting:
            ev |= E.LINE
        mon.set_events(TOOL, ev)

    def budget(self, limit):
        self.count = 0
        self.limit = limit
        self._events()

    def interrupt(self, at, exc=KeyboardInterrupt):
        """Raise `exc` at the at-th executed line of library code (None: only
        count the lines)."""
        self.lines = 0
        self.cut_at = at
        self.cut_exc = exc
        self.cut_fired = False
        self.counting = True
        self._events()

    def calm(self):
        """End interrupt(); returns the number of lines executed."""
        self.counting = False
        self.cut_at = None
        self._events()
        return self.lines

    def stop(self):
        mon.set_events(TOOL, 0)
        n = self.count
        self.limit = None
        self.cut_at = None
        self.counting = False
        return n
