"""Runs executed in forked children of a pristine process."""
import os, gc, sys
import core


def child(fn, timeout=60):
    """fn() in a forked child; its value, or raises HarnessError / returns ('signal', n) etc."""
    return core.isolated(fn, timeout)


class ForkedProp:
    """Property whose runs each execute in a fresh fork of the set-up process."""
    RUN_TIMEOUT = 60

    def run(self, group, case):
        def f():
            o = self.run_in_child(group, case)
            return {k: getattr(o, k) for k in core.Outcome.__slots__}
        m = core.isolated(f, self.RUN_TIMEOUT)
        if m[0] == "ok":
            return core.Outcome(**m[1])
        if m[0] == "signal":
            return core.Outcome(viol="process died with signal %d inside the call" % m[1], vclass="signal")
        if m[0] == "exc":
            raise core.HarnessError(m[1])
        return core.Outcome(viol="no result (%s)" % m[0], vclass="timeout")


class _Numpy:
    """numpy, imported when first used (the simulated threads must be installed before)."""
    def __getattr__(self, k):
        import numpy
        return getattr(numpy, k)


np = _Numpy()
