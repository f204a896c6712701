"""The monitor: records what an execution showed and decides it against the oracle's expectation."""
import collections
import math
import traceback

import numpy as np


class Inconclusive(Exception):
    """The case cannot decide anything (e.g. ill-conditioned problem); counted, never a verdict."""


class Monitor(object):

    def __init__(self, case):
        self.case = case
        self.events = collections.Counter()
        self.keys = set()
        self.violations = []
        self.worst = {}
        self.notes = []
        self.ctx = ''

    # -- observations ------------------------------------------------------
    def ev(self, name, n=1):
        self.events[name] += n

    def key(self, *parts):
        self.keys.add('|'.join(str(p) for p in parts))

    def note(self, text):
        if len(self.notes) < 3:
            self.notes.append(text)

    # -- verdicts ----------------------------------------------------------
    def bad(self, kind, detail='', sig=''):
        if len(self.violations) < 12:
            self.violations.append(dict(kind=kind, sig=str(sig), detail=str(detail)[:1500], ctx=self.ctx))

    def true(self, kind, cond, detail='', sig=''):
        self.events['check:' + kind] += 1
        if not cond:
            self.bad(kind, detail() if callable(detail) else detail, sig)
            return False
        return True

    def close(self, kind, got, want, rtol=1e-7, atol=0.0, scale=None, sig='', what=''):
        """max|got-want| <= atol + rtol*scale   (scale defaults to the largest |want|)."""
        self.events['check:' + kind] += 1
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.bad(kind, '%s shape %r != %r' % (what, got.shape, want.shape), sig)
            return False
        if got.size == 0:
            return True
        if not np.all(np.isfinite(got)):
            if np.all(np.isfinite(want)):
                self.bad(kind, '%s non-finite value %r, expected %r' % (what, short(got), short(want)), sig)
                return False
            raise Inconclusive('non-finite reference for ' + kind)
        if not np.all(np.isfinite(want)):
            raise Inconclusive('non-finite reference for ' + kind)
        if scale is None:
            scale = float(np.max(np.abs(want)))
        err = float(np.max(np.abs(got - want)))
        tol = atol + rtol * scale
        ratio = err / tol if tol > 0 else (0.0 if err == 0 else math.inf)
        if ratio > self.worst.get(kind, 0.0):
            self.worst[kind] = ratio
        if not err <= tol:
            self.bad(kind, '%s err=%.3e tol=%.3e got=%s want=%s' % (what, err, tol, short(got), short(want)), sig)
            return False
        return True

    def small(self, kind, value, tol, sig='', what=''):
        self.events['check:' + kind] += 1
        v = np.max(np.abs(np.asarray(value))) if np.size(value) else 0.0
        if np.isfinite(v) and tol > 0:
            self.worst[kind] = max(self.worst.get(kind, 0.0), float(v / tol))
        if not (np.isfinite(v) and v <= tol):
            self.bad(kind, '%s |value|=%.3e tol=%.3e' % (what, v, tol), sig)
            return False
        return True

    def report(self):
        return dict(events=dict(self.events), keys=sorted(self.keys)[:400], violations=self.violations,
                    worst=self.worst, notes=self.notes)


def short(a, n=8):
    a = np.asarray(a)
    with np.printoptions(precision=8, threshold=n, edgeitems=4, suppress=False, linewidth=200):
        return str(a).replace('\n', ' ')[:400]


def in_package(tb, build_dir):
    """True if any frame of the traceback lies in the package under test."""
    for fr in traceback.extract_tb(tb):
        fn = fr.filename
        if fn.startswith(build_dir) or '/qmeq/' in fn or fn.startswith('qmeq/'):
            return True
    return False
