"""Monitors: what one job observed, and the verdicts of its oracles."""
import hashlib
import json
import math
import traceback
import collections

import numpy as np


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, complex):
        return {'re': jsonable(x.real), 'im': jsonable(x.imag)}
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth)
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return {'shape': list(x.shape), 'head': jsonable(x.ravel()[:20].tolist(), depth + 1)}
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    return repr(x)[:300]


class CodeRaised(Exception):
    pass


class Monitor:
    """Collects events and oracle verdicts of one job."""

    MAXV = 12

    def __init__(self, name=''):
        self.name = name
        self.events = collections.Counter()
        self.distinct = set()
        self.violations = []
        self.nviol = 0
        self.samples = []
        self.worst = {}

    # -- observations
    def event(self, kind, key=None, n=1):
        """An execution of the code under test was observed and judged."""
        self.events[kind] += n
        if key is not None:
            h = hashlib.sha1(repr((kind, key)).encode()).hexdigest()[:12]
            self.distinct.add(h)

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    # -- oracles
    def violate(self, sig, msg, **witness):
        self.nviol += 1
        if sum(1 for v in self.violations if v['sig'] == sig) < 3 and len(self.violations) < 60:
            self.violations.append({'sig': sig, 'msg': str(msg)[:600],
                                    'witness': jsonable(witness), 'job': self.name})

    def check(self, cond, sig, msg='', **witness):
        if not bool(cond):
            self.violate(sig, msg, **witness)
            return False
        return True

    def close(self, a, b, sig, msg='', rtol=1e-9, atol=0., **witness):
        """|a-b| <= atol + rtol*max(|a|,|b|), elementwise; NaN never passes."""
        try:
            A = np.asarray(a)
            B = np.asarray(b)
            if A.dtype == object or B.dtype == object:
                A = A.astype(complex)
                B = B.astype(complex)
            if A.shape != B.shape:
                try:
                    A, B = np.broadcast_arrays(A, B)
                except ValueError:
                    self.violate(sig, msg + ' [shape %s vs %s]' % (A.shape, B.shape),
                                 **dict(witness, observed=a, expected=b))
                    return False
            same = (A == B)  # handles equal infinities
            with np.errstate(all='ignore'):
                d = np.abs(A - B)
                lim = atol + rtol * np.maximum(np.abs(A), np.abs(B))
                ok = same | (d <= lim)
            if not np.all(ok):
                self.violate(sig, msg, **dict(witness, observed=a, expected=b, rtol=rtol, atol=atol))
                return False
            if A.size:
                with np.errstate(all='ignore'):
                    r = np.nanmax(np.where(same, 0, d / np.where(lim > 0, lim, 1)))
                if np.isfinite(r):
                    self.worst[sig] = max(self.worst.get(sig, 0.), float(r))
            return True
        except (TypeError, ValueError) as e:
            self.violate(sig, msg + ' [not comparable: %r]' % e, **dict(witness, observed=a, expected=b))
            return False

    def call(self, sig, fn, *a, **k):
        """Call code that the property promises works: an exception is a violation
        (reported once) and aborts the current case."""
        try:
            return fn(*a, **k)
        except Exception as e:
            self.violate(sig + ':raised', '%s: %s' % (type(e).__name__, str(e)[:300]),
                         traceback=traceback.format_exc()[-1500:], args=a, kwargs=k)
            raise CodeRaised() from e

    def raises(self, exc, sig, fn, *a, **k):
        try:
            r = fn(*a, **k)
        except exc:
            return True
        except Exception as e:
            self.violate(sig, 'expected %s, got %s: %s' % (exc, type(e).__name__, e), args=a, kwargs=k)
            return False
        self.violate(sig, 'expected %s, but returned %r' % (exc, r), args=a, kwargs=k)
        return False

    def result(self):
        return {'events': dict(self.events), 'distinct': sorted(self.distinct),
                'violations': self.violations, 'nviol': self.nviol,
                'samples': self.samples, 'worst': self.worst}
