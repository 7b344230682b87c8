"""Shared vocabulary of the checks: violations, observed calls, comparisons, case encoding."""
import contextlib
import copy
import json
import math
import numbers
import os
import signal
import traceback
import warnings
import zlib

import numpy as np


class Violation(Exception):
    """The code under test broke the property for a generated case."""


class Reject(Exception):
    """The generated case is outside the property's domain (counted as discarded)."""


REGISTRY = {}  # pid -> list of Check


class Check:
    def __init__(self, pid, name, strategy, func, quick, thorough, rule):
        self.pid, self.name, self.strategy, self.func = pid, name, strategy, func
        self.quick, self.thorough, self.rule = quick, thorough, rule


def check(pid, strategy, quick, thorough=None, rule=""):
    """Register func(pb, case) -> labels.  A falsy return marks the case trivial.

    ``strategy`` is a zero-argument callable returning a hypothesis strategy of JSON-able cases.
    """

    def deco(func):
        REGISTRY.setdefault(pid, []).append(
            Check(pid, func.__name__, strategy, func, quick, thorough or quick * 40, rule)
        )
        return func

    return deco


# --------------------------------------------------------------------------- cases


def jdump(case):
    return json.dumps(case, sort_keys=True)


# --------------------------------------------------------------------------- observed calls


def _plain_objects():
    return (int, float, complex, str, bytes, bool, type(None), numbers.Number)


def freeze(x):
    """A deep, independent snapshot of a value (arrays, containers, model objects)."""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return [freeze(i) for i in x]
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if callable(x) or isinstance(x, _plain_objects()):
        return x
    if hasattr(x, "__dict__"):
        return {"__class__": type(x).__name__, "vars": {k: freeze(v) for k, v in vars(x).items() if not k.startswith("_")}}
    return copy.deepcopy(x)


def same(a, b, rtol=0.0):
    """Equality of two frozen snapshots (NaN equals NaN)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind in "OUS":
            return bool(np.array_equal(a, b))
        if rtol == 0.0:
            return bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
        with np.errstate(all="ignore"):
            scale = np.max(np.abs(b[np.isfinite(b)])) if np.any(np.isfinite(b)) else 0.0
            ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * np.maximum(np.abs(b), 1e-3 * scale))
        return bool(np.all(ok))
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(i, j, rtol) for i, j in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        return (
            isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k], rtol) for k in a)
        )
    if callable(a) or callable(b):
        return True
    if isinstance(a, numbers.Number) and isinstance(b, numbers.Number):
        if a == b or (a != a and b != b):
            return True
        try:
            return abs(a - b) <= rtol * max(abs(a), abs(b))
        except Exception:
            return False
    return a == b


def _diff(before, after):
    if isinstance(before, dict) and isinstance(after, dict):
        b, a = before.get("vars", before), after.get("vars", after)
        return [k for k in set(a) | set(b) if k not in a or k not in b or not same(a[k], b[k])]
    return "value"


def _scribble(r, args):
    if isinstance(r, np.ndarray):
        if r.flags.writeable and r.dtype.kind in "fciu" and not any(
            isinstance(a, np.ndarray) and np.may_share_memory(r, a) for a in args
        ):
            r[...] = -77
    elif isinstance(r, (list, tuple)):
        for i in r:
            _scribble(i, args)


def fname(fn):
    return getattr(fn, "__name__", repr(fn))


def invoke(fn, *args, **kw):
    """Call code under test on an in-domain input: an exception breaks the property."""
    try:
        return fn(*args, **kw)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{fname(fn)} raised {type(e).__name__}: {e} on an input in its domain") from e


def _neighbour(x, h):
    """A value of the same kind that differs from x; arrays keep their bytes where possible."""
    if isinstance(x, (bool, np.bool_)) or x is None:
        return None
    if isinstance(x, (int, np.integer)):
        return type(x)(x + 1) if h % 2 or x < 1 else type(x)(x - 1)
    if isinstance(x, (float, np.floating)):
        return type(x)(x * (0.75, 1.25, 0.5, 1.001)[h % 4]) if x else type(x)(1.0)
    if isinstance(x, np.ndarray) and x.size > 1 and x.dtype.kind in "iufc":
        if x.ndim == 2 and x.shape[0] != x.shape[1] and h % 2:
            return np.array(x).reshape(x.shape[::-1])
        y = np.array(x)
        if h % 3 == 0:
            return y[::-1].copy()
        y.flat[h % y.size] = y.flat[(h // 7) % y.size] if h % 3 == 1 else y.flat[h % y.size] * 0.5
        return y
    return None


def _prime(fn, args, kw):
    try:
        h = zlib.crc32(repr([a.shape if isinstance(a, np.ndarray) else a for a in args if isinstance(a, (int, float, np.ndarray))]).encode())
        for k in range(len(args)):
            i = (h // 11 + k) % len(args)
            y = _neighbour(args[i], h)
            if y is not None:
                with warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    fn(*[copy.deepcopy(a) if isinstance(a, np.ndarray) else a for a in args[:i]], y, *args[i + 1 :], **kw)
                return
    except Exception:  # noqa: BLE001  (the neighbour may lie outside the domain)
        return


def call(fn, *args, ignore_mutation=(), **kw):
    """Observed call of a function that must be a pure function of its arguments.

    It is called first with one argument changed (what it then remembers must not show in the
    judged result), then twice; the arguments must come back unchanged, and scribbling over the
    first result must not influence the second.
    """
    before = freeze(args)
    _prime(fn, args, kw)
    kbefore = freeze(kw)
    r = invoke(fn, *args, **kw)
    after = freeze(args)
    for i, (b, a) in enumerate(zip(before, after)):
        if not same(b, a):
            d = _diff(b, a)
            if d == "value" or set(d) - set(ignore_mutation):
                raise Violation(f"{fname(fn)} changed its argument #{i} ({d})")
    if not same(kbefore, freeze(kw)):
        raise Violation(f"{fname(fn)} changed a keyword argument")
    snap = freeze(r)
    _scribble(r, list(args) + list(kw.values()))
    r2 = invoke(fn, *args, **kw)
    if not same(freeze(r2), snap, rtol=1e-11):
        raise Violation(f"{fname(fn)} gave a different result when called again with the same arguments")
    return snap


def judged(func, pb, case):
    """Run a check; a result so malformed that reading it raises breaks the property as well."""
    try:
        return func(pb, case)
    except (Violation, Reject):
        raise
    except Exception as e:  # noqa: BLE001
        if type(e).__module__.startswith("hypothesis"):
            raise
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(f"the result could not be used: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})") from e


@contextlib.contextmanager
def deadline(seconds):
    """A case that does not end (they take at most a few seconds) breaks the property."""

    def ring(*a):
        raise Violation(f"no result within {seconds} s")

    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def must_raise(exc, fn, *args, **kw):
    try:
        fn(*args, **kw)
    except exc as e:
        return e
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{fname(fn)} raised {type(e).__name__} ({e}), expected {exc}") from e
    raise Violation(f"{fname(fn)} accepted an input it must reject with {exc}")


# --------------------------------------------------------------------------- comparisons


def arr(x, what, shape=None, finite=True):
    try:
        a = np.asarray(x)
        if a.dtype.kind not in "fciub":
            a = a.astype(float)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: not numeric ({type(x).__name__})") from e
    if shape is not None and a.shape != tuple(shape):
        raise Violation(f"{what}: shape {a.shape}, expected {tuple(shape)}")
    if finite and not np.all(np.isfinite(a)):
        raise Violation(f"{what}: not finite: {np.ravel(a)[:6]}")
    return a


def close(actual, expected, what, rtol=1e-9, atol=0.0, shape=True):
    """actual == expected to rtol (relative) + atol (absolute, may be an array)."""
    e = np.asarray(expected)
    a = arr(actual, what, e.shape if shape else None)
    try:
        err = np.abs(a - e)
        tol = rtol * np.abs(e) + atol
        bad = ~(err <= tol)
    except Exception as ex:  # noqa: BLE001
        raise Violation(f"{what}: cannot compare {a.shape} with {e.shape}") from ex
    if np.any(bad):
        i = tuple(np.argwhere(np.atleast_1d(bad))[0])
        av, ev = np.atleast_1d(np.broadcast_to(a, bad.shape))[i], np.atleast_1d(np.broadcast_to(e, bad.shape))[i]
        raise Violation(f"{what}: got {av!r}, expected {ev!r} (at {i}, {int(np.sum(bad))} of {bad.size} differ)")
    return a


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def nondecreasing(x, what, slack=0.0):
    x = arr(x, what)
    d = np.diff(x)
    if np.any(d < -slack):
        raise Violation(f"{what}: not non-decreasing: {x}")


def isfinite(*xs):
    return all(math.isfinite(x) for x in xs)
