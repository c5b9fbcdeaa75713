"""Comparison of expected and actual decoded values"""
import numpy as np


class _Absent:
    def __repr__(self):
        return "<absent>"


ABSENT = _Absent()


class Approx:
    """expected value with a relative tolerance (unit conversions in float32)"""

    def __init__(self, value, rtol=2e-5, atol=0.0):
        self.value, self.rtol, self.atol = value, rtol, atol

    def __repr__(self):
        return f"Approx({self.value!r})"


class AnyOf:
    def __init__(self, *values):
        self.values = values

    def __repr__(self):
        return f"AnyOf{self.values!r}"


class Flexible:
    """expected array whose number of length-one axes is not fixed"""

    def __init__(self, value):
        self.value = value


def _short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


def _is_num(x):
    return isinstance(x, (int, float, bool, np.generic)) or isinstance(x, np.ndarray)


def diff(exp, act, path="", strict_keys=False):
    """None if equal, else a text describing the first difference"""
    if isinstance(act, (Approx, Flexible)):
        act = act.value
    if isinstance(exp, AnyOf):
        ds = [diff(e, act, path, strict_keys) for e in exp.values]
        return None if any(d is None for d in ds) else ds[0]
    if exp is ABSENT:
        return None if act is ABSENT else f"{path}: expected to be absent, got {_short(act)}"
    if act is ABSENT:
        return f"{path}: missing, expected {_short(exp)}"
    if isinstance(exp, Approx):
        e, a = np.asarray(exp.value, dtype="f8"), np.asarray(act)
        if a.dtype.kind not in "fiub":
            return f"{path}: expected numbers, got {_short(act)}"
        if e.shape != a.shape:
            return f"{path}: shape {a.shape}, expected {e.shape}"
        ok = np.isclose(a.astype("f8"), e, rtol=exp.rtol, atol=exp.atol, equal_nan=True)
        if not ok.all():
            i = tuple(int(x) for x in np.argwhere(~ok)[0])
            return f"{path}{list(i)}: {a[i]!r}, expected about {e[i]!r}"
        return None
    if isinstance(exp, Flexible):
        e, a = np.asarray(exp.value), np.asarray(act)
        if [s for s in e.shape if s != 1] != [s for s in a.shape if s != 1]:
            return f"{path}: shape {a.shape}, expected {e.shape}"
        return diff(e.reshape(-1), a.reshape(-1), path)
    if isinstance(exp, dict):
        if not hasattr(act, "keys"):
            return f"{path}: expected a mapping, got {_short(act)}"
        for k, v in exp.items():
            d = diff(v, act[k] if k in act else ABSENT, f"{path}[{k!r}]", strict_keys)
            if d:
                return d
        if strict_keys:
            for k in act.keys():
                if k not in exp:
                    return f"{path}: unexpected key {k!r}"
        return None
    if isinstance(exp, (bytes, bytearray)):
        if not isinstance(act, (bytes, bytearray, memoryview, np.bytes_)):
            return f"{path}: expected bytes, got {_short(act)}"
        return None if bytes(exp) == bytes(act) else f"{path}: {_short(bytes(act))}, expected {_short(bytes(exp))}"
    if exp is None:
        return None if act is None else f"{path}: {_short(act)}, expected None"
    if isinstance(exp, str):
        return None if isinstance(act, str) and exp == act else f"{path}: {_short(act)}, expected {exp!r}"
    if isinstance(exp, np.ndarray) and exp.dtype.names:
        names = getattr(getattr(act, "dtype", None), "names", None)
        if names is None:
            return f"{path}: expected structured values, got {_short(act)}"
        if tuple(act.shape) != exp.shape:
            return f"{path}: shape {act.shape}, expected {exp.shape}"
        for n in exp.dtype.names:
            if n not in names:
                return f"{path}: column {n} missing"
            d = diff(np.asarray(exp[n]), np.asarray(act[n]), f"{path}.{n}")
            if d:
                return d
        return None
    if isinstance(exp, (list, tuple)):
        if isinstance(act, np.ndarray) and act.ndim == 0 or not hasattr(act, "__len__"):
            return f"{path}: expected a sequence, got {_short(act)}"
        if len(act) != len(exp):
            return f"{path}: length {len(act)}, expected {len(exp)}"
        for i, (e, a) in enumerate(zip(exp, act)):
            d = diff(e, a, f"{path}[{i}]", strict_keys)
            if d:
                return d
        return None
    # numbers and arrays
    if act is None or isinstance(act, (str, bytes, bytearray, dict)):
        return f"{path}: {_short(act)}, expected {_short(exp)}"
    try:
        a = np.asarray(act)
    except Exception as e:  # noqa
        return f"{path}: {_short(act)} cannot be compared: {e}"
    if a.dtype.names and not np.asarray(exp).dtype.names:
        return f"{path}: unexpected structured value"
    e = np.asarray(exp)
    if e.shape != a.shape:
        return f"{path}: shape {a.shape}, expected {e.shape}"
    if e.dtype.kind == "S":
        return None if a.dtype.kind == "S" and e.tolist() == a.tolist() else f"{path}: {_short(act)}, expected {_short(exp)}"
    if a.dtype.kind not in "fiub":
        return f"{path}: expected numbers, got {_short(act)}"
    if e.size == 0:
        return None
    if e.dtype.kind in "iub" and a.dtype.kind in "iub":
        ok = _int_equal(e, a)
    else:
        with np.errstate(all="ignore"):
            ok = (e == a) | (_isnan(e) & _isnan(a))
    if not np.all(ok):
        i = tuple(int(x) for x in np.argwhere(~np.atleast_1d(ok))[0])
        if e.ndim == 0:
            return f"{path}: {a[()]!r}, expected {e[()]!r}"
        return f"{path}{list(i)}: {a[i]!r}, expected {e[i]!r}"
    return None


def _int_equal(e, a):
    if e.dtype == np.uint64 and a.dtype.kind == "i" or a.dtype == np.uint64 and e.dtype.kind == "i":
        return np.asarray(e.astype(object) == a.astype(object), dtype=bool)
    return e == a


def _isnan(x):
    return np.isnan(x) if x.dtype.kind == "f" else np.zeros(x.shape, bool)


def same(a, b, path=""):
    """Both values come from the code under test: exact structural equality"""
    if isinstance(a, dict) or hasattr(a, "keys") and not isinstance(a, np.ndarray):
        if not hasattr(b, "keys"):
            return f"{path}: {_short(a)} != {_short(b)}"
        if list(a.keys()) != list(b.keys()):
            if set(map(repr, a.keys())) != set(map(repr, b.keys())):
                return f"{path}: keys {list(a.keys())} != {list(b.keys())}"
        for k in a.keys():
            d = same(a[k], b[k], f"{path}[{k!r}]")
            if d:
                return d
        return None
    if isinstance(a, (tuple, list)) and not hasattr(a, "dtype"):
        if not isinstance(b, (tuple, list)) or len(a) != len(b):
            return f"{path}: {_short(a)} != {_short(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, (bytes, bytearray, str)) or a is None or isinstance(b, (bytes, bytearray, str)) or b is None:
        return None if type(a) is type(b) and a == b else f"{path}: {_short(a)} != {_short(b)}"
    if hasattr(a, "__next__") or hasattr(b, "__next__"):
        return same(list(a), list(b), path)
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape or x.dtype != y.dtype:
        return f"{path}: {x.dtype}{x.shape} != {y.dtype}{y.shape}"
    if x.dtype.kind == "O":
        return None if a == b else f"{path}: {_short(a)} != {_short(b)}"
    if x.tobytes() != y.tobytes():
        return f"{path}: {_short(a)} != {_short(b)}"
    return None


def freeze(x):
    """deep, independent copy usable as a snapshot for same()"""
    if hasattr(x, "_asdict"):
        return {k: freeze(v) for k, v in x._asdict().items()}
    if isinstance(x, dict) or hasattr(x, "keys") and not isinstance(x, np.ndarray):
        return {k: freeze(x[k]) for k in x.keys()}
    if isinstance(x, (np.ndarray, np.generic)):
        a = np.array(x, copy=True)
        if a.dtype.names:
            # without padding, of which the content is arbitrary
            return a.astype(np.dtype([(n, a.dtype[n]) for n in a.dtype.names]))
        return a
    if isinstance(x, (tuple, list)):
        return [freeze(v) for v in x]
    if isinstance(x, bytearray):
        return bytearray(x)
    if hasattr(x, "typecode"):  # array.array
        return np.array(x)
    return x
