"""Deep snapshots of caller-owned objects."""
import numpy as np


def take(obj, depth=0):
    """An immutable description of obj; identities of containers and arrays included."""
    import pandas as pd

    if depth > 8:
        return ("deep",)
    if obj is None or isinstance(obj, (bool, int, float, complex, str, bytes)):
        return (type(obj).__name__, repr(obj))
    if isinstance(obj, np.generic):
        return (type(obj).__name__, obj.tobytes())
    if isinstance(obj, np.ndarray):
        return ("ndarray", id(obj), str(obj.dtype), obj.shape, obj.tobytes())
    if isinstance(obj, pd.DataFrame):
        return ("DataFrame", id(obj), tuple(map(str, obj.columns)), tuple(obj.index.tolist()),
                tuple((str(obj.iloc[:, i].dtype), obj.iloc[:, i].to_numpy().tobytes()) for i in range(obj.shape[1])))
    if isinstance(obj, pd.Series):
        return ("Series", id(obj), tuple(obj.index.tolist()), obj.to_numpy().tobytes())
    if isinstance(obj, dict):
        return (type(obj).__name__, id(obj), tuple((repr(k), take(v, depth + 1)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, id(obj) if isinstance(obj, list) else 0,
                tuple(take(v, depth + 1) for v in obj))
    if type(obj).__module__.startswith("jax"):
        return ("jax", id(obj), str(getattr(obj, "dtype", "")), np.asarray(obj).tobytes())
    if getattr(type(obj), "__module__", "") == "sim.userfuncs" and not any(
            c.__module__.startswith("gwpopulation") for c in type(obj).__mro__):
        return ("object", id(obj), type(obj).__name__,
                tuple((k, take(v, depth + 1)) for k, v in sorted(vars(obj).items()) if k != "_model"))
    return ("opaque", id(obj), type(obj).__name__)


def difference(before, after, path="input"):
    """A description of the first difference, or None."""
    if before == after:
        return None
    if before[0] != after[0]:
        return f"{path}: {before[0]} became {after[0]}"
    if before[0] == "ndarray":
        if before[1] != after[1]:
            return f"{path}: replaced by another array"
        a = np.frombuffer(before[4], before[2]) if before[2] != "object" else None
        b = np.frombuffer(after[4], after[2]) if after[2] != "object" else None
        return f"{path}: array {before[2]}{before[3]} {brief(a)} became {after[2]}{after[3]} {brief(b)}"
    if isinstance(before[-1], tuple) and before[1] == after[1]:
        items, others = before[-1], after[-1]
        if before[0] in ("list", "tuple"):
            if len(items) != len(others):
                return f"{path}: length {len(items)} became {len(others)}"
            for i, (x, y) in enumerate(zip(items, others)):
                found = difference(x, y, f"{path}[{i}]")
                if found:
                    return found
        elif before[0] == "DataFrame":
            return f"{path}: data frame changed (columns {before[2]} -> {after[2]})"
        else:
            keys, now = [k for k, _ in items], [k for k, _ in others]
            if keys != now:
                return f"{path}: keys {keys} became {now}"
            for (key, x), (_, y) in zip(items, others):
                found = difference(x, y, f"{path}[{key}]")
                if found:
                    return found
    return f"{path}: changed from {str(before)[:120]} to {str(after)[:120]}"


def brief(array):
    return "?" if array is None else np.array2string(array[:4], precision=5)


class Watch:
    """Named caller-owned objects whose content must not change."""

    def __init__(self):
        self.items = {}

    def add(self, name, obj):
        self.items[name] = (obj, take(obj))
        return obj

    def drop(self, name):
        self.items.pop(name, None)

    def check(self, rec, doing):
        for name, (obj, before) in self.items.items():
            found = difference(before, take(obj), name)
            rec.check(found is None, "input-changed", lambda: f"after {doing}: {found}")


def results(value):
    """Flat list of the arrays in a result, for comparing repeated calls."""
    if isinstance(value, dict):
        out = []
        for key in sorted(map(str, value)):
            out += results(value[key])
        return out
    if isinstance(value, (list, tuple)):
        return [r for v in value for r in results(v)]
    if value is None or isinstance(value, str):
        return []
    try:
        return [np.array(value, dtype=float)]
    except Exception:
        return []


def equal(a, b, rtol=1e-9):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return False
        with np.errstate(all="ignore"):
            scale = 1e-250 + rtol * (np.abs(x) + 1e-3 * (np.nanmax(np.abs(x[np.isfinite(x)])) if np.isfinite(x).any() else 0))
            if not np.all((np.abs(x - y) <= scale) | (x == y) | (np.isnan(x) & np.isnan(y))):
                return False
    return True
