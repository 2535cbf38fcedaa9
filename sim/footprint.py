"""Size of everything the package keeps: what is reachable from given objects and from its modules."""
import functools
import gc
import sys
import types

import numpy as np

FOLLOWED = ("gwpopulation", "cached_interpolate", "bilby.hyper", "sim.userfuncs", "functools", "collections", "wcosmo",
            "weakref")
CONTAINERS = (dict, list, tuple, set, frozenset, types.CellType, types.MethodType, types.MappingProxyType,
              functools.partial, functools._lru_cache_wrapper)
LEAVES = (str, bytes, int, float, complex, bool, type(None), np.generic, types.CodeType, types.FrameType, types.ModuleType,
          np.dtype)


def modules():
    return [m for name, m in sorted(sys.modules.items()) if name.split(".")[0] == "gwpopulation" and m is not None]


def contents(obj):
    """Objects that obj keeps alive, without leaving the code under test."""
    if isinstance(obj, types.FunctionType):
        out = list(obj.__closure__ or ()) + list(obj.__defaults__ or ()) + [obj.__dict__]
        return out + list((obj.__kwdefaults__ or {}).values())
    if isinstance(obj, type):
        return list(vars(obj).values()) if obj.__module__.split(".")[0] == "gwpopulation" else []
    if isinstance(obj, CONTAINERS):
        return gc.get_referents(obj)
    if isinstance(obj, (property, classmethod, staticmethod)):
        return gc.get_referents(obj)
    if isinstance(obj, np.ndarray):
        return [] if obj.base is None else [obj.base]
    if isinstance(obj, LEAVES):
        return []
    if type(obj).__module__.startswith(FOLLOWED) or any(
            c.__module__.split(".")[0] == "gwpopulation" for c in type(obj).__mro__):
        return gc.get_referents(obj)
    return []


def measure(roots):
    """(number of objects, bytes in arrays) reachable from the roots and the package's modules."""
    stack = list(roots)
    for module in modules():
        stack.extend(vars(module).values())
    seen, count, size = {}, 0, 0
    while stack:
        obj = stack.pop()
        if id(obj) in seen:
            continue
        seen[id(obj)] = obj  # keeps it alive, so that no id is used twice
        if isinstance(obj, types.ModuleType):
            continue
        count += 1
        if isinstance(obj, np.ndarray) or type(obj).__module__.startswith("jax"):
            size += int(getattr(obj, "nbytes", 0) or 0)
        stack.extend(contents(obj))
    return count, size
