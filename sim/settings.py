"""Settings that belong to the process rather than to the package."""
import copy
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

SIGNALS = sorted(signal.valid_signals())


def handlers():
    out = {}
    for number in SIGNALS:
        try:
            out[int(number)] = repr(signal.getsignal(number))
        except ValueError:
            pass
    return out


def loggers():
    out = {"<root>": describe(logging.root), "<disabled>": logging.root.manager.disable}
    for name, item in sorted(logging.root.manager.loggerDict.items()):
        if isinstance(item, logging.Logger):
            out[name] = describe(item)
    return out


def describe(logger):
    return (logger.level, logger.disabled, logger.propagate, tuple(id(h) for h in logger.handlers),
            tuple(h.level for h in logger.handlers))


def umask():
    value = os.umask(0o77)
    os.umask(value)
    return value


def open_files():
    found = {}
    for name in os.listdir("/proc/self/fd"):
        try:
            found[name] = os.readlink(f"/proc/self/fd/{name}")
        except OSError:
            pass
    return sorted(found.values())


def jax_config():
    jax = sys.modules.get("jax")
    return {k: repr(v) for k, v in sorted(jax.config.values.items())} if jax is not None else None


def pandas_options():
    config = sys.modules.get("pandas._config.config")
    return repr(config._global_config) if config is not None else None


def take():
    import scipy.special

    settings = {
        "numpy floating-point errors": np.geterr(),
        "numpy error callback": repr(np.geterrcall()),
        "numpy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "scipy.special errors": scipy.special.geterr(),
        "warning filters": [repr(f) for f in warnings.filters],
        "warning display": repr(warnings.showwarning),
        "loggers": loggers(),
        "trace function": repr(sys.gettrace()),
        "profile function": repr(sys.getprofile()),
        "thread trace function": repr(threading.gettrace()),
        "signal handlers": handlers(),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "umask": umask(),
        "import path": list(sys.path),
        "import hooks": [repr(h) for h in sys.meta_path],
        "open files": open_files(),
        "standard streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)],
        "hooks": [id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook)],
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": repr(decimal.getcontext()),
        "jax configuration": jax_config(),
        "pandas options": pandas_options(),
    }
    return copy.deepcopy(settings)


def difference(before, after, ignore=()):
    """The first setting that differs, as text, or None."""
    for name in before:
        a, b = before[name], after[name]
        if a == b or name in ignore:
            continue
        if name == "loggers":
            # loggers may come into being
            changed = sorted(k for k in a if b.get(k) != a[k])
            if not changed:
                continue
            return f"{name}: {[(k, a[k], b.get(k)) for k in changed[:3]]}"
        if name == "jax configuration":
            if a is None or b is None:
                continue
            changed = sorted(k for k in a if b.get(k) != a[k] and k not in ignore)
            if not changed:
                continue
            return f"{name}: {[(k, a[k], b.get(k)) for k in changed[:3]]}"
        if isinstance(a, dict):
            changed = sorted(set(a) | set(b), key=str)
            changed = [k for k in changed if a.get(k) != b.get(k)]
            return f"{name}: {[(k, a.get(k), b.get(k)) for k in changed[:3]]}"
        return f"{name}: {str(a)[:300]} became {str(b)[:300]}"
    return None


def reset():
    """The settings the simulator runs with."""
    np.seterr(all="ignore")
    np.seterrcall(None)
    np.set_printoptions(edgeitems=3, infstr="inf", linewidth=75, nanstr="nan", precision=8, suppress=False, threshold=1000,
                        formatter=None, sign="-", floatmode="maxprec")
    warnings.resetwarnings()
    warnings.simplefilter("ignore")


assert random  # the generators are the business of C12
