"""
Fault injection.

`Interrupt` cuts an evaluation short: it raises at the k-th executed line or bytecode of the traced
files (the package, the interpolation library it keeps tables with, and the user callbacks). Array
operations that run out of memory, signals and failing callbacks all surface as an exception at such a
point.
"""
import os
import sys

from . import core

EXCEPTIONS = dict(
    MemoryError=MemoryError,
    KeyboardInterrupt=KeyboardInterrupt,
    FloatingPointError=FloatingPointError,
    RuntimeError=RuntimeError,
)


class Injected:
    """Mixin that marks exceptions raised by the simulator."""


CLASSES = {
    name: type(f"Injected{name}", (Injected, base), {}) for name, base in EXCEPTIONS.items()
}


def traced_prefixes():
    import cached_interpolate
    import cached_interpolate.build_array_api  # noqa: imported lazily by the library
    import cached_interpolate.matrix_forms

    here = os.path.dirname(os.path.abspath(__file__))
    return (
        os.path.join(os.path.realpath(core.REPO), "gwpopulation") + os.sep,
        os.path.join(core.REPO, "gwpopulation") + os.sep,
        os.path.dirname(os.path.realpath(cached_interpolate.__file__)) + os.sep,
        os.path.join(here, "userfuncs.py"),
    )


def forget():
    """Clear the results that the interpolation library keeps between runs, which change what is executed."""
    import cached_interpolate.matrix_forms

    for item in vars(cached_interpolate.matrix_forms).values():
        if hasattr(item, "cache_clear"):
            item.cache_clear()


class Interrupt:
    """Context manager: counts trace events and raises at event number `at` (from 1)."""

    _prefixes = None

    def __init__(self, at=None, exception="MemoryError", opcodes=False):
        if Interrupt._prefixes is None:
            Interrupt._prefixes = traced_prefixes()
        self.at, self.exception, self.opcodes = at, exception, opcodes
        self.count = 0
        self.fired = None
        self._files = {}

    def _wanted(self, filename):
        got = self._files.get(filename)
        if got is None:
            got = self._files[filename] = filename.startswith(self._prefixes)
        return got

    def _event(self, frame):
        self.count += 1
        if self.at is not None and self.count == self.at and self.fired is None:
            code = frame.f_code
            self.fired = (os.path.basename(code.co_filename), code.co_name, frame.f_lineno)
            sys.settrace(None)
            raise CLASSES[self.exception](f"injected at {self.fired}")

    def _global(self, frame, event, arg):
        if event == "call" and self._wanted(frame.f_code.co_filename):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "opcode" or (event == "line" and not self.opcodes):
            self._event(frame)
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        if self.opcodes:
            # CPython 3.12 installs opcode events only if some frame asked for them before
            sys._getframe().f_trace_opcodes = True
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(self._old)
        return False


def count_events(function, opcodes=False):
    """Number of fault points of a call."""
    with Interrupt(opcodes=opcodes) as probe:
        function()
    return probe.count
