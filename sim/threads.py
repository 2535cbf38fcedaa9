"""
Cooperative threads under a seeded schedule.

Every task runs in a real thread, but only the thread that holds the baton executes. A monitoring
callback counts the executed lines (or bytecodes) of the traced files; the schedule, a list of [gap, pick],
tells after how many of them the baton moves and to which of the unfinished threads. One schedule is one
interleaving. A thread that waits for a lock held by a preempted one would stall the simulation: after
PATIENCE seconds without progress the preempted thread goes on.
"""
import contextlib
import dis
import gc
import sys
import threading
import types

from . import faults

PATIENCE = 2.0
MAX_STALLS = 3


TOOL = 3
_known = {}


def codes(prefixes):
    """Code objects of the functions defined in the given files."""
    modules = tuple(sorted(name for name, module in list(sys.modules.items())
                           if (getattr(module, "__file__", None) or "").startswith(prefixes)))
    if _known.get("modules") == modules:
        return _known["codes"]
    found = {}

    def add(code):
        if id(code) in found or not code.co_filename.startswith(prefixes):
            return
        found[id(code)] = code
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                add(const)

    for item in gc.get_objects():
        if isinstance(item, types.FunctionType):
            add(item.__code__)
    _known.update(modules=modules, codes=list(found.values()))
    return _known["codes"]


def storing_lines(code):
    """Lines that change an object: attribute, item or global stores and in-place operations."""
    if code in _known.setdefault("lines", {}):
        return _known["lines"][code]
    found, line = set(), None
    for item in dis.get_instructions(code):
        line = item.positions.lineno or line
        if item.opname in ("STORE_ATTR", "STORE_SUBSCR", "STORE_SLICE", "STORE_GLOBAL", "DELETE_ATTR", "DELETE_SUBSCR",
                           "DELETE_GLOBAL") or item.opname == "BINARY_OP" and item.argrepr.endswith("="):
            found.add(line)
    _known["lines"][code] = found
    return found


@contextlib.contextmanager
def instrumented(scheduler):
    """Report lines or bytecodes of the traced code to the scheduler."""
    mon = sys.monitoring
    events = mon.events
    mon.use_tool_id(TOOL, "simulator")
    wanted = codes(scheduler.prefixes)
    if scheduler.stores:
        scheduler.hot = {code: storing_lines(code) for code in wanted}
    if scheduler.opcodes:
        mon.register_callback(TOOL, events.INSTRUCTION, lambda code, offset: scheduler.event(code, -offset))
        kind = events.INSTRUCTION
    else:
        mon.register_callback(TOOL, events.LINE, scheduler.event)
        kind = events.LINE
    for code in wanted:
        mon.set_local_events(TOOL, code, kind)
    try:
        yield
    finally:
        for code in wanted:
            mon.set_local_events(TOOL, code, 0)
        mon.register_callback(TOOL, kind, None)
        mon.free_tool_id(TOOL)


class Scheduler:
    def __init__(self, tasks, schedule, opcodes=False, prefixes=None, stores=False):
        self.tasks = tasks
        self.stores, self.hot, self.after = stores, {}, {}
        self.schedule = [tuple(s) for s in schedule]
        self.opcodes = opcodes
        self.prefixes = prefixes or faults.traced_prefixes()
        self.gates = [threading.Semaphore(0) for _ in tasks]
        self.live = list(range(len(tasks)))
        self.current = None
        self.events = self.beats = 0
        self.stalls = 0
        self.position = 0
        self.next_at = self.schedule[0][0] if self.schedule else None
        self.trace = []  # (event, from, to, file, function, line)
        self.errors = [None] * len(tasks)
        self.finished = [False] * len(tasks)
        self.numbers = {}

    def event(self, code, line):
        me = self.numbers.get(threading.get_ident())
        if me is None or self.finished[me]:
            return
        if self.current != me:
            # this thread went on by itself after a stall
            self._wait(me)
        self.beats += 1
        if self.stores:
            # count only the lines that change something and the ones that follow them
            hot = line in self.hot.get(code, ())
            if not hot and not self.after.get((me, code)):
                return
            self.after[me, code] = hot
        self.events += 1
        if self.next_at is not None and self.events >= self.next_at:
            pick = self.schedule[self.position][1]
            self.position += 1
            if self.position < len(self.schedule) and self.stalls < MAX_STALLS:
                self.next_at = self.events + self.schedule[self.position][0]
            else:
                self.next_at = None
            others = [i for i in self.live if i != me]
            if others:
                target = others[pick % len(others)]
                self.trace.append((self.events, me, target, code.co_filename.rsplit("/", 1)[-1],
                                   code.co_name, line))
                self._hand_over(me, target)

    # -- the baton

    def _hand_over(self, me, target):
        self.current = target
        self.gates[target].release()
        self._wait(me)

    def _wait(self, me):
        gate = self.gates[me]
        while True:
            before = self.beats
            if gate.acquire(timeout=PATIENCE):
                return
            if self.current != me and self.beats == before:
                # whoever has the baton waits for something that this thread holds
                self.stalls += 1
                self.current = me
                if self.stalls >= MAX_STALLS:
                    self.next_at = None
                return

    def _body(self, me):
        self.gates[me].acquire()
        try:
            self.tasks[me]()
        except BaseException as exc:
            self.errors[me] = exc
        finally:
            self.finished[me] = True
            self.live.remove(me)
            if self.live and self.current == me:
                self.current = self.live[0]
                self.gates[self.current].release()

    def run(self):
        threads = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.tasks))]
        with instrumented(self):
            for number, thread in enumerate(threads):
                thread.start()
                self.numbers[thread.ident] = number
            self.current = 0
            self.gates[0].release()
            for thread in threads:
                thread.join()
        return self


def schedule(rng, length, mean):
    """A random schedule: geometric gaps, now and then a long one, arbitrary targets."""
    out = []
    if rng.random() < 0.15:
        # a few preemptions anywhere; the others run to their end meanwhile
        return [[int(10 ** rng.uniform(0, 2.7)), rng.getrandbits(8)] for _ in range(rng.randint(1, 5))]
    uneven = rng.random() < 0.5
    for _ in range(length):
        gap = 1
        if uneven and rng.random() < 0.5:
            gap = rng.randint(mean, 10 * mean)
        while rng.random() > 1.0 / mean and gap < 20 * mean:
            gap += 1
        out.append([gap, rng.getrandbits(8)])
    return out
