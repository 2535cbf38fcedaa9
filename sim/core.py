"""
Simulation core: one integer decides everything.

A *scenario* is plain JSON made by a property module's ``generate(rng, tier, idx)``;
``execute(scenario, rec)`` runs it against the code in /repo and raises ``Violation``.
Execution is a pure function of the scenario and the code. Nothing in here reads a
clock or draws random numbers on behalf of a scenario.
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
PYTHON = sys.executable
RUN_LIMIT = 240  # seconds of real time one simulated run may take (typically < 1 s)


class Violation(Exception):
    def __init__(self, cls, message, key=None):
        super().__init__(f"{cls}: {message}")
        self.cls = cls
        self.message = str(message)[:2000]
        self.key = key or cls


class Stuck(BaseException):
    pass


class SutError(Exception):
    """An exception that came out of the code under test."""


def make_rng(*parts):
    text = ":".join(str(p) for p in parts)
    rng = random.Random(int.from_bytes(hashlib.sha256(text.encode()).digest(), "big"))
    rng.parts = parts
    return rng


class Recorder:
    """Event log, counters and oracle bookkeeping of one run."""

    def __init__(self):
        self._hash = hashlib.sha256()
        self.tail = []
        self.steps = 0
        self.checks = 0
        self.faults = {}
        self.probes = {}
        self.states = set()

    def log(self, *items):
        text = " ".join(
            i if isinstance(i, str) else repr(i) for i in items
        )
        self._hash.update(text.encode("utf8", "replace") + b"\n")
        self.tail.append(text[:300])
        if len(self.tail) > 60:
            del self.tail[:20]

    def digest(self):
        return self._hash.hexdigest()

    def step(self, *items):
        self.steps += 1
        if items:
            self.log(*items)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.log("FAULT", kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *items):
        self.states.add(hashlib.sha1(repr(items).encode()).hexdigest()[:16])

    def check(self, condition, cls, message="", key=None):
        self.checks += 1
        if not condition:
            raise Violation(cls, message() if callable(message) else message, key)


def from_sut(exc):
    """Whether an exception passed through code of /repo."""
    tb = exc.__traceback__
    root = os.path.realpath(os.path.join(REPO, "gwpopulation")) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def prepare_sut():
    """Import the code under test from /repo's working tree."""
    import types
    import warnings

    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, "gwpopulation", "_version.py")):
        stub = types.ModuleType("gwpopulation._version")
        stub.__version__ = "0"
        sys.modules["gwpopulation._version"] = stub
    import logging

    import numpy as np

    np.seterr(all="ignore")
    import gwpopulation

    root = os.path.realpath(REPO) + os.sep
    if not os.path.realpath(gwpopulation.__file__).startswith(root):
        raise RuntimeError(f"gwpopulation imported from {gwpopulation.__file__}")
    logging.getLogger("bilby").setLevel(logging.CRITICAL)
    warnings.simplefilter("ignore")
    return gwpopulation


def load_property(pid):
    return importlib.import_module(f"props.{pid}")


def run_scenario(prop, scenario):
    """Execute one scenario; returns (violation or None, recorder)."""
    rec = Recorder()
    violation = None

    def on_alarm(signum, frame):
        raise Stuck()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(getattr(prop, "RUN_LIMIT", RUN_LIMIT))
    try:
        prop.execute(scenario, rec)
    except Violation as exc:
        violation = exc
    except Stuck:
        violation = Violation("no-progress", "the run did not finish")
    except Exception as exc:
        if from_sut(exc):
            text = "".join(traceback.format_exception(exc)[-6:])
            violation = Violation(f"unexpected-{type(exc).__name__}", text)
        else:
            raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        cleanup = getattr(prop, "cleanup", None)
        if cleanup is not None:
            cleanup()
    if violation is not None:
        rec.log("VIOLATION", violation.cls)
    return violation, rec


# ----------------------------------------------------------------- known findings


def known_findings(pid):
    """{key: text} of listed findings that are not repaired."""
    found = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:") and f"property={pid} " in line:
                rest = line.split(f"property={pid} ", 1)[1]
                key, _, text = rest.partition(" ")
                found[key.removeprefix("key=")] = text
    return found


# ----------------------------------------------------------------- worker


def worker(pid, tier, seed, index, count, runs, cap, out):
    # the worker's own output must not mix with the report
    prepare_sut()
    prop = load_property(pid)
    if hasattr(prop, "setup"):
        prop.setup(tier)
    start = time.monotonic()
    known = known_findings(pid)
    result = dict(
        runs=0, steps=0, checks=0, faults={}, probes={}, states=[], nontrivial=[],
        violations=[], known={}, error=None, digests={}, samples=[], truncated=False,
    )
    states, nontrivial = set(), set()
    done = []
    try:
        for idx in range(index, runs, count):
            if time.monotonic() - start > cap:
                result["truncated"] = True
                break
            rng = make_rng(seed, pid, tier, idx)
            scenario = prop.generate(rng, tier, idx)
            scenario = json.loads(json.dumps(scenario))
            violation, rec = run_scenario(prop, scenario)
            done.append(idx)
            result["runs"] += 1
            result["steps"] += rec.steps
            result["checks"] += rec.checks
            for name in ("faults", "probes"):
                for kind, number in getattr(rec, name).items():
                    result[name][kind] = result[name].get(kind, 0) + number
            states |= rec.states
            if rec.steps >= 2 and rec.checks >= 1:
                nontrivial.add(hashlib.sha1(json.dumps(scenario, sort_keys=True).encode()).hexdigest()[:16])
            result["digests"][idx] = rec.digest()[:24]
            if idx < 2:
                result["samples"].append(dict(run=idx, scenario=scenario))
            if violation is not None:
                if violation.key in known:
                    result["known"][violation.key] = known[violation.key]
                    continue
                result["violations"].append(
                    dict(run=idx, cls=violation.cls, message=violation.message,
                         scenario=scenario, digest=rec.digest(), tail=rec.tail[-25:],
                         prefix=done[:-1])
                )
                break
        if hasattr(prop, "finish"):
            # checks that need the whole batch (statistics, other interpreters)
            rec = Recorder()
            try:
                prop.finish(rec)
            except Violation as exc:
                result["violations"].append(
                    dict(run=-1, cls=exc.cls, message=exc.message, scenario=None,
                         digest=rec.digest(), tail=rec.tail[-25:], prefix=done)
                )
            result["checks"] += rec.checks
            result["steps"] += rec.steps
            for name in ("faults", "probes"):
                for kind, number in getattr(rec, name).items():
                    result[name][kind] = result[name].get(kind, 0) + number
            states |= rec.states
    except BaseException:
        result["error"] = traceback.format_exc()
    result["states"] = sorted(states)
    result["nontrivial"] = sorted(nontrivial)
    result["wall"] = time.monotonic() - start
    with open(out, "w") as ff:
        json.dump(result, ff)
    return 0


def replay_once(pid, tier, replay):
    """Execute a replay file's content in this process."""
    prop = load_property(pid)
    if hasattr(prop, "setup"):
        prop.setup(tier)
    last = (None, None)
    if replay.get("mode") == "sequence":
        for idx in replay["runs"]:
            rng = make_rng(replay["seed"], pid, replay["tier"], idx)
            scenario = json.loads(json.dumps(prop.generate(rng, replay["tier"], idx)))
            last = run_scenario(prop, scenario)
            if last[0] is not None:
                return last
        if hasattr(prop, "finish"):
            rec = Recorder()
            try:
                prop.finish(rec)
            except Violation as exc:
                return exc, rec
        return last
    return run_scenario(prop, replay["scenario"])


# ----------------------------------------------------------------- minimiser


def minimise(pid, scenario, cls, budget):
    prop = load_property(pid)
    if hasattr(prop, "setup"):
        prop.setup("quick")
    start = time.monotonic()
    tried = 0

    def fails(candidate):
        nonlocal tried
        tried += 1
        try:
            violation, _ = run_scenario(prop, json.loads(json.dumps(candidate)))
        except BaseException:
            return False
        return violation is not None and violation.cls == cls

    def over():
        return time.monotonic() - start > budget

    if not fails(scenario):
        return scenario, tried
    best = scenario
    ops = best.get("ops")
    if isinstance(ops, list):
        chunk = max(1, len(ops) // 2)
        while not over():
            pos, changed = 0, False
            while pos < len(best["ops"]) and not over():
                candidate = dict(best)
                candidate["ops"] = best["ops"][:pos] + best["ops"][pos + chunk:]
                if candidate["ops"] and fails(candidate):
                    best, changed = candidate, True
                else:
                    pos += chunk
            if chunk == 1 and not changed:
                break
            chunk = max(1, chunk // 2)
        for pos in range(len(best["ops"])):
            if over():
                break
            op = best["ops"][pos]
            if isinstance(op, dict) and "fault" in op:
                candidate = dict(best)
                candidate["ops"] = list(best["ops"])
                candidate["ops"][pos] = {k: v for k, v in op.items() if k != "fault"}
                if fails(candidate):
                    best = candidate
    simplify = getattr(prop, "simplify", None)
    if simplify is not None:
        progress = True
        while progress and not over():
            progress = False
            for candidate in simplify(best):
                if over():
                    break
                if fails(candidate):
                    best, progress = candidate, True
                    break
    return best, tried


# ----------------------------------------------------------------- parent


def _child(args, **kwargs):
    env = dict(os.environ)
    return subprocess.Popen(
        [PYTHON, "-B", os.path.join(VERIF, "check.py"), *map(str, args)],
        cwd=VERIF, env=env, stdin=subprocess.DEVNULL, **kwargs,
    )


def run_child(args, timeout):
    """Run check.py in a new interpreter; returns (rc, stdout, stderr)."""
    proc = _child(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        out, err = proc.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        proc.kill()
        proc.communicate()
        return None, "", "timeout"
    return proc.returncode, out, err


def report_violation(pid, tier, seed, violation, scratch):
    os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
    name = f"{pid}-{hashlib.sha1(json.dumps(violation['scenario']).encode()).hexdigest()[:10]}.json"
    path = os.path.join(EVIDENCE, "replays", name)
    base = dict(
        property=pid, tier=tier, seed=seed, run=violation["run"],
        violation=dict(cls=violation["cls"], message=violation["message"]),
        trace=violation["tail"],
    )

    def confirm(replay):
        with open(path, "w") as ff:
            json.dump(replay, ff, indent=1)
        rc, out, err = run_child([pid, "--replay", path], 400)
        return rc == 1

    if violation["scenario"] is not None:
        replay = dict(base, mode="scenario", scenario=violation["scenario"])
        source = os.path.join(scratch, "tomin.json")
        with open(source, "w") as ff:
            json.dump(replay, ff)
        target = os.path.join(scratch, "min.json")
        rc, _, _ = run_child([pid, "--minimise", source, "--out", target], 300)
        if rc == 0 and os.path.exists(target):
            small = json.load(open(target))
            replay = dict(replay, scenario=small["scenario"], candidates_tried=small["tried"])
            if confirm(replay):
                return path
        replay = dict(base, mode="scenario", scenario=violation["scenario"])
        if confirm(replay):
            return path
    # it needs what earlier runs of the same process left behind
    last = [violation["run"]] if violation["run"] >= 0 else []
    begin = time.monotonic()
    for length in (1, 4, 16):
        if last and length < len(violation["prefix"]) and time.monotonic() - begin < 100:
            if confirm(dict(base, mode="sequence", runs=violation["prefix"][-length:] + last)):
                return path
    confirm(dict(base, mode="sequence", runs=violation["prefix"] + last))
    return path


def parent(pid, tier, seed, args):
    prop_spec = json.loads(run_child([pid, "--spec", "--tier", tier], 300)[1].strip().splitlines()[-1])
    runs = args.runs or prop_spec["runs"]
    workers = args.workers or prop_spec["workers"]
    cap = args.cap or prop_spec["cap"]
    start = time.monotonic()
    error, results = None, []
    with tempfile.TemporaryDirectory(prefix=f"verif-{pid}-") as scratch:
        procs = []
        for index in range(workers):
            out = os.path.join(scratch, f"w{index}.json")
            err = open(os.path.join(scratch, f"w{index}.err"), "w")
            procs.append((
                _child([pid, "--worker", index, "--workers", workers, "--runs", runs,
                        "--cap", cap, "--tier", tier, "--seed", seed, "--out", out],
                       stdout=subprocess.DEVNULL, stderr=err), out, err.name))
        deadline = start + cap + 330
        for proc, out, err in procs:
            try:
                proc.wait(timeout=max(1, deadline - time.monotonic()))
            except subprocess.TimeoutExpired:
                proc.kill()
                proc.wait()
                error = error or f"worker timed out: {open(err).read()[-2000:]}"
                continue
            if not os.path.exists(out):
                error = error or f"worker died rc={proc.returncode}: {open(err).read()[-3000:]}"
                continue
            result = json.load(open(out))
            results.append(result)
            if result["error"]:
                error = error or result["error"]
        violations = sorted(
            (v for r in results for v in r["violations"]), key=lambda v: (v["run"] < 0, v["run"])
        )
        wall_runs = time.monotonic() - start
        known = {}
        for result in results:
            known.update(result["known"])
        for key, text in sorted(known.items()):
            print(f"KNOWN-FINDING: property={pid} {text}")
        total = lambda name: sum(r[name] for r in results)  # noqa: E731

        def merged(name):
            merged = {}
            for result in results:
                for key, value in result[name].items():
                    merged[key] = merged.get(key, 0) + value
            return dict(sorted(merged.items()))

        states = set().union(*[r["states"] for r in results]) if results else set()
        nontrivial = set().union(*[r["nontrivial"] for r in results]) if results else set()
        digest = hashlib.sha256(
            json.dumps(sorted((int(k), v) for r in results for k, v in r["digests"].items())).encode()
        ).hexdigest()
        samples = [s for r in results for s in r["samples"]][:2]
        coverage = dict(
            evaluations=total("runs"),
            distinct_nontrivial=len(nontrivial),
            rule=prop_spec["rule"],
            samples=samples or ["none"],
            runs_per_hour=round(total("runs") / max(wall_runs, 1e-9) * 3600),
            simulated_steps=total("steps"),
            oracle_comparisons=total("checks"),
            faults_injected=merged("faults"),
            probes=merged("probes"),
            distinct_states=len(states),
            distinct_states_measure=prop_spec["state_measure"],
            real_components=prop_spec["real"],
            stub_components=prop_spec["stub"],
            simulated_time="no clock is read by the code under test; simulated time is counted in steps",
            event_log_digest=digest,
            workers=workers,
            stopped_early=any(r["truncated"] for r in results),
        )
        os.makedirs(EVIDENCE, exist_ok=True)
        status = 0
        path = None
        if violations:
            path = report_violation(pid, tier, seed, violations[0], scratch)
            status = 1
        evidence = dict(
            property=pid, tier=tier, seed=seed, level=prop_spec["level"],
            coverage=coverage, assumptions=prop_spec["assumptions"],
            wall_s=round(time.monotonic() - start, 2), violations=len(violations),
        )
        with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as ff:
            json.dump(evidence, ff, indent=1)
    print(
        f"{pid} {tier} seed={seed}: {coverage['evaluations']} runs, "
        f"{coverage['simulated_steps']} steps, {coverage['oracle_comparisons']} comparisons, "
        f"faults {coverage['faults_injected']}, probes {coverage['probes']}, {len(states)} states, "
        f"{evidence['wall_s']} s, log {digest[:16]}"
    )
    if violations:
        print(f"{violations[0]['cls']}: {violations[0]['message']}")
        print(f"VIOLATION property={pid} replay={path}")
    elif error:
        print(f"ERROR in the check itself:\n{error}", file=sys.stderr)
        status = 2
    elif total("runs") == 0:
        print("ERROR: nothing was run", file=sys.stderr)
        status = 2
    return status


def main(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--worker", type=int)
    parser.add_argument("--workers", type=int)
    parser.add_argument("--runs", type=int)
    parser.add_argument("--cap", type=float)
    parser.add_argument("--out")
    parser.add_argument("--replay")
    parser.add_argument("--minimise")
    parser.add_argument("--spec", action="store_true")
    parser.add_argument("--one", type=int, help="run one index in this process and print its log")
    args = parser.parse_args(argv)
    pid, tier = args.property, args.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if args.spec:
        prepare_sut()
        prop = load_property(pid)
        spec = dict(prop.SPEC)
        spec.update(spec.pop(tier))
        spec.setdefault("workers", 8)
        spec.setdefault("level", "exploration")
        spec.setdefault("cap", 300 if tier == "quick" else 3600)
        print(json.dumps(spec))
        return 0
    if args.worker is not None:
        return worker(pid, tier, args.seed, args.worker, args.workers, args.runs, args.cap, args.out)
    if args.minimise:
        prepare_sut()
        source = json.load(open(args.minimise))
        devnull = open(os.devnull, "w")
        sys.stdout = devnull
        small, tried = minimise(pid, source["scenario"], source["violation"]["cls"], 150)
        with open(args.out, "w") as ff:
            json.dump(dict(scenario=small, tried=tried), ff)
        return 0
    if args.replay:
        prepare_sut()
        replay = json.load(open(args.replay))
        real, sys.stdout = sys.stdout, open(os.devnull, "w")
        violation, rec = replay_once(pid, replay.get("tier", "quick"), replay)
        sys.stdout = real
        for line in (rec.tail if rec else [])[-40:]:
            print("   ", line)
        if violation is None:
            print("not reproduced")
            return 0
        print(f"{violation.cls}: {violation.message}")
        print(f"log {rec.digest()}")
        print(f"VIOLATION property={pid} replay={os.path.abspath(args.replay)}")
        return 1
    if args.one is not None:
        prepare_sut()
        prop = load_property(pid)
        if hasattr(prop, "setup"):
            prop.setup(tier)
        scenario = prop.generate(make_rng(args.seed, pid, tier, args.one), tier, args.one)
        scenario = json.loads(json.dumps(scenario))
        print(json.dumps(scenario, indent=1)[:6000])
        t0 = time.monotonic()
        violation, rec = run_scenario(prop, scenario)
        print("\n".join(rec.tail))
        print(rec.steps, rec.checks, rec.faults, rec.probes, time.monotonic() - t0)
        print(violation)
        return 1 if violation else 0
    return parent(pid, tier, args.seed, args)
