"""C01: a failed backend switch changes nothing and can be retried."""
import json
import os
import subprocess
import sys
import tempfile

import numpy as np

from sim import backends, core
from sim import refmodel as ref

SPEC = dict(
    rule="a run is non-trivial if it makes at least two switch requests and compares the bindings of all registered "
         "modules after each; runs are distinct if their scenarios differ",
    state_measure="tuples (active backend, requested backend, faults in place, outcome)",
    real=["gwpopulation.backend and every module registered with it", "Python's import system and entry points",
          "numpy, scipy, jax"],
    stub=["plugin packages (generated on disk)", "cupy and cupyx (stand-in that forwards to numpy and scipy)",
          "failing imports, look-ups and registry reads (injected)"],
    assumptions=["the set of registered modules of a process is fixed apart from injected defective registrations",
                 "failures are exceptions raised by imports, look-ups and registry reads, not asynchronous interrupts"],
    level="fault_enumeration",
    quick=dict(runs=2000), thorough=dict(runs=150000),
)
UNSUPPORTED = ["torch", "", "NumPy", "JAX", "numpy ", "jax.numpy", "scipy", "cupyx", "tensorflow", None, 1, "n"]
BACKENDS = ["numpy", "jax", "cupy"]
FRESH_EVERY = 41


def make_fault(rng):
    return dict(kind=rng.choice(backends.FAULTS), pick=rng.random(), late=rng.random() < 0.4,
                exc=rng.choice(["None", "None"] + sorted(backends.EXCEPTIONS)))


def generate(rng, tier, idx):
    group = idx % 8
    packages = backends.plugin_spec(core.make_rng("plugins", rng.parts[0], group), group)
    fresh = idx % FRESH_EVERY == 0
    ops, last = [], None
    n = rng.randint(3, 7) if fresh else rng.randint(4, 16)
    for _ in range(n):
        name = rng.choices(["switch", "unsupported", "use"], [8, 1.2, 1.5])[0]
        op = dict(op=name)
        if name == "switch":
            op["backend"] = rng.choices(BACKENDS, [4, 4, 2])[0]
            if op["backend"] == last and rng.random() < 0.7:
                op["backend"] = rng.choice([b for b in BACKENDS if b != last])
            last = op["backend"]
        elif name == "unsupported":
            op["backend"] = rng.choice(UNSUPPORTED)
        else:
            op["seed"] = rng.getrandbits(16)
        if name != "use" and rng.random() < 0.5:
            op["fault"] = [make_fault(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
        ops.append(op)
    return dict(packages=packages, fresh=fresh, cupy=rng.random() < 0.7, ops=ops)


def execute(scn, rec):
    if scn["fresh"] and not os.environ.get("VERIF_FRESH"):
        return in_new_interpreter(scn, rec, "C01")
    run(scn, rec, use)


def run(scn, rec, use):
    import gwpopulation
    import gwpopulation.experimental.cosmo_models  # noqa: F401
    import jax  # noqa: F401  (jax itself cannot be imported again after a first import that failed half-way)

    world = backends.Simulated(backends.installation(scn["packages"]), scn["cupy"])
    try:
        if not scn["fresh"]:
            # what an earlier run left behind must not matter
            for module in world.registered():
                __import__(module)
            gwpopulation.set_backend("jax") if world.resolve("jax") else None
            gwpopulation.set_backend("numpy")
            for (module, attr), value in world.resolve("numpy").items():
                setattr(sys.modules[module], attr, value)
        else:
            world.active = None
        history(scn, rec, world, use)
    finally:
        world.close()
        if not scn["fresh"]:
            gwpopulation.set_backend("numpy")


def history(scn, rec, world, use):
    import gwpopulation

    resolved = {}

    def available(backend):
        if backend not in resolved:
            resolved[backend] = world.resolve(backend)
        return resolved[backend]

    if not scn["fresh"]:
        for backend in BACKENDS:
            available(backend)
    last_failed = False
    for op in scn["ops"]:
        if op["op"] not in ("switch", "unsupported"):
            rec.step(op["op"], world.active, sorted(op))
            use(rec, world, op)
            continue
        backend = op["backend"]
        before = world.bindings()
        faults = op.get("fault", [])
        if not isinstance(backend, str) or backend not in BACKENDS:
            rec.step("unsupported", backend, faults)
            for fault in faults:
                world.inject(fault, "jax")
            try:
                gwpopulation.set_backend(backend)
                outcome = "accepted"
            except ValueError:
                outcome = "ValueError"
            except BaseException as exc:
                outcome = type(exc).__name__
            finally:
                world.clear()
            rec.check(outcome == "ValueError", "unsupported-name", lambda: f"{backend!r}: {outcome}")
            rec.probe("unsupported-rejected")
            compare(rec, world, before, "rejected-request-had-an-effect")
            continue
        rec.step("switch", world.active, backend, faults)
        error = None
        armed = []
        for fault in faults:
            known = len(world.undo)
            world.inject(fault, backend)
            if len(world.undo) > known:
                armed.append(fault["kind"])
        try:
            gwpopulation.set_backend(backend)
        except BaseException as exc:
            if isinstance(exc, core.Stuck):
                raise
            error = exc
        finally:
            world.clear()
        rec.state(world.active, backend, armed, error is None)
        if error is not None:
            for kind in armed:
                rec.fault(kind)
            compare(rec, world, before, "failed-request-had-an-effect")
            # only a cause that is still there may make a request fail
            if not armed:
                rec.check(backend != world.active, "request-for-active-backend-failed", lambda: repr(error))
                rec.check(available(backend) is None, "request-failed-without-cause",
                          lambda: f"{backend}: {error!r}")
                rec.probe("not-installable")
            last_failed = True
            continue
        if backend == world.active:
            compare(rec, world, before, "request-for-active-backend-had-an-effect")
            rec.probe("already-active")
            continue
        wanted = available(backend)
        rec.check(wanted is not None, "impossible-switch-accepted", backend)
        for (module, attr), value in wanted.items():
            rec.check(module in sys.modules and getattr(sys.modules[module], attr, None) is value, "not-rebound",
                      lambda: f"{module}.{attr} is {getattr(sys.modules.get(module), attr, None)!r} after a switch "
                              f"from {world.active} to {backend}")
        if last_failed:
            rec.probe("success-after-failure")
        last_failed = False
        world.active = backend
    use(rec, world, dict(seed=1))


def compare(rec, world, before, cls):
    after = world.bindings()
    for key, value in after.items():
        if key in before:
            rec.check(value is before[key], cls, lambda: f"{key[0]}.{key[1]} was {before[key]!r} and is {value!r}")
        else:
            # loaded by the failed request: still bound to what it was written with
            module = [m for p in world.installation.packages for m in p["modules"] if m["name"] == key[0]]
            if module:
                func = world.registered()[key[0]][key[1]]
                default = world.library(key[1], func, "numpy") if module[0]["defaults"] else None
                rec.check(value is default, cls + "-on-a-new-module",
                          lambda: f"{key[0]}.{key[1]} should be {default!r} and is {value!r}")


def use(rec, world, op):
    """The package still computes, with the library that is active."""
    if world.active is None:
        return
    from gwpopulation import utils
    from gwpopulation.models import spin

    gen = np.random.Generator(np.random.PCG64(op["seed"]))
    plain = gen.uniform(0.05, 0.95, 5)
    xp = sys.modules[backends.NP_MODULES[world.active]]
    data = xp.asarray(plain)
    got = utils.powerlaw(data, 1.5, 1.0, 0.02)
    check_result(rec, world, got, ref.powerlaw(plain, 1.5, 0.02, 1.0), "powerlaw")
    got = spin.iid_spin_magnitude_beta(dict(a_1=data, a_2=data), alpha_chi=2.0, beta_chi=3.0, amax=1.0)
    check_result(rec, world, got, ref.beta(plain, 2.0, 3.0, 1.0) ** 2, "iid_spin_magnitude_beta")


def check_result(rec, world, got, expected, what, rtol=1e-9):
    if world.active == "jax":
        import jax

        good = isinstance(got, jax.Array) and got.dtype == np.float64
    else:
        good = isinstance(got, (np.ndarray, np.generic, float)) and np.asarray(got).dtype == np.float64
    rec.check(good, "wrong-library-or-precision",
              lambda: f"{what} with {world.active}: {type(got)} {getattr(got, 'dtype', None)}")
    got = np.asarray(got)
    scale = 1e-250 + rtol * (np.abs(expected) + 1e-6 * np.nanmax(np.abs(expected)))
    with np.errstate(all="ignore"):
        close = np.abs(got - expected) <= scale
    rec.check(got.shape == np.shape(expected) and bool(np.all(close)), "wrong-numbers",
              lambda: f"{what} with {world.active}: got {np.ravel(got)[:4]}, expected {np.ravel(expected)[:4]}")


def in_new_interpreter(scn, rec, pid):
    with tempfile.TemporaryDirectory(prefix="verif-fresh-") as scratch:
        path = os.path.join(scratch, "job.json")
        with open(path, "w") as ff:
            json.dump(dict(property=pid, scenario=scn), ff)
        env = dict(os.environ, VERIF_FRESH="1", TMPDIR=scratch)
        proc = subprocess.run([sys.executable, "-B", os.path.join(core.VERIF, "sim", "life.py"), path], env=env,
                              stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                              timeout=200)
    lines = [line for line in proc.stdout.splitlines() if line.startswith("RESULT ")]
    if not lines:
        raise RuntimeError(f"new interpreter failed: {proc.stderr[-2000:]}")
    out = json.loads(lines[-1][7:])
    rec.steps += out["steps"]
    rec.checks += out["checks"]
    rec.log("new interpreter", out["digest"])
    rec.tail.extend(out["tail"])
    for name, number in out["faults"].items():
        rec.faults[name] = rec.faults.get(name, 0) + number
    for name, number in out["probes"].items():
        rec.probe(name, number)
    rec.states |= set(out["states"])
    rec.probe("new-interpreter")
    if out["violation"] is not None:
        raise core.Violation(*out["violation"])


def simplify(scn):
    if scn["packages"]:
        for i in range(len(scn["packages"])):
            yield dict(scn, packages=scn["packages"][:i] + scn["packages"][i + 1:])
    for i, op in enumerate(scn["ops"]):
        if len(op.get("fault", [])) > 1:
            for keep in op["fault"]:
                ops = list(scn["ops"])
                ops[i] = dict(op, fault=[keep])
                yield dict(scn, ops=ops)
