"""C09: checkpointed or shipped objects resume with the same results."""
import copy
import json
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from props import C03, C07
from sim import core, faults, oracle, userfuncs, world

SPEC = dict(
    rule="a run is non-trivial if at least one object is restored from a snapshot or copy taken during its history and "
         "evaluated afterwards; runs are distinct if their scenarios differ",
    state_measure="tuples (kind of object, way of transport, evaluated or not before the snapshot, evaluated or not "
                  "before it was replaced, operation)",
    real=["gwpopulation.hyperpe", "gwpopulation.vt", "gwpopulation.models", "gwpopulation.experimental",
          "bilby.hyper.model.Model", "dill, pickle, copy", "numpy/jax", "a new Python interpreter for some restores"],
    stub=["workers and their crashes (objects in this process, except for the restores in a new interpreter)",
          "checkpoint storage (bytes in memory)"],
    assumptions=["the restoring process selects the same backend before it loads the bytes",
                 "user functions are importable where the bytes are loaded"],
    level="fault_enumeration",
    quick=dict(runs=400), thorough=dict(runs=20000),
)
JAX_EVERY = 11
WAYS = ["dill", "dill", "pickle", "copy", "deepcopy"]


def generate(rng, tier, idx):
    jax = idx % JAX_EVERY == JAX_EVERY - 1
    kind = rng.choices(["likelihood", "selection", "model"], [5, 2, 3])[0]
    if jax:
        kind = rng.choice(["likelihood", "jitted", "jitted", "model"])
    scn = dict(kind=kind, jax=jax, seed=rng.getrandbits(32), fresh=idx % 23 in (0, 7, 13))
    if kind == "model":
        name = rng.choice(C07.TABLE_KINDS * 2 + world.GROUPS["redshift"] + ["GaussianChiEffChiP"])
        spec = world.component(rng, name, small=jax, cosmo="Planck15" if jax else None)
        scn["spec"] = spec
        points = world.Points(rng, spec["params"])
        scn["shape"] = [6] if jax else rng.choice([[5], [3, 4]])
    else:
        cfg = world.likelihood_config(
            rng, jax=jax, cosmo="Planck15" if jax else None, max_components=1 if jax else 3,
            groups=["toy", "magnitude"] if kind == "jitted" and rng.random() < 0.6 else None,
            selection=rng.choice(["resampling", "resampling", "grid"]) if kind == "selection" else None)
        if cfg["selection"]["kind"] == "grid" and not world.usable_grid(cfg["selection"], cfg["specs"]):
            cfg["selection"] = dict(kind="constant")
            if kind == "selection":
                kind = scn["kind"] = "likelihood"
        if kind == "selection" or kind == "jitted":
            cfg["conversion"] = "default"
        if cfg["selection"]["kind"] == "resampling":
            cfg["selection"]["share"] = rng.random() < 0.25 and kind == "likelihood"
        scn["cfg"] = cfg
        points = world.Points(rng, world.point_names(cfg["specs"], ["rate"] if cfg["cls"] == "Rate" else []))
    if kind == "jitted":
        # the caller's own function and keyword arguments
        scn["power"] = rng.choice([None, None, 0.5, 0.25])
    workers = rng.randint(2, 4)
    scn["workers"] = workers
    ops = []
    for _ in range(rng.randint(5, 8) if jax else rng.randint(6, 26)):
        name = rng.choices(["eval", "snapshot", "crash", "ship", "settings", "interrupted", "redeliver"],
                           [8, 2, 1.6, 2.2, 1, 0.8, 1])[0]
        op = dict(op=name, worker=rng.randrange(workers))
        if name in ("eval", "interrupted", "redeliver"):
            if name == "redeliver":
                point = rng.choice(points.history)
            else:
                point, _ = points.next()
            op["point"] = point
            op["what"] = rng.choice(["ratio", "ratio", "both", "stats"])
            op["data"] = rng.randrange(2)
            op["frac"] = rng.random()
            op["exc"] = rng.choice(sorted(faults.EXCEPTIONS))
        if name in ("snapshot", "ship"):
            op["way"] = rng.choice(WAYS if name == "ship" else ["dill", "dill", "pickle"])
            # dill cannot store compiled functions with protocols below 4
            op["protocol"] = rng.choice([None, 4, 5] + ([2] if kind == "model" else []))
            op["to"] = rng.randrange(workers)
            if rng.random() < 0.12:
                op["fault"] = dict(kind="interrupt", at=rng.randint(1, 20), exc=rng.choice(sorted(faults.EXCEPTIONS)))
        if name == "settings":
            op["value"] = rng.choice([None, 0.3, 1.0, 3.0])
            op["flag"] = rng.random() < 0.5
        ops.append(op)
    scn["ops"] = ops
    return scn


class Target:
    """One kind of object: how to build, evaluate and predict it."""

    def __init__(self, scn):
        self.scn, self.jax = scn, scn["jax"]
        np.random.seed(scn["seed"])
        self.kind = scn["kind"]
        if self.kind == "model":
            self.spec = scn["spec"]
            gen = world.np_gen(scn["seed"])
            self.plain = [world.columns(gen, self.spec["cols"], tuple(scn["shape"])) for _ in range(2)]
            self.original = world.build(self.spec)
        else:
            self.cfg = scn["cfg"]
            self.built = world.Built(self.cfg)
            self.reference = world.RefLikelihood(self.cfg, self.built.like.data, self.built.like.sampling_prior)
            self.original = self.built.like
            if self.kind == "selection":
                self.original = self.built.selection
            elif self.kind == "jitted":
                from gwpopulation.experimental.jax import JittedLikelihood

                self.original = JittedLikelihood(self.built.like)
                if scn["power"] is not None:
                    self.original = JittedLikelihood(self.built.like, likelihood_func=userfuncs.tempered,
                                                     kwargs=dict(power=scn["power"]))
                # splines take their node positions from the first call, which cannot be a traced one
                for op in [op for op in scn["ops"] if "point" in op][:1]:
                    self.built.like.log_likelihood_ratio(self.fixed(op["point"]))

    def settings(self):
        if self.kind == "model":
            return {}
        if self.kind == "selection":
            return dict(self.reference.settings)
        return dict(limit=self.reference.max_uncertainty)

    def fixed(self, point):
        specs = [self.spec] if self.kind == "model" else self.cfg["specs"]
        if self.kind != "model":
            point = C03.to_sampled(self.cfg, point)
        return {**world.fixed_values(specs), **point}

    def fresh_data(self):
        return [world.as_backend({k: v.copy() for k, v in d.items()}, self.jax) for d in self.plain]

    def call(self, obj, op, datasets=None):
        point = self.fixed(op["point"])
        if self.kind == "model":
            return obj(datasets[op["data"]], **point)
        if self.kind == "selection":
            return obj(point)
        if op["what"] == "both" and self.kind != "jitted":
            return obj.ln_likelihood_and_variance(point)
        if op["what"] == "stats" and self.kind != "jitted":
            return obj.generate_extra_statistics(dict(point))
        return obj.log_likelihood_ratio(point)

    def check(self, rec, op, result, settings, where):
        rtol, _ = world.tolerances(self.jax)
        if self.kind == "model":
            expected = world.ref_density(self.spec, self.plain[op["data"]], self.fixed(op["point"]))
            shape = np.shape(self.plain[op["data"]][self.spec["cols"][0]])
            expected = np.broadcast_to(expected, shape)
            got = np.asarray(result, float)
            with np.errstate(all="ignore"):
                scale = rtol * (np.abs(expected) + 1e-6 * np.nanmax(np.abs(expected)))
            rec.check(oracle.same(got, expected, scale), f"density-{where}",
                      lambda: f"{self.spec['kind']}: got {got.ravel()[:4]}, expected {expected.ravel()[:4]}")
            return
        point = C03.to_sampled(self.cfg, op["point"])
        if self.kind == "selection":
            self.reference.settings = dict(settings)
            value, variance, ambiguous = self.reference.selection(point)
            got = result[0] if isinstance(result, tuple) else result
            got = oracle.number(got)
            if not ambiguous:
                rec.check(oracle.same(got, value, rtol * abs(np.nan_to_num(value, posinf=0))), f"selection-{where}",
                          lambda: f"got {got}, expected {value} with {settings}")
                if isinstance(result, tuple):
                    scale = abs(variance) + 1e-3 * self.reference.efficiency(point)[0] ** 2
                    rec.check(oracle.same(oracle.number(result[1]), variance, rtol * scale), f"selection-variance-{where}",
                              lambda: f"got {result[1]}, expected {variance}")
            return
        self.reference.max_uncertainty = settings["limit"]
        terms = self.reference.terms(point)
        what = op["what"] if self.kind != "jitted" else "ratio"
        if what == "both":
            oracle.ln_l_and_variance(rec, result, self.cfg, terms, self.jax)
        elif what == "stats":
            oracle.statistics(rec, result, self.fixed(op["point"]), self.cfg, terms, self.jax)
        else:
            if self.kind == "jitted" and self.scn["power"] is not None:
                result = oracle.number(result) / self.scn["power"]
            oracle.ratio(rec, result, terms, self.jax, what=f"log_likelihood_ratio-{where}")

    def apply(self, obj, op, settings):
        """Change a public setting of one copy."""
        settings = dict(settings)
        if self.kind == "model" or self.kind == "jitted":
            return settings
        if self.kind == "selection":
            if "enforce" not in settings:
                return settings
            obj.enforce_convergence = settings["enforce"] = op["flag"]
            obj.n_events = settings["n_events"] = 1 if op["value"] is None else 3
            return settings
        obj.maximum_uncertainty = settings["limit"] = np.inf if op["value"] is None else op["value"]
        return settings


def pack(obj, way, protocol=None, strict=False):
    import dill

    if way == "pickle":
        try:
            return pickle.dumps(obj, protocol=protocol), "pickle"
        except (pickle.PicklingError, AttributeError, TypeError) as exc:
            if strict:
                raise core.Violation("not-picklable", f"{type(exc).__name__}: {exc}")
            # default arguments of the likelihoods are lambdas, which pickle refuses
            return dill.dumps(obj, protocol=protocol), "dill"
    return dill.dumps(obj, protocol=protocol), "dill"


def unpack(data, way):
    import dill

    return pickle.loads(data) if way == "pickle" else dill.loads(data)


def execute(scn, rec):
    import gwpopulation

    gwpopulation.set_backend("jax" if scn["jax"] else "numpy")
    target = Target(scn)
    model = scn["kind"] == "model"
    first, way = pack(target.original, "dill")
    workers = []
    for w in range(scn["workers"]):
        obj = target.original if w == 0 else unpack(first, way)
        workers.append(dict(obj=obj, settings=target.settings(), used=False, way="original" if w == 0 else "dill",
                            durable=(first, way, target.settings(), False),
                            data=target.fresh_data() if model else None))
    shipped = []  # for the new interpreter
    counts = {}
    for op in scn["ops"]:
        kind, worker = op["op"], workers[op["worker"]]
        rec.step(kind, op["worker"], op.get("way"), sorted(op.get("point", {}).items()), op.get("fault"))
        rec.state(scn["kind"], worker["way"], worker["used"], kind, op.get("way"), scn["jax"])
        if kind in ("eval", "redeliver"):
            result = target.call(worker["obj"], op, worker["data"])
            target.check(rec, op, result, worker["settings"], worker["way"])
            worker["used"] = True
        elif kind == "interrupted":
            key = (op["what"], worker["used"])
            if key not in counts:
                twin = unpack(first, way)
                counts[key] = faults.count_events(
                    lambda: target.call(twin, op, target.fresh_data() if model else None))
            cut = faults.Interrupt(1 + int(op["frac"] * counts[key]), op["exc"])
            try:
                with cut:
                    target.call(worker["obj"], op, worker["data"])
            except BaseException:
                if cut.fired is None:
                    raise
                rec.fault("interrupted-evaluation")
        elif kind == "snapshot":
            worker["durable"] = snapshot(rec, worker, op) or worker["durable"]
        elif kind == "crash":
            data, how, settings, used = worker["durable"]
            rec.fault("crash")
            worker.update(obj=unpack(data, how), settings=dict(settings), used=used, way=how,
                          data=target.fresh_data() if model else None)
        elif kind == "ship":
            if op["way"] in ("copy", "deepcopy"):
                clone = copy.copy(worker["obj"]) if op["way"] == "copy" else copy.deepcopy(worker["obj"])
                how = op["way"]
                settings = dict(worker["settings"])
            else:
                made = snapshot(rec, worker, op)
                if made is None:
                    continue
                clone, how, settings = unpack(made[0], made[1]), made[1], made[2]
                shipped.append(dict(bytes=made[0], method=made[1], settings=settings))
            rec.probe(f"shipped-{how}")
            other = workers[op["to"]]
            if other is worker:
                # a process replaces its object by what it got back
                rec.probe("replaced-by-copy")
            other.update(obj=clone, settings=dict(settings), used=worker["used"], way=how,
                         data=worker["data"] if how == "copy" and model else (target.fresh_data() if model else None))
        else:
            worker["settings"] = target.apply(worker["obj"], op, worker["settings"])
    # every copy must still be right at the end
    last = [op for op in scn["ops"] if op["op"] == "eval"][-1:]
    for worker in workers:
        for op in last:
            result = target.call(worker["obj"], op, worker["data"])
            target.check(rec, op, result, worker["settings"], worker["way"])
    if scn["fresh"] and last:
        items = shipped[-2:]
        for worker in workers[:2]:
            made = snapshot(rec, worker, dict(way="dill", protocol=None))
            items.append(dict(bytes=made[0], method=made[1], settings=made[2]))
        in_new_interpreter(scn, rec, target, items, [o for o in scn["ops"] if o["op"] == "eval"][:2] + last)


def snapshot(rec, worker, op):
    """(bytes, method, settings, used) or None if taking it was interrupted."""
    fault = op.get("fault")
    if fault is None:
        data, how = pack(worker["obj"], op["way"], op["protocol"], worker["data"] is not None)
    else:
        cut = faults.Interrupt(fault["at"], fault["exc"])
        try:
            with cut:
                data, how = pack(worker["obj"], op["way"], op["protocol"], worker["data"] is not None)
        except BaseException:
            if cut.fired is None:
                raise
            rec.fault("interrupted-snapshot")
            return None
    rec.probe("snapshots")
    return data, how, dict(worker["settings"]), worker["used"]


def in_new_interpreter(scn, rec, target, items, ops):
    jobs = []
    for item in items:
        calls = []
        for op in ops:
            point = target.fixed(op["point"])
            if scn["kind"] == "model":
                calls.append(("model", dict(data=target.plain[op["data"]], point=point)))
            elif scn["kind"] == "selection":
                calls.append(("call", point))
            elif op["what"] == "both" and scn["kind"] != "jitted":
                calls.append(("both", point))
            else:
                calls.append(("ratio", point))
        jobs.append(dict(bytes=item["bytes"], method=item["method"], calls=calls))
    with tempfile.TemporaryDirectory(prefix="verif-fresh-") as scratch:
        path = os.path.join(scratch, "job")
        with open(path, "wb") as ff:
            pickle.dump(dict(backend="jax" if scn["jax"] else "numpy", items=jobs), ff)
        proc = subprocess.run(
            [sys.executable, "-B", os.path.join(core.VERIF, "sim", "fresh.py"), path],
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
    lines = [line for line in proc.stdout.splitlines() if line.startswith("RESULT ")]
    rec.check(bool(lines), "new-interpreter-failed", lambda: proc.stderr[-1500:])
    rec.fault("restart-in-new-interpreter")
    for item, out in zip(items, json.loads(lines[-1][7:])):
        rec.check("values" in out, "restore-failed", lambda: out.get("error"))
        for op, value in zip(ops, out["values"]):
            fixed = dict(op)
            if op["what"] == "stats":
                fixed["what"] = "ratio"
            if isinstance(value, list) and scn["kind"] == "selection":
                value = tuple(value)
            target.check(rec, fixed, value, item["settings"], "new-process")


def simplify(scn):
    if scn["kind"] == "likelihood":
        yield from C03.simplify(scn)
    if scn["fresh"]:
        yield dict(scn, fresh=False)
