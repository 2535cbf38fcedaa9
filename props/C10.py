"""C10: objects used by different threads do not influence each other."""
import gc
import json

import numpy as np

from props import C03, C05
from sim import faults, oracle, threads, userfuncs, world

SPEC = dict(
    rule="a run is non-trivial if at least two objects or threads were interleaved and at least one result was compared "
         "with the reference; runs are distinct if their scenarios differ",
    state_measure="preemption points (file, function, line, object kinds of the two threads) and, without threads, pairs "
                  "(operation on one object, next operation on another one)",
    real=["gwpopulation (all modules on the evaluation path)", "bilby.hyper.model.Model", "wcosmo", "cached_interpolate",
          "numpy/jax", "CPython threads"],
    stub=["thread scheduler (sim/threads.py: one runnable thread at a time, switches at chosen lines or bytecodes)",
          "user callbacks (sim/userfuncs.py)"],
    assumptions=["threads are switched at lines or bytecodes of the package, cached_interpolate and user callbacks, not "
                 "inside numpy or bilby", "threads that share an object share one whose components keep no tables"],
    quick=dict(runs=1700), thorough=dict(runs=60000),
)
JAX_EVERY = 23
STATEFUL = (list(world.MASS_CLASSES) + ["InterpolatedPowerlaw"] * 2
            + ["SplineSpinMagnitudeIdentical", "SplineSpinTiltIdentical", "InterpolatedNoBaseModelIdentical"]
            + ["PowerLawRedshift", "MadauDickinsonRedshift"] * 2 + ["GaussianChiEffChiP", "ToyClass"])
TABLE_FREE = [k for k in world.FUNCTIONS if k != "iid_spin"] + [
    "PowerLawRedshift", "MadauDickinsonRedshift", "GaussianChiEffChiP", "ToyClass"]


def generate(rng, tier, idx):
    jax = idx % JAX_EVERY == JAX_EVERY - 1
    style = "sequential" if jax else rng.choices(["separate", "shared", "sequential"], [6, 2, 2])[0]
    count = rng.randint(2, 3) if jax else rng.randint(2, 4)
    objects = []
    base, models = None, False
    if style == "shared":
        base = one_object(rng, shared=True)
    elif rng.random() < 0.7:
        # half of the threaded runs: instances of one population model
        models = style == "separate" and rng.random() < 0.6
        base = one_object(rng, jax=jax, models=models)
    if style != "shared":
        for _ in range(count if style == "separate" else count + (0 if jax else 2)):
            objects.append(sibling(rng, base) if base is not None and rng.random() < (0.95 if models else 0.8) else one_object(rng, jax=jax))
    else:
        objects = [base]
    names = [world.point_names(o["cfg"]["specs"], ["rate"] if o["cfg"]["cls"] == "Rate" else []) for o in objects]
    together = world.Points(rng, sorted(set(n for group in names for n in group)))
    same_points = rng.random() < 0.6
    points = [world.Points(rng, n) for n in names]
    ops = []
    n_threads = count if style != "sequential" else 1
    per_thread = rng.randint(3, 8) if models else rng.randint(2, 4) if style != "sequential" else (rng.randint(4, 6) if jax else rng.randint(8, 24))
    if style == "shared":
        ops.append(dict(op="create", thread=0, object=0, before=True))
    for thread in range(n_threads):
        for pos in range(per_thread):
            if style == "separate":
                target = thread
            elif style == "shared":
                target = 0
            else:
                target = rng.randrange(len(objects))
            if same_points:
                full, move = together.next()
                point = {n: full[n] for n in names[target]}
            else:
                point, move = points[target].next()
            kind = objects[target]["kind"]
            if kind == "likelihood":
                point = C03.to_sampled(objects[target]["cfg"], point)
            if kind == "likelihood":
                op = rng.choices(["ratio", "both", "stats", "convert"], [6, 2, 2, 1])[0]
                if op == "convert" and objects[target]["cfg"]["conversion"] != "beta":
                    op = "ratio"
            elif kind == "selection":
                op = rng.choices(["call", "efficiency", "volume"], [5, 2, 1])[0]
            else:
                op = "density"
            entry = dict(op=op, thread=thread, object=target, point=point, move=move, seed=rng.getrandbits(24))
            if style != "shared" and rng.random() < 0.1:
                entry["op"] = rng.choice(["create", "delete"])
            elif rng.random() < 0.1:
                entry["missing"] = rng.choice(sorted(point))
            ops.append(entry)
    out = dict(style=style, jax=jax, objects=objects, ops=ops, schedule=[], opcodes=False, stores=False)
    if n_threads > 1:
        at = rng.choices(["stores", "lines", "opcodes"], [5, 3, 3])[0]
        out.update(opcodes=at == "opcodes", stores=at == "stores")
        mean = rng.choice([3, 12, 20, 40, 100]) * (4 if out["opcodes"] else 1)
        if out["stores"]:
            mean = rng.choice([1, 2, 5, 12])
        out["schedule"] = threads.schedule(rng, rng.choice([20, 60, 150, 400]), mean)
    return out


def one_object(rng, jax=False, shared=False, models=False):
    kind = "model" if models else rng.choices(["likelihood", "selection", "model"], [5, 3, 3])[0]
    if shared:
        cfg = world.likelihood_config(rng, kinds=TABLE_FREE, selection="resampling" if kind == "selection" else None)
        if cfg["wrap"] in ("model-cache", "function"):
            cfg["wrap"] = "model-nocache"
        if cfg["selection"]["kind"] == "grid":
            cfg["selection"] = dict(kind="constant")
        if cfg["selection"].get("form"):
            cfg["selection"]["form"] = "model-nocache"
    elif kind == "selection":
        cfg = world.likelihood_config(rng, jax=jax, max_components=2,
                                      selection=rng.choice(["resampling", "resampling", "grid"]))
    elif models:
        model = rng.choice(STATEFUL)
        cfg = world.likelihood_config(rng, jax=jax, max_components=1, kinds=[model],
                                      groups=[g for g in world.GROUPS if model in world.GROUPS[g]] or ["toy"])
    else:
        cfg = world.likelihood_config(rng, jax=jax, max_components=1 if kind == "model" else 2)
    if kind == "model":
        cfg["specs"] = cfg["specs"][:1]
        cfg["selection"] = dict(kind="none")
        cfg["cls"] = "Hyper"
    if cfg["selection"]["kind"] == "grid" and not world.usable_grid(cfg["selection"], cfg["specs"]):
        cfg["selection"] = dict(kind="resampling", n=60, factor=1, total=False, time=None, seed=rng.getrandbits(32),
                                n_events="match", marginalize=False, enforce=True, share=False,
                                form="model-nocache" if jax or shared else "list")
    if kind != "likelihood":
        cfg["conversion"] = "default"
    cfg["max_uncertainty"] = cfg["max_uncertainty"] if rng.random() < 0.3 else None
    return dict(kind=kind, cfg=cfg)


def sibling(rng, base):
    """An object with the same structure: often the same data, models or shapes."""
    new = json.loads(json.dumps(base))
    cfg = new["cfg"]
    if rng.random() < 0.6:
        cfg["data_seed"] = rng.getrandbits(32)
    if "seed" in cfg["selection"] and rng.random() < 0.6:
        cfg["selection"]["seed"] = rng.getrandbits(32)
    if rng.random() < 0.4:
        for spec in cfg["specs"]:
            fresh = world.component(rng, spec["kind"], small=cfg["jax"], cosmo=spec["cfg"].get("cosmo_model"))
            if set(fresh["params"]) == set(spec["params"]) and fresh["cols"] == spec["cols"]:
                spec.update(fresh)
    if rng.random() < 0.3 and cfg["cls"] != "Rate":
        cfg["cls"] = rng.choice(["Hyper", "Null"])
    if rng.random() < 0.3 and not cfg["jax"]:
        cfg["n_samples"] = rng.randint(2, 40)
    if new["kind"] == "likelihood" and cfg["selection"]["kind"] in ("resampling", "grid") and rng.random() < 0.3:
        new["kind"] = "selection"
        cfg["conversion"] = "default"
    return new


class Object:
    """One object of the package with its reference."""

    def __init__(self, spec, inputs):
        self.kind, self.cfg = spec["kind"], spec["cfg"]
        self.jax = self.cfg["jax"]
        cfg = self.cfg
        if self.kind == "likelihood":
            # objects made of the same samples get the same data frames
            key = json.dumps([cfg[k] for k in ("specs", "n_events", "n_samples", "unequal", "prior", "data_seed")])
            if key not in inputs:
                inputs[key] = world.posteriors(cfg)
            built = world.Built(cfg, inputs[key])
            self.target = built.like
            self.frames = built.frames
            self.reference = world.RefLikelihood(cfg, built.like.data, built.like.sampling_prior)
        elif self.kind == "selection":
            self.target, _ = world.build_selection(cfg["selection"], cfg["specs"], cfg["n_events"], self.jax)
            self.reference = world.RefLikelihood(cfg, {}, 1.0)
        else:
            spec = cfg["specs"][0]
            self.plain = world.columns(world.np_gen(cfg["data_seed"]), spec["cols"], (cfg["n_samples"],))
            self.data = world.as_backend(self.plain, self.jax)
            self.target = world.build(spec)

    def point(self, op):
        point = dict(op["point"])
        missing = op.get("missing")
        if missing is not None:
            del point[missing]
        return {**world.fixed_values(self.cfg["specs"]), **point}

    def run(self, op):
        point = world.arrange(self.point(op), op["seed"], "plain")
        if self.kind == "likelihood":
            if op["op"] == "ratio":
                return self.target.log_likelihood_ratio(point)
            if op["op"] == "both":
                return self.target.ln_likelihood_and_variance(point)
            if op["op"] == "convert":
                return self.target.conversion_function(point)
            return self.target.generate_extra_statistics(point)
        if self.kind == "selection":
            if self.cfg["selection"]["kind"] == "grid" or op["op"] == "call":
                return self.target(point)
            if op["op"] == "efficiency":
                return self.target.detection_efficiency(point)
            return self.target.surveyed_hypervolume(point)
        return self.target(self.data, **point)

    def verify_construction(self, rec):
        if self.kind != "likelihood":
            return
        columns = self.reference.data
        for event, frame in enumerate(self.frames):
            for key, value in columns.items():
                rec.check(set(value[event]) <= set(np.asarray(frame[key])), "foreign-samples",
                          lambda: f"event {event}: {key} has values that its posterior does not have")

    def verify(self, rec, op, result):
        cfg, jax = self.cfg, self.jax
        rtol, _ = world.tolerances(jax)
        if op["op"] == "convert":
            # what was returned still belongs to the caller, whatever was converted since
            given = self.point(op)
            expected = self.reference.convert(given)
            converted, added = result
            rec.check(set(converted) == set(expected) and set(added) == set(expected) - set(given), "converted-names",
                      lambda: f"{sorted(converted)}, added {added}, of {sorted(given)}")
            for key, value in expected.items():
                got = converted[key]
                rec.check(got == value or oracle.same(oracle.number(got), value, 1e-9 * abs(value)), "converted",
                          lambda: f"{key}: {got} instead of {value}")
        elif self.kind == "likelihood":
            terms = self.reference.terms(op["point"])
            if op["op"] == "ratio":
                oracle.ratio(rec, result, terms, jax)
            elif op["op"] == "both":
                oracle.ln_l_and_variance(rec, result, cfg, terms, jax)
            else:
                given = world.arrange(self.point(op), op["seed"], "plain")
                oracle.statistics(rec, result, given, cfg, terms, jax)
        elif self.kind == "selection":
            expected, expected_var, ambiguous = self.reference.selection(op["point"])
            if cfg["selection"]["kind"] == "grid":
                got = oracle.number(result)
                rec.check(got is not None and oracle.same(got, expected, rtol * abs(expected)), "grid-integral",
                          lambda: f"got {got}, expected {expected}")
                return
            mu, var = self.reference.efficiency(op["point"])
            weights = self.reference.injection_weights(op["point"])
            total = self.reference.total_injections()
            with np.errstate(all="ignore"):
                var_scale = float(np.sum(weights**2) / total**2 + mu**2 / total)
            if op["op"] == "efficiency":
                C05.check_pair(rec, result, mu, var, var_scale, rtol, "efficiency")
            elif op["op"] == "volume":
                volume = self.reference.hypervolume(op["point"])
                got = oracle.number(result)
                rec.check(got is not None and oracle.same(got, volume, 10 * rtol * volume), "hypervolume",
                          lambda: f"got {got}, expected {volume}")
            elif not ambiguous and not C05.tiny(mu, var, var_scale):
                settings = self.reference.settings
                if settings["marginalize"]:
                    got = oracle.number(result)
                    scale = rtol * abs(np.nan_to_num(expected, posinf=0)) * (
                        1 + C05.amplification(settings, mu, var_scale))
                    rec.check(got is not None and oracle.same(got, expected, scale), "marginalised",
                              lambda: f"got {got}, expected {expected}")
                else:
                    C05.check_pair(rec, result, expected, expected_var, var_scale, rtol, "selection")
        else:
            spec = cfg["specs"][0]
            expected = np.broadcast_to(world.ref_density(spec, self.plain, op["point"]),
                                       np.shape(self.plain[spec["cols"][0]]))
            with np.errstate(all="ignore"):
                scale = rtol * (np.abs(expected) + np.max(np.abs(expected)) * 1e-6)
            rec.check(oracle.same(np.asarray(result), expected, scale), "density",
                      lambda: f"{spec['kind']}: got {np.asarray(result).ravel()[:4]}, expected {expected.ravel()[:4]}")


def execute(scn, rec):
    import gwpopulation

    jax = scn["jax"]
    gwpopulation.set_backend("jax" if jax else "numpy")
    np.random.seed(12345)
    faults.forget()
    userfuncs.UserSmoothed(mmin=2, mmax=100, normalization_shape=(10, 5), cache=False)
    objects = [None] * len(scn["objects"])
    outcomes, inputs = {}, {}
    if scn["style"] == "shared":
        objects[0] = Object(scn["objects"][0], inputs)
        objects[0].verify_construction(rec)

    def perform(index, op):
        number = op["object"]
        if op.get("before"):
            return
        if op["op"] == "delete":
            objects[number] = None
            gc.collect()
            outcomes[index] = ("deleted", None, None)
            return
        if objects[number] is None or op["op"] == "create":
            objects[number] = Object(scn["objects"][number], inputs)
            outcomes[("create", index)] = ("created", objects[number], None)
        if op["op"] == "create":
            return
        target = objects[number]
        try:
            outcomes[index] = ("value", target, target.run(op))
        except Exception as exc:
            outcomes[index] = ("raised", target, exc)

    numbers = sorted(set(op["thread"] for op in scn["ops"]))
    if len(numbers) > 1:
        def task(thread):
            def body():
                for index, op in enumerate(scn["ops"]):
                    if op["thread"] == thread:
                        perform(index, op)
            return body

        collecting = gc.isenabled()
        gc.disable()
        try:
            sim = threads.Scheduler([task(t) for t in numbers], scn["schedule"], scn["opcodes"],
                                    stores=scn["stores"]).run()
        finally:
            if collecting:
                gc.enable()
        for error in sim.errors:
            if error is not None:
                raise error
        if sim.stalls:
            rec.probe("stalled")
        else:
            for event, source, target, name, function, line in sim.trace:
                rec.log("switch", event, source, target, name, function)
        rec.fault("preemption", len(sim.trace))
        for event, source, target, name, function, line in sim.trace:
            rec.state(name, function, line, kind_of(scn, numbers[source]), kind_of(scn, numbers[target]))
    else:
        for index, op in enumerate(scn["ops"]):
            perform(index, op)
    previous = None
    for index, op in enumerate(scn["ops"]):
        rec.step(op["op"], op["thread"], op["object"], sorted(op.get("point", {}).items()), op.get("missing"))
        created = outcomes.get(("create", index))
        if created is not None:
            created[1].verify_construction(rec)
        if index not in outcomes:
            continue
        status, target, result = outcomes[index]
        if scn["style"] == "sequential":
            rec.state(scn["objects"][op["object"]]["kind"], op["op"], op.get("missing") is None, previous, jax)
            previous = (scn["objects"][op["object"]]["kind"], op["op"], op["object"])
        if status == "deleted":
            rec.fault("deletion")
            continue
        if op.get("missing") is not None:
            if status == "raised":
                rec.fault("missing-parameter")
                rec.log(type(result).__name__)
            continue
        if status == "raised":
            raise result
        target.verify(rec, op, result)
        if target.kind == "likelihood" and op["op"] == "ratio":
            rec.log(repr(float(result)))


def kind_of(scn, thread):
    for op in scn["ops"]:
        if op["thread"] == thread:
            return scn["objects"][op["object"]]["kind"]
    return None


def simplify(scn):
    switches = scn["schedule"]
    chunk = max(1, len(switches) // 2)
    while switches and chunk >= 1:
        for pos in range(0, len(switches), chunk):
            # the gap of what is removed goes to the next switch
            gap = sum(s[0] for s in switches[pos:pos + chunk])
            rest = [list(s) for s in switches[pos + chunk:]]
            if rest:
                rest[0][0] += gap
            yield dict(scn, schedule=[list(s) for s in switches[:pos]] + rest)
        if chunk == 1:
            break
        chunk //= 2
    for number, obj in enumerate(scn["objects"]):
        cfg = obj["cfg"]
        smaller = []
        if obj["kind"] == "likelihood" and cfg["selection"]["kind"] != "none":
            smaller.append(dict(cfg, selection=dict(kind="none")))
        if obj["kind"] == "likelihood" and cfg["n_events"] > 1 and not cfg["jax"]:
            smaller.append(dict(cfg, n_events=1))
        for new in smaller:
            changed = [dict(o) for o in scn["objects"]]
            changed[number] = dict(obj, cfg=new)
            yield dict(scn, objects=changed)
