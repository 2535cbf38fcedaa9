"""C07: a failed evaluation leaves no trace."""
import numpy as np

from props import C03, C05
from sim import faults, oracle, world

SPEC = dict(
    rule="a run is non-trivial if at least one evaluation was cut short or made to fail and at least one later result "
         "was compared with the reference; runs are distinct if their scenarios differ",
    state_measure="pairs (function of the package in which the fault fired, exception type, operation, cold or warm tables)",
    real=["gwpopulation.hyperpe", "gwpopulation.vt", "gwpopulation.models", "gwpopulation.conversions",
          "gwpopulation.utils", "bilby.hyper.model.Model", "wcosmo", "cached_interpolate", "numpy/jax"],
    stub=["user callbacks (sim/userfuncs.py)", "failures of array operations and signals (raised by a trace function "
          "at a chosen line or bytecode)"],
    assumptions=["interrupts land inside the package, cached_interpolate or user callbacks, not inside bilby's or "
                 "numpy's own bookkeeping"],
    level="fault_enumeration",
    quick=dict(runs=1280), thorough=dict(runs=32000),
)
JAX_EVERY = 11
TABLE_KINDS = ["SinglePeakSmoothedMassDistribution", "MultiPeakSmoothedMassDistribution",
               "BrokenPowerLawPeakSmoothedMassDistribution", "UserSmoothed", "InterpolatedPowerlaw",
               "SplineSpinMagnitudeIdentical", "SplineSpinTiltIdentical", "InterpolatedNoBaseModelIdentical"]


def interrupt(rng):
    return dict(kind="interrupt", frac=rng.random(), exc=rng.choice(sorted(faults.EXCEPTIONS)), opcodes=rng.random() < 0.4)


def generate(rng, tier, idx):
    jax = idx % JAX_EVERY == JAX_EVERY - 1
    which = rng.random()
    if which < (0.35 if not jax else 0.2):
        return generate_model(rng, jax)
    if which > (0.85 if not jax else 0.9):
        return generate_selection(rng, jax)
    groups = None if rng.random() < 0.5 else ["mass", "magnitude", "tilt", "toy"]
    if jax:
        cfg = world.likelihood_config(rng, large=True, jax=True, cosmo="Planck15", max_components=2, groups=groups)
    else:
        cfg = world.likelihood_config(rng, large=True, groups=groups)
    if cfg["selection"]["kind"] == "grid" and not world.usable_grid(cfg["selection"], cfg["specs"]):
        cfg["selection"] = dict(kind="constant")
    if cfg["selection"]["kind"] == "resampling":
        cfg["selection"]["share"] = rng.random() < 0.25
    cfg["np_seed"] = rng.getrandbits(32)
    names = world.point_names(cfg["specs"], ["rate"] if cfg["cls"] == "Rate" else [])
    points = world.Points(rng, names)
    ops = []
    count = rng.randint(3, 5) if jax else rng.randint(4, 20)
    rate = rng.choice([0.2, 0.4, 0.6])
    for pos in range(count):
        point, move = points.next()
        op = dict(op=rng.choices(["ratio", "both", "stats", "ppd", "loglike"], [6, 2, 2, 1 if not jax else 0.2, 1])[0],
                  point=C03.to_sampled(cfg, point), move=move, mode="plain", seed=rng.getrandbits(24), extra=False)
        if op["op"] == "ppd":
            op["points"] = [op["point"]]
        if (pos == 0 and rng.random() < 0.5) or rng.random() < rate:
            kind = rng.choices(["interrupt", "missing", "range", "column", "type"], [8, 1, 1, 1, 1])[0]
            if kind == "interrupt":
                op["fault"] = interrupt(rng)
            elif kind == "column":
                op["fault"] = dict(kind="column", which=rng.getrandbits(16))
            else:
                op["fault"] = dict(kind=kind, param=rng.choice(sorted(op["point"])), seed=rng.getrandbits(16))
        ops.append(op)
        if rng.random() < 0.15:
            ops.append(dict(op="settings", point=op["point"], move=None, mode="plain", seed=1, extra=False,
                            change=rng.choice(["marginalize", "marginalize", "enforce", "maximum"]),
                            maximum=rng.choice([None, None, 0.5, 1.0, 3.0])))
    point, move = points.next()
    ops.append(dict(op="ratio", point=C03.to_sampled(cfg, point), move=move, mode="plain", seed=1, extra=False))
    return dict(kind="likelihood", cfg=cfg, ops=ops)


def generate_selection(rng, jax):
    cfg = world.likelihood_config(rng, large=True, jax=jax, selection="resampling", max_components=2, cosmo="Planck15" if jax else None)
    cfg["conversion"], cfg["selection"]["share"] = "default", False
    if rng.random() < 0.6:
        cfg["selection"]["n_events"] = rng.choice([1, 3, 30])
    points = world.Points(rng, world.point_names(cfg["specs"]))
    ops = []
    rate = rng.choice([0.3, 0.5, 0.7])
    for pos in range(rng.randint(3, 6) if jax else rng.randint(5, 20)):
        point, move = points.next()
        op = dict(op=rng.choices(["call", "efficiency", "volume", "factor"], [6, 2, 1, 1])[0], point=point, move=move,
                  seed=rng.getrandbits(24))
        if rng.random() < rate:
            op["fault"] = dict(interrupt(rng) if rng.random() < 0.8 else dict(kind="missing"), which=rng.getrandbits(16))
        ops.append(op)
        if rng.random() < 0.3:
            ops.append(dict(op="settings", change=rng.choice(["marginalize", "marginalize", "enforce", "n_events"]),
                            value=rng.choice([1, 3, 30, 1000])))
    ops.append(dict(op="call", point=points.history[-1], move="revisit", seed=1))
    return dict(kind="selection", jax=jax, cfg=cfg, ops=ops)


def generate_model(rng, jax):
    spec = world.component(rng, rng.choice(TABLE_KINDS), small=jax)
    points = world.Points(rng, world.point_names([spec]))
    ops = []
    rate = rng.choice([0.3, 0.5, 0.7])
    nodes = spec["cfg"].get("nodes")
    grows = nodes is not None and spec["kind"] != "InterpolatedPowerlaw" and rng.random() < 0.5
    sizes = [rng.randint(2, 30) for _ in range(3)]
    sizes[2] = sizes[0]
    for pos in range(rng.randint(3, 6) if jax else rng.randint(4, 16)):
        point, move = points.next()
        if grows and rng.random() < 0.15 and nodes < 12:
            nodes += rng.randint(1, 2)
        op = dict(op="model", data=rng.randint(0, 2), point=point, move=move, nodes=nodes, seed=rng.getrandbits(24))
        if (pos == 0 and rng.random() < 0.5) or rng.random() < rate:
            kind = rng.choices(["interrupt", "missing", "column", "range"], [8, 1, 1, 2])[0]
            op["fault"] = dict(interrupt(rng) if kind == "interrupt" else dict(kind=kind), which=rng.getrandbits(16))
        ops.append(op)
    ops.append(dict(op="model", data=rng.randint(0, 2), point=points.history[-1], move="revisit", nodes=nodes, seed=1))
    return dict(kind="model", jax=jax, spec=spec, sizes=sizes, data_seed=rng.getrandbits(32), ops=ops)


def attempt(rec, op, call, counts, cold, label):
    """Run call under the operation's fault. Returns (finished, result)."""
    fault = op.get("fault")
    if fault is None:
        return True, call()
    if fault["kind"] == "interrupt":
        total = counts[fault["opcodes"]]
        at = 1 + int(fault["frac"] * total)
        cut = faults.Interrupt(at, fault["exc"], fault["opcodes"])
        try:
            with cut:
                result = call()
        except BaseException as exc:
            if cut.fired is None:
                raise
            rec.fault(f"{fault['exc']}-at-{'bytecode' if fault['opcodes'] else 'line'}")
            rec.log("fired in", cut.fired[1], type(exc).__name__)
            rec.state(cut.fired[:2], fault["exc"], op["op"], cold)
            return False, None
        if cut.fired is not None:
            rec.fault("interrupt-handled")
        else:
            rec.probe("interrupt-missed")
        return True, result
    try:
        result = call()
    except Exception as exc:
        if isinstance(exc, (AssertionError,)):
            raise
        rec.fault(fault["kind"])
        rec.log("raised", type(exc).__name__)
        rec.state(fault["kind"], type(exc).__name__, op["op"], cold)
        return False, None
    if fault["kind"] in ("missing", "column"):
        rec.check(False, f"{fault['kind']}-accepted",
                  f"{label}: a {fault['kind']} of {fault.get('name')} did not raise and gave {result!r}")
    rec.fault(fault["kind"] + "-accepted")
    return False, None  # the value of an ill-posed request is not checked


def execute(scn, rec):
    import gwpopulation

    faults.forget()
    if scn["kind"] == "model":
        return execute_model(scn, rec)
    if scn["kind"] == "selection":
        return execute_selection(scn, rec)
    cfg = scn["cfg"]
    jax = cfg["jax"]
    gwpopulation.set_backend("jax" if jax else "numpy")
    np.random.seed(cfg["np_seed"])
    built = world.Built(cfg)
    like = built.like
    reference = world.RefLikelihood(cfg, like.data, like.sampling_prior)
    snapshot = {k: np.array(v) for k, v in reference.data.items()}
    noise = sum(0.5 * i - 3.25 for i in range(cfg["n_events"])) if cfg["ln_evidences"] else np.nan
    np.random.seed(cfg["np_seed"])
    twin = None
    counts = {}
    cold = True

    def run(like, op, point):
        if op["op"] == "ratio":
            return like.log_likelihood_ratio(point)
        if op["op"] == "loglike":
            return like.log_likelihood(point)
        if op["op"] == "both":
            return like.ln_likelihood_and_variance(point)
        if op["op"] == "stats":
            return like.generate_extra_statistics(dict(point))
        np.random.seed(op["seed"])
        return like.posterior_predictive_resample([dict(point)], return_weights=True)

    caller = world.Caller()
    for op in scn["ops"]:
        kind = op["op"]
        rec.step(kind, sorted(op["point"].items()), op.get("fault"))
        if kind == "settings":
            change_settings(cfg, like, reference, op)
            continue
        terms = reference.terms(op["point"])
        if kind == "ppd" and not np.all(np.isfinite(oracle.resample_weights(reference, [op["point"]]))):
            continue
        point = caller.give(C03.arranged(cfg, op), op["seed"] % 3 == 0)
        fault = op.get("fault")
        removed = None
        if fault is not None:
            if fault["kind"] == "interrupt":
                key = (kind, cold, fault["opcodes"])
                if key not in counts:
                    if twin is None or cold:
                        twin = world.Built(cfg).like
                    counts[key] = faults.count_events(lambda: run(twin, op, dict(point)), fault["opcodes"])
                totals = {fault["opcodes"]: counts[key]}
            else:
                totals = {}
            if fault["kind"] == "missing":
                fault["name"] = fault["param"]
                if cfg["conversion"] == "beta" and fault["param"] not in point:
                    continue
                if kind == "ppd" and fault["param"] == "rate":
                    continue  # resampling has no use for the rate
                del point[fault["param"]]
            elif fault["kind"] == "range":
                choice = fault["seed"] % 4
                point[fault["param"]] = [float("nan"), -abs(float(point[fault["param"]])) - 500.0, 1e305, float("inf")][choice]
            elif fault["kind"] == "type":
                if cfg["wrap"] in ("model-cache", "function") or cfg["selection"].get("form") in ("list", "model-cache"):
                    point[fault["param"]] = "three"
                else:
                    point[fault["param"]] = ["three", None, np.zeros((7, 11))][fault["seed"] % 3]
            elif fault["kind"] == "column":
                names = sorted(snapshot)
                fault["name"] = names[fault["which"] % len(names)]
                removed = (fault["name"], like.data.pop(fault["name"]))
                if cfg["wrap"] in ("model-cache", "function"):
                    # a cached probability may be returned without looking at the data
                    like.data[removed[0]] = removed[1]
                    continue
        else:
            totals = {}
        try:
            finished, result = attempt(rec, op, lambda: run(like, op, point), totals, cold, kind)
        finally:
            if removed is not None:
                like.data[removed[0]] = removed[1]
        if not finished:
            continue
        if fault is None:
            cold = False
        if kind == "ratio":
            rec.log(repr(float(result)))
            oracle.ratio(rec, result, terms, jax)
        elif kind == "loglike":
            value = oracle.number(result)
            if cfg["ln_evidences"] and (terms["ratio"] > -1e300 or terms["ambiguous"]):
                oracle.ratio(rec, value - noise, terms, jax, what="log_likelihood")
        elif kind == "both":
            oracle.ln_l_and_variance(rec, result, cfg, terms, jax)
        elif kind == "stats":
            oracle.statistics(rec, result, point, cfg, terms, jax)
        else:
            weights = oracle.resample_weights(reference, [op["point"]])
            rec.check(oracle.same(result[1], weights, 10 * world.tolerances(jax)[0]), "ppd-weights",
                      lambda: f"largest difference {np.max(np.abs(np.asarray(result[1]) - weights))}")
            oracle.rows_of(rec, result[0], snapshot, weights, what="ppd")
    for key, value in snapshot.items():
        rec.check(np.array_equal(np.asarray(like.data[key]), value), "data-changed", key)


def change_settings(cfg, like, reference, op):
    """The caller changes one public setting; the others stay as they are."""
    if op["change"] != "maximum" and cfg["selection"]["kind"] == "resampling":
        vt = like.selection_function
        new = reference.settings[op["change"]] = not reference.settings[op["change"]]
        setattr(vt, dict(marginalize="marginalize_uncertainty", enforce="enforce_convergence")[op["change"]], new)
    else:
        maximum = np.inf if op["maximum"] is None else op["maximum"]
        like.maximum_uncertainty = reference.max_uncertainty = maximum


def node_point(spec, op):
    """Fixed node positions and values for the number of nodes of an operation."""
    if op["nodes"] is None or spec["kind"] == "InterpolatedPowerlaw":
        return {**spec["fixed"], **op["point"]}
    cfg, n = spec["cfg"], op["nodes"]
    point = {**world.node_positions(cfg, n), **op["point"]}
    gen = world.np_gen(n * 7919 + len(cfg["base"]))
    for i in range(n):
        point.setdefault(f"f{cfg['base']}{i}", float(gen.normal()))
    return point


def execute_selection(scn, rec):
    import gwpopulation

    cfg, jax = scn["cfg"], scn["jax"]
    gwpopulation.set_backend("jax" if jax else "numpy")
    vt, _ = world.build_selection(cfg["selection"], cfg["specs"], cfg["n_events"], jax)
    twin = None
    reference = world.RefLikelihood(cfg, {}, 1.0)
    rtol, _ = world.tolerances(jax)
    fixed = world.fixed_values(cfg["specs"])

    def run(vt, op, point):
        return dict(call=vt, efficiency=vt.detection_efficiency, volume=vt.surveyed_hypervolume,
                    factor=vt.vt_factor)[op["op"]](point)

    for op in scn["ops"]:
        kind = op["op"]
        rec.step("selection", kind, sorted(op.get("point", {}).items()), op.get("fault"), op.get("change"))
        if kind == "settings":
            name = op["change"]
            new = op["value"] if name == "n_events" else not reference.settings[name]
            reference.settings[name] = new
            setattr(vt, dict(marginalize="marginalize_uncertainty", enforce="enforce_convergence").get(name, name), new)
            continue
        point = world.arrange({**fixed, **op["point"]}, op["seed"], "plain", jax=jax)
        fault, totals = op.get("fault"), {}
        if fault is not None and fault["kind"] == "interrupt":
            if twin is None:
                twin, _ = world.build_selection(cfg["selection"], cfg["specs"], cfg["n_events"], jax)
            for name, attribute in (("marginalize", "marginalize_uncertainty"), ("enforce", "enforce_convergence")):
                setattr(twin, attribute, reference.settings[name])
            totals = {fault["opcodes"]: faults.count_events(lambda: run(twin, op, dict(point)), fault["opcodes"])}
        elif fault is not None:
            names = sorted(set(op["point"]) - {"delta_m"})
            redshift = world.point_names([s for s in cfg["specs"] if s["kind"] in world.GROUPS["redshift"]])
            if kind == "volume":
                # the volume depends on the parameters of the redshift model only
                names = [n for n in names if n in redshift]
            if not names:
                continue
            fault["name"] = names[fault["which"] % len(names)]
            del point[fault["name"]]
        finished, result = attempt(rec, op, lambda: run(vt, op, point), totals, False, f"selection-{kind}")
        if finished:
            C05.verify(rec, reference, op, result, rtol)


def execute_model(scn, rec):
    import gwpopulation

    jax, spec = scn["jax"], scn["spec"]
    gwpopulation.set_backend("jax" if jax else "numpy")
    gen = world.np_gen(scn["data_seed"])
    plain = [world.columns(gen, spec["cols"], (n,) if i < 2 else (n, )) for i, n in enumerate(scn["sizes"])]
    data = [world.as_backend(d, jax) for d in plain]
    model = world.build(spec)
    rtol, _ = world.tolerances(jax)
    cold = True
    counts = {}
    for op in scn["ops"]:
        rec.step("model", op["data"], op["nodes"], sorted(op["point"].items()), op.get("fault"))
        point = node_point(spec, op)
        given, dataset = dict(point), dict(data[op["data"]])
        fault = op.get("fault")
        totals = {}
        if fault is not None:
            if fault["kind"] == "interrupt":
                key = (cold, fault["opcodes"], op["nodes"])
                if key not in counts:
                    twin = world.build(spec)
                    if not cold:
                        twin(dict(data[(op["data"] + 1) % 3]), **point)
                    counts[key] = faults.count_events(lambda: twin(dict(dataset), **dict(point)), fault["opcodes"])
                totals = {fault["opcodes"]: counts[key]}
            elif fault["kind"] == "missing":
                names = sorted(set(op["point"]) - {"delta_m"})
                fault["name"] = names[fault["which"] % len(names)]
                if fault["name"].startswith("f") and not fault["name"].startswith("fmass"):
                    fault["kind"] = "missing-node"
                del given[fault["name"]]
            elif fault["kind"] == "range":
                # the edges of the mass models' own range first: they are refused
                names = [n for n in ("mmin", "mmax") if n in op["point"]] or sorted(op["point"])
                fault["name"] = names[fault["which"] % len(names)]
                given[fault["name"]] = [-3.0, 1e4, float("nan"), float("inf")][fault["which"] // 7 % 4]
            else:
                fault["name"] = spec["cols"][fault["which"] % len(spec["cols"])]
                del dataset[fault["name"]]
        finished, result = attempt(rec, op, lambda: model(dataset, **given), totals, cold, spec["kind"])
        if not finished:
            continue
        cold = False
        expected = world.ref_density(spec, plain[op["data"]], point, op["nodes"])
        expected = np.broadcast_to(expected, np.shape(plain[op["data"]][spec["cols"][0]]))
        with np.errstate(all="ignore"):
            scale = rtol * (np.abs(expected) + np.max(np.abs(expected)) * 1e-6)
        rec.check(oracle.same(np.asarray(result), expected, scale), "density",
                  lambda: f"{spec['kind']}: got {np.asarray(result).ravel()[:4]}, expected {expected.ravel()[:4]}")


def simplify(scn):
    if scn["kind"] == "likelihood":
        yield from C03.simplify(scn)
