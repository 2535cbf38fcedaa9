"""C15: inputs handed to the package stay as the caller left them."""
import random

import numpy as np

from props import C03, C06, C07
from sim import faults, snapshot, userfuncs, world

SPEC = dict(
    rule="a run is non-trivial if it makes at least two calls that share inputs and compares all inputs after each; "
         "runs are distinct if their scenarios differ",
    state_measure="tuples (entry point, model or function, container and array kind of the inputs, outcome)",
    real=["all of gwpopulation", "bilby.hyper.model.Model", "wcosmo", "cached_interpolate", "numpy/jax", "numpyro"],
    stub=["user population functions, selection and conversion callbacks (sim/userfuncs.py)"],
    assumptions=["tables a bilby Model or a model of the package keeps for itself are not inputs"],
    level="fault_enumeration",
    quick=dict(runs=640), thorough=dict(runs=40000),
)
JAX_EVERY = 11
HELPERS = {
    "beta_dist": ["unit", "shape", "shape", "one"],
    "powerlaw": ["mass", "slope", "high", "low"],
    "truncnorm": ["mass", "mass", "width", "high", "low"],
    "unnormalized_2d_gaussian": ["unit", "unit", "unit", "unit", "width", "width", "corr"],
    "von_mises": ["unit", "unit", "width"],
    "trapezoid": ["unit", "grid"],
    "to_numpy": ["unit"],
    "alpha_beta_max_to_mu_var_max": ["shape", "shape", "one"],
    "mu_var_max_to_alpha_beta_max": ["mean", "variance", "one"],
    "convert_to_beta_parameters": ["dict"],
    "total_four_volume": ["slope0", "one0"],
}


def interrupt(rng):
    return dict(kind="interrupt", at=rng.randint(1, 160), exc=rng.choice(sorted(faults.EXCEPTIONS)), opcodes=False)


def generate(rng, tier, idx):
    jax = idx % JAX_EVERY == JAX_EVERY - 1
    kind = rng.choices(["likelihood", "callbacks", "models", "helpers", "cosmo"], [4, 3, 3, 3, 2])[0]
    if jax:
        kind = rng.choice(["likelihood", "numpyro", "models", "cosmo"])
    scn = dict(kind=kind, jax=jax, frozen=rng.random() < 0.35, seed=rng.getrandbits(32))
    ops = []
    if kind in ("likelihood", "numpyro"):
        if jax:
            cfg = world.likelihood_config(rng, jax=True, cosmo="Planck15", max_components=1,
                                          selection="resampling" if kind == "numpyro" else None,
                                          cls="Hyper" if kind == "numpyro" else None)
        else:
            cfg = world.likelihood_config(rng)
        if cfg["selection"]["kind"] == "grid" and not world.usable_grid(cfg["selection"], cfg["specs"]):
            cfg["selection"] = dict(kind="constant")
        scn["cfg"] = cfg
        names = world.point_names(cfg["specs"], ["rate"] if cfg["cls"] == "Rate" else [])
        points = world.Points(rng, names)
        for _ in range(3 if jax else rng.randint(3, 12)):
            point, move = points.next()
            op = dict(op=rng.choice(["ratio", "ratio", "both", "stats", "loglike", "selection", "ppd", "rate",
                                     "construct", "volume", "meta"]),
                      point=C03.to_sampled(cfg, point), seed=rng.getrandbits(24), extra=rng.random() < 0.3,
                      mode=rng.choice(["plain", "array", "mixed", "array"]) if not jax else "plain",
                      form=rng.choice(["list", "frame", "dict"]))
            if kind == "numpyro":
                op["op"] = rng.choice(["numpyro", "ratio", "stats"])
            if rng.random() < 0.3:
                op["fault"] = rng.choice([dict(kind="missing", which=rng.getrandbits(16)), interrupt(rng)])
            ops.append(op)
    elif kind == "callbacks":
        scn.update(events=rng.randint(1, 4), samples=rng.randint(1, 6), cls=rng.choice(["Hyper", "Hyper", "Rate", "Null"]),
                   selection=rng.choice(["array", "array", "array-value", "float"]),
                   conversion=rng.choice(["shared", "identity", "none", "inplace", "inplace"]), prior=rng.random() < 0.6,
                   wrap=rng.choice(["custom", "model", "model-nocache"]), limit=rng.choice([None, 0.5, 2]))
        for _ in range(rng.randint(3, 12)):
            op = dict(op=rng.choice(["ratio", "both", "stats", "loglike", "ppd", "rate", "construct"]), case=rng.randrange(3),
                      seed=rng.getrandbits(24), form=rng.choice(["list", "frame", "dict"]))
            if rng.random() < 0.25:
                op["fault"] = interrupt(rng)
            ops.append(op)
    elif kind == "models":
        kinds = [k for g in ("mass", "magnitude", "tilt", "chi", "redshift") for k in world.GROUPS[g]]
        kinds += list(world.MASS_FUNCTIONS) + ["InterpolatedNoBaseModelIdentical"] + ["MemoSmoothed"] * 4
        specs = []
        for _ in range(1 if jax else rng.randint(1, 3)):
            k = rng.choice(kinds)
            if k in world.MASS_FUNCTIONS:
                specs.append(dict(kind=k, cfg={}, params=list(world.MASS_FUNCTIONS[k]), fixed={}, cols=["mass_1"]))
            elif k == "MemoSmoothed":
                specs.append(dict(world.component(rng, "UserSmoothed", small=jax), kind=k))
            else:
                specs.append(world.component(rng, k, small=jax, cosmo="Planck15" if jax else None))
        scn.update(specs=specs, shape=rng.choice([[1], [7], [3, 5]]), wide=rng.random() < 0.5)
        points = [world.Points(rng, s["params"]) for s in specs]
        for _ in range(3 if jax else rng.randint(3, 12)):
            which = rng.randrange(len(specs))
            point, _ = points[which].next()
            op = dict(op="call", which=which, point=point, seed=rng.getrandbits(24), vt=rng.random() < 0.2 and not jax,
                      mode=rng.choice(["plain", "array", "mixed", "array", "vector"]) if not jax else "plain")
            if rng.random() < 0.3:
                op["fault"] = rng.choice([dict(kind="missing", which=rng.getrandbits(16)), interrupt(rng)])
            ops.append(op)
    elif kind == "helpers":
        for _ in range(rng.randint(2, 8)):
            name = rng.choice(sorted(HELPERS))
            ops.append(dict(op="helper", name=name, seed=rng.getrandbits(32), remove=rng.random() < 0.5,
                            arrays=rng.choice(["all", "some", "first"]), n=rng.choice([1, 4, 9])))
    else:
        cosmo = rng.choice(C06.COSMOLOGIES)
        specs = [world.component(rng, rng.choice(["SinglePeakSmoothedMassDistribution", "power_law_primary_mass_ratio"]),
                                 small=jax)]
        if rng.random() < 0.5:
            specs.append(world.component(rng, rng.choice(world.GROUPS["redshift"]), cosmo=cosmo))
        cols = ["mass_1_detector", "mass_ratio"] + rng.choice(
            [["luminosity_distance"], ["luminosity_distance"], ["redshift"], ["redshift", "luminosity_distance"]])
        rng.shuffle(cols)
        scn.update(cosmo=cosmo, specs=specs, cols=cols, shape=rng.choice([[6], [2, 5]]))
        points = world.Points(rng, world.point_names(specs, world.cosmo_names(cosmo)))
        for _ in range(2 if jax else rng.randint(2, 8)):
            point, _ = points.next()
            op = dict(op=rng.choice(["prob", "convert", "vt"]), point=point, seed=rng.getrandbits(24),
                      mode=rng.choice(["plain", "array", "mixed"]) if not jax else "plain")
            if rng.random() < 0.3:
                op["fault"] = rng.choice([dict(kind="missing", which=rng.getrandbits(16)), interrupt(rng)])
            ops.append(op)
    scn["ops"] = ops
    return scn


def freeze(data):
    for value in data.values():
        if isinstance(value, np.ndarray):
            value.setflags(write=False)
    return data


def perform(rec, watch, doing, call, fault=None, repeat=True, rtol=1e-9):
    """Run a call (under a fault), check all inputs, run it again and compare."""
    label = doing
    try:
        if fault is not None and fault["kind"] == "interrupt":
            with faults.Interrupt(fault["at"], fault["exc"]) as cut:
                first = call()
        else:
            cut = None
            first = call()
    except BaseException as exc:
        injected = isinstance(exc, faults.Injected)
        expected = fault is not None and (injected or fault["kind"] == "missing")
        if not expected and fault is not None and cut is not None and cut.fired:
            expected = True
        rec.log(label, "raised", type(exc).__name__)
        if "read-only" in str(exc):
            rec.check(False, "input-written", lambda: f"{label} tried to write to a read-only input: {exc}")
        watch.check(rec, f"failed {label}")
        if not expected:
            raise
        rec.fault(fault["kind"])
        if fault["kind"] == "missing":
            return "failed"
        first = None
    watch.check(rec, label)
    if not repeat:
        return "done"
    second = call()
    watch.check(rec, f"repeated {label}")
    if first is not None:
        a, b = first, snapshot.results(second)
        a = snapshot.results(a)
        rec.check(snapshot.equal(a, b, rtol), "repeat-differs",
                  lambda: f"{label}: first {[x.ravel()[:3].tolist() for x in a[:3]]}, "
                          f"then {[x.ravel()[:3].tolist() for x in b[:3]]}")
    return "done" if first is not None else "retried"


def execute(scn, rec):
    import gwpopulation

    gwpopulation.set_backend("jax" if scn["jax"] else "numpy")
    np.random.seed(scn["seed"])
    globals()["run_" + scn["kind"]](scn, rec)


def drop_one(point, fault):
    if fault is not None and fault["kind"] == "missing" and point:
        names = sorted(point)
        del point[names[fault["which"] % len(names)]]
    return point


def run_likelihood(scn, rec):
    import pandas as pd
    from gwpopulation import hyperpe
    from gwpopulation.conversions import convert_to_beta_parameters

    cfg, jax = scn["cfg"], scn["jax"]
    watch = snapshot.Watch()
    frames = watch.add("posteriors", world.posteriors(cfg))
    models = [world.build(s) for s in cfg["specs"]]
    prior = world.wrap_models(watch.add("models", models), cfg["wrap"])
    kwargs = {}
    sel = cfg["selection"]
    if cfg["conversion"] == "beta":
        kwargs["conversion_function"] = convert_to_beta_parameters
    elif cfg["conversion"] == "scaled":
        kwargs["conversion_function"] = userfuncs.scaled_conversion
    if cfg["ln_evidences"]:
        kwargs["ln_evidences"] = watch.add(
            "ln_evidences", np.array([0.5 * i - 3.25 for i in range(cfg["n_events"])]) if scn["seed"] % 2 else
            [0.5 * i - 3.25 for i in range(cfg["n_events"])])
    if cfg["max_uncertainty"] is not None:
        kwargs["maximum_uncertainty"] = cfg["max_uncertainty"]
    selection_models = watch.add("selection models", [world.build(s) for s in cfg["specs"]])
    selection, data = None, None
    if sel["kind"] in ("grid", "resampling"):
        if sel["kind"] == "grid":
            data = world.grid_data(sel)[1]
        else:
            data = world.injection_data(sel, cfg["specs"])
        data = {k: (world.as_backend({k: v}, jax)[k] if np.ndim(v) else v) for k, v in data.items()}
        if scn["frozen"]:
            freeze(data)
        watch.add("selection data", data)
        selection = build_vt(sel, selection_models, data, cfg["n_events"])
    else:
        selection, _ = world.build_selection(sel, cfg["specs"], cfg["n_events"], jax)
    watch.check(rec, "construction of the selection function")
    if selection is not None:
        kwargs["selection_function"] = selection
        watch.add("selection function", selection)
    cls = dict(Hyper=hyperpe.HyperparameterLikelihood, Rate=hyperpe.RateLikelihood,
               Null=hyperpe.NullHyperparameterLikelihood)[cfg["cls"]]
    watch.add("keyword arguments", kwargs)
    like = cls(frames, prior, **kwargs)
    watch.check(rec, "construction of the likelihood")
    if scn["seed"] % 3 == 0:
        # a construction that fails: one of the posteriors lacks a column
        names = sorted(frames[0])
        name = "prior" if "prior" in names and scn["seed"] % 2 else names[scn["seed"] // 7 % len(names)]
        lacking = [f.copy() for f in frames]
        which = 1 + scn["seed"] // 5 % (len(frames) - 1) if len(frames) > 1 else 0
        del lacking[which][name]
        watch.add("incomplete posteriors", lacking)
        rec.step("incomplete", which, name)
        try:
            cls(lacking, prior, **{k: v for k, v in kwargs.items() if k != "selection_function"})
        except Exception:
            rec.fault("missing-column")
        watch.check(rec, "construction from incomplete posteriors")
    for op in scn["ops"]:
        fault = op.get("fault")
        rec.step(op["op"], sorted(op["point"].items()), fault)
        point = drop_one(C03.arranged(cfg, op), fault)
        if scn["frozen"]:
            freeze(point)
        watch.add("parameters", point)
        kind = op["op"]
        repeat = True
        if kind == "ratio":
            call = lambda: like.log_likelihood_ratio(point)  # noqa: E731
        elif kind == "loglike":
            call = lambda: like.log_likelihood(point)  # noqa: E731
        elif kind == "both":
            call = lambda: like.ln_likelihood_and_variance(point)  # noqa: E731
        elif kind == "stats":
            call = lambda: statistics(rec, like, point)  # noqa: E731
        elif kind == "numpyro":
            call = lambda: numpyro_trace(like, point)  # noqa: E731
        elif kind == "meta":
            if not hasattr(like.hyper_prior, "models"):
                continue
            call = lambda: like.meta_data  # noqa: E731
        elif kind == "selection":
            if selection is None:
                continue
            inner = point if cfg["conversion"] == "default" else dict(kwargs["conversion_function"](dict(point))[0])
            watch.add("parameters", inner)
            call = lambda: selection(inner)  # noqa: E731
        elif kind == "volume":
            if sel["kind"] != "resampling":
                continue
            inner = point if cfg["conversion"] == "default" else dict(kwargs["conversion_function"](dict(point))[0])
            watch.add("parameters", inner)
            call = lambda: (selection.detection_efficiency(inner), selection.surveyed_hypervolume(inner),  # noqa: E731
                            selection.vt_factor(inner))
        elif kind == "rate":
            inner = point if cfg["conversion"] == "default" else dict(kwargs["conversion_function"](dict(point))[0])
            watch.add("parameters", inner)

            def call():
                np.random.seed(op["seed"])
                return like.generate_rate_posterior_sample(inner)
        elif kind == "ppd":
            point = drop_one(C03.arranged(cfg, dict(op, mode="plain")), fault)
            watch.drop("parameters")
            reference = world.RefLikelihood(cfg, like.data, like.sampling_prior)
            with np.errstate(all="ignore"):
                weights = reference.weights(op["point"])
            if not np.all(np.sum(weights, axis=-1) > 0) or not np.all(np.isfinite(weights)):
                continue
            given = dict(list=[point, dict(point)], dict=point, frame=pd.DataFrame([point, point]))[op["form"]]
            watch.add("samples", given)

            def call():
                np.random.seed(op["seed"])
                return like.posterior_predictive_resample(given, return_weights=True)
        else:
            def call():
                np.random.seed(op["seed"])
                other = build_vt(sel, selection_models, data, cfg["n_events"]) if data is not None else selection
                more = {k: v for k, v in kwargs.items() if k != "selection_function"}
                if other is not None:
                    more["selection_function"] = other
                new = cls(frames, prior, **more)
                return [np.asarray(v) for v in new.data.values()], new.sampling_prior
            if fault is not None and fault["kind"] == "missing":
                fault = None
        outcome = perform(rec, watch, kind, call, fault, repeat, rtol=1e-6 if jax else 1e-9)
        rec.state("likelihood", kind, tuple(s["kind"] for s in cfg["specs"]), op["mode"], scn["frozen"], jax, outcome)
        watch.drop("parameters")
        watch.drop("samples")


run_numpyro = run_likelihood


def numpyro_trace(like, point):
    import jax
    from gwpopulation.experimental.numpyro import gwpopulation_likelihood_model
    from numpyro import handlers

    with handlers.seed(rng_seed=jax.random.PRNGKey(3)):
        trace = handlers.trace(
            lambda: gwpopulation_likelihood_model(like, point, predictive_resample=False)).get_trace()
    return {k: v["value"] for k, v in trace.items()}


def statistics(rec, like, point):
    """The sample gets the documented statistics and keeps everything else."""
    sample = dict(point)
    result = like.generate_extra_statistics(sample)
    n = like.n_posteriors
    documented = {f"ln_bf_{i}" for i in range(n)} | {f"var_{i}" for i in range(n)} | {
        "selection", "selection_variance", "variance"}
    rec.check(all(key in sample and sample[key] is point[key] for key in point), "sample-changed",
              lambda: f"{point} became {sample}")
    rec.check(set(sample) <= set(point) | documented, "sample-changed",
              lambda: f"undocumented entries {sorted(set(sample) - set(point) - documented)}")
    return result


def build_vt(sel, models, data, n_events):
    from gwpopulation.vt import GridVT, ResamplingVT

    if sel["kind"] == "grid":
        return GridVT(models, data)
    kwargs = {}
    if sel["n_events"] is not None:
        kwargs["n_events"] = n_events if sel["n_events"] == "match" else sel["n_events"]
    return ResamplingVT(world.wrap_models(models, sel["form"]), data, marginalize_uncertainty=sel["marginalize"],
                        enforce_convergence=sel["enforce"], **kwargs)


def replacing_conversion(parameters):
    """A conversion that works on the dictionary it is given."""
    parameters["case"] = int(parameters.pop("half_case") * 2)
    return parameters, ["case"]


class SharedConversion:
    """A conversion that always returns the same dictionary."""

    def __init__(self, converted):
        self.converted = converted

    def __call__(self, parameters):
        return self.converted[parameters["case"]], None


def run_callbacks(scn, rec):
    """Population model, selection function and conversion return objects they keep."""
    import pandas as pd
    from bilby.hyper.model import Model
    from gwpopulation import hyperpe

    gen = world.np_gen(scn["seed"])
    watch = snapshot.Watch()
    events, samples = scn["events"], scn["samples"]
    tables = [np.exp(0.4 * gen.normal(size=(events, samples))) for _ in range(3)]
    wanted = scn["selection"]
    values = [float(v) for v in gen.uniform(0.1, 0.9, 3)]
    if wanted in ("array", "array-value"):
        values = [np.array(v) for v in values]
    elif wanted == "vector":
        values = [np.array([v]) for v in values]
    variances = None
    if wanted != "array-value":
        variances = [(v**2 * 1e-3 if not isinstance(v, np.ndarray) else np.array(v**2 * 1e-3)) for v in values]
    rates = [float(r) for r in gen.uniform(1, 9, 3)]
    if scn["frozen"]:
        for group in (tables, values, variances or []):
            for value in group:
                if isinstance(value, np.ndarray):
                    value.setflags(write=False)
    prior = userfuncs.TablePrior(tables)
    if scn["wrap"] != "custom":
        prior = Model([userfuncs.TableFunction(tables)], cache=scn["wrap"] == "model")
    selection = userfuncs.TableSelection(values, variances)
    watch.add("population model output", tables)
    watch.add("selection output", selection)
    frames = []
    for event in range(events):
        frame = dict(x=gen.normal(size=samples))
        if scn["prior"]:
            frame["prior"] = gen.uniform(0.2, 2, samples)
        frames.append(pd.DataFrame(frame))
    watch.add("posteriors", frames)
    kwargs = dict(selection_function=selection)
    if scn["limit"] is not None:
        kwargs["maximum_uncertainty"] = scn["limit"]
    if scn["conversion"] == "shared":
        converted = [dict(case=i, rate=rates[i]) for i in range(3)]
        watch.add("converted parameters", converted)
        kwargs["conversion_function"] = SharedConversion(converted)
    elif scn["conversion"] == "identity":
        kwargs["conversion_function"] = userfuncs.identity_conversion
    elif scn["conversion"] == "inplace":
        kwargs["conversion_function"] = replacing_conversion
    cls = dict(Hyper=hyperpe.HyperparameterLikelihood, Rate=hyperpe.RateLikelihood,
               Null=hyperpe.NullHyperparameterLikelihood)[scn["cls"]]
    like = cls(frames, prior, **kwargs)
    watch.check(rec, "construction")
    for op in scn["ops"]:
        kind, fault = op["op"], op.get("fault")
        rec.step(kind, op["case"], fault)
        point = dict(case=op["case"], rate=rates[op["case"]])
        if scn["conversion"] == "inplace" and kind != "rate":
            point = dict(half_case=op["case"] / 2, rate=rates[op["case"]])
        watch.add("parameters", point)
        if wanted == "vector" and kind in ("rate", "ppd"):
            continue
        if kind == "ratio":
            call = lambda: like.log_likelihood_ratio(point)  # noqa: E731
        elif kind == "loglike":
            call = lambda: like.log_likelihood(point)  # noqa: E731
        elif kind == "both":
            call = lambda: like.ln_likelihood_and_variance(point)  # noqa: E731
        elif kind == "stats":
            call = lambda: statistics(rec, like, point)  # noqa: E731
        elif kind == "rate":
            def call():
                np.random.seed(op["seed"])
                return like.generate_rate_posterior_sample(point)
        elif kind == "ppd":
            given = dict(list=[point, dict(point)], dict=point, frame=None)[op["form"]]
            if given is None:
                given = [point]
            watch.add("samples", given)

            def call():
                np.random.seed(op["seed"])
                return like.posterior_predictive_resample(given, return_weights=True)
        else:
            def call():
                np.random.seed(op["seed"])
                return [np.asarray(v) for v in cls(frames, prior, **kwargs).data.values()]
        outcome = perform(rec, watch, kind, call, fault)
        rec.state("callbacks", kind, scn["cls"], wanted, scn["conversion"], scn["wrap"], scn["frozen"], outcome)
        watch.drop("parameters")
        watch.drop("samples")


def run_models(scn, rec):
    from gwpopulation.models import mass
    from gwpopulation.vt import ResamplingVT

    jax = scn["jax"]
    cols = world.needed_columns(scn["specs"])
    gen = world.np_gen(scn["seed"])
    data = world.columns(gen, cols, tuple(scn["shape"]))
    if scn["wide"]:
        for name, low, high in (("mass_1", 1.5, 130), ("mass_2", 1.0, 120), ("redshift", 0.0, 4), ("a_1", -0.2, 1.2),
                                ("chi_eff", -1.2, 1.2), ("cos_tilt_1", -1.1, 1.1)):
            if name in data:
                data[name] = gen.uniform(low, high, tuple(scn["shape"]))
    data = world.as_backend(data, jax)
    if scn["frozen"]:
        freeze(data)
    watch = snapshot.Watch()
    watch.add("data", data)
    models, primaries = [], {}
    for i, s in enumerate(scn["specs"]):
        if s["kind"] in world.MASS_FUNCTIONS:
            models.append(getattr(mass, s["kind"]))
        elif s["kind"] == "MemoSmoothed":
            primaries[i] = userfuncs.MemoPrimary()
            watch.add("names of the primary model", primaries[i].variable_names)
            models.append(userfuncs.memo_smoothed(
                primaries[i], mmin=s["cfg"]["mmin"], mmax=s["cfg"]["mmax"], cache=s["cfg"]["cache"],
                normalization_shape=tuple(s["cfg"]["shape"])))
        else:
            models.append(world.build(s))
    for op in scn["ops"]:
        spec, model, fault = scn["specs"][op["which"]], models[op["which"]], op.get("fault")
        rec.step("call", spec["kind"], sorted(op["point"].items()), fault)
        values = drop_one({**spec["fixed"], **op["point"]}, fault)
        mode = op["mode"]
        point = world.arrange(values, op["seed"], "array" if mode == "vector" else mode, jax=jax)
        if mode == "vector" and spec["kind"] in world.FUNCTIONS:
            point = {k: np.array([float(v)]) for k, v in point.items()}
        if scn["frozen"]:
            freeze(point)
        watch.add("parameters", point)
        if spec["kind"] in world.MASS_FUNCTIONS:
            call = lambda: model(data["mass_1"], **point)  # noqa: E731
        elif op["vt"] and len(scn["shape"]) == 1:
            injections = dict(data, prior=np.full(scn["shape"][0], 0.5), total_generated=50)
            watch.add("injections", injections)
            call = lambda: ResamplingVT(model, injections, n_events=2).detection_efficiency(point)  # noqa: E731
            if mode == "vector":
                continue
        else:
            call = lambda: model(data, **point)  # noqa: E731
        if fault is not None and fault["kind"] == "missing" and spec["fixed"]:
            fault = dict(fault, kind="missing")
        try:
            outcome = perform(rec, watch, spec["kind"], call, fault, rtol=1e-6 if jax else 1e-9)
        except (TypeError, ValueError) as exc:
            # e.g. array-valued parameters that a model does not support
            if mode != "vector" or "read-only" in str(exc):
                raise
            outcome = "refused"
        if op["which"] in primaries:
            expected = {"slope", "mmin", "mmax", "beta", "delta_m"}
            names = set(model.variable_names)
            rec.check(names == expected, "variable_names", lambda: f"{sorted(names)}")
            wrong = primaries[op["which"]].corrupted()
            rec.check(not wrong, "callback-result-changed", lambda: f"kept result of the primary mass model for {wrong}")
            watch.check(rec, "variable_names")
        rec.state("model", spec["kind"], mode, scn["frozen"], jax, outcome)
        watch.drop("parameters")
        watch.drop("injections")


def helper_arguments(op):
    rng, gen = random.Random(op["seed"]), world.np_gen(op["seed"])
    n = op["n"]

    def one(kind):
        value = dict(
            unit=lambda: gen.uniform(0.02, 0.98, n), shape=lambda: gen.uniform(1, 5, n), one=lambda: gen.uniform(0.99, 1, n),
            mass=lambda: gen.uniform(5, 90, n), slope=lambda: gen.uniform(-4, -1.5, n), high=lambda: gen.uniform(91, 100, n),
            low=lambda: gen.uniform(2, 4.9, n), width=lambda: gen.uniform(0.5, 3, n), corr=lambda: gen.uniform(-0.8, 0.8, n),
            mean=lambda: gen.uniform(0.2, 0.8, n), variance=lambda: gen.uniform(0.001, 0.03, n),
            grid=lambda: np.sort(gen.uniform(0, 1, n)),
        )[kind]()
        return value

    kinds = HELPERS[op["name"]]
    if op["name"] == "total_four_volume":
        return [rng.uniform(-3, 3), rng.uniform(0.5, 2)]
    if op["name"] == "convert_to_beta_parameters":
        suffixes = rng.choice([[""], ["_1", "_2"], ["_1"], ["", "_1", "_2"]])
        out = {}
        for suffix in suffixes:
            out[f"mu_chi{suffix}"] = one("mean")
            out[f"sigma_chi{suffix}"] = one("variance")
            out[f"amax{suffix}"] = one("one")
            choice = rng.random()
            if choice < 0.3:
                out[f"alpha_chi{suffix}"] = None
                out[f"beta_chi{suffix}"] = None
            elif choice < 0.5:
                out[f"alpha_chi{suffix}"] = one("shape")
                out[f"beta_chi{suffix}"] = one("shape")
        if op["arrays"] != "all":
            out = {k: (v if v is None else float(v[0])) for k, v in out.items()}
        out["lam"] = 0.3
        return [out]
    args = []
    for i, kind in enumerate(kinds):
        value = one(kind)
        keep = op["arrays"] == "all" or i == 0 or kind == "grid" or (op["arrays"] == "some" and rng.random() < 0.5)
        args.append(value if keep else float(value[0]))
    return args


def run_helpers(scn, rec):
    from gwpopulation import conversions, utils
    from gwpopulation.models import redshift

    for op in scn["ops"]:
        rec.step("helper", op["name"], op["seed"], op["arrays"])
        args = helper_arguments(op)
        if scn["frozen"]:
            freeze(dict(enumerate(args)))
            if isinstance(args[0], dict):
                freeze(args[0])
        watch = snapshot.Watch()
        watch.add("arguments", args)
        module = next(m for m in (utils, conversions, redshift) if hasattr(m, op["name"]))
        function = getattr(module, op["name"])
        kwargs = dict(remove=op["remove"]) if op["name"] == "convert_to_beta_parameters" else {}
        try:
            outcome = perform(rec, watch, op["name"], lambda: function(*args, **kwargs))
        except (TypeError, ValueError) as exc:
            # several helpers take scalar parameters only
            if op["arrays"] == "first" or "read-only" in str(exc):
                raise
            outcome = "refused"
            watch.check(rec, op["name"])
        rec.state("helper", op["name"], op["arrays"], scn["frozen"], outcome)


def run_cosmo(scn, rec):
    from gwpopulation.experimental.cosmo_models import CosmoMixin, CosmoModel
    from gwpopulation.vt import ResamplingVT

    jax = scn["jax"]
    gen = world.np_gen(scn["seed"])
    plain = world.columns(gen, scn["cols"], tuple(scn["shape"]))
    data = world.as_backend(plain, jax)
    if scn["frozen"]:
        freeze(data)
    watch = snapshot.Watch()
    watch.add("data", data)
    models = watch.add("models", [world.build(s) for s in scn["specs"]])
    model = CosmoModel(models, cosmo_model=scn["cosmo"])
    mixin = CosmoMixin(cosmo_model=scn["cosmo"])
    for op in scn["ops"]:
        fault = op.get("fault")
        rec.step(op["op"], sorted(op["point"].items()), fault)
        point = world.arrange(drop_one({**world.fixed_values(scn["specs"]), **op["point"]}, fault), op["seed"],
                              op["mode"], jax=jax)
        if scn["frozen"]:
            freeze(point)
        watch.add("parameters", point)
        if op["op"] == "prob":
            call = lambda: model.prob(data, **point)  # noqa: E731
        elif op["op"] == "convert":
            if fault is not None and fault["kind"] == "missing":
                continue
            call = lambda: mixin.detector_frame_to_source_frame(data, **point)  # noqa: E731
        else:
            injections = {k: v.reshape(-1) for k, v in data.items()}
            n = next(iter(injections.values())).shape[0]
            injections.update(prior=world.as_backend(dict(p=np.full(n, 0.5)), jax)["p"], total_generated=50)
            watch.add("injections", injections)
            call = lambda: ResamplingVT(model, injections, n_events=2).detection_efficiency(point)  # noqa: E731
        outcome = perform(rec, watch, op["op"], call, fault, rtol=1e-6 if jax else 1e-9)
        rec.state("cosmo", op["op"], scn["cosmo"], tuple(scn["cols"]), op["mode"], scn["frozen"], jax, outcome)
        watch.drop("parameters")
        watch.drop("injections")
