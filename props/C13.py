"""C13: compiled and eager evaluation agree in every order."""
import numpy as np

from props import C03
from sim import faults, oracle, userfuncs, world

SPEC = dict(
    rule="a run is non-trivial if it compares at least one compiled evaluation with the reference and makes at least "
         "one further evaluation of the same likelihood; runs are distinct if their scenarios differ",
    state_measure="tuples (component kinds, likelihood class, selection, previous operation, operation, type of the "
                  "arguments, compiled before or not)",
    real=["gwpopulation.experimental.jax", "gwpopulation.hyperpe", "gwpopulation.vt", "gwpopulation.models",
          "jax (compiler and caches)", "bilby.hyper.model.Model"],
    stub=["user population functions, selection and conversion callbacks (sim/userfuncs.py)",
          "interrupts (exceptions at seeded lines while a function is being compiled)"],
    assumptions=["models with splines are evaluated once uncompiled first",
                 "bilby's own model cache is off for models the user wraps",
                 "settings are not changed after compilation",
                 "points within 1e-6 relative of the uncertainty or convergence threshold may go either way"],
    quick=dict(runs=160), thorough=dict(runs=8000),
)
MODES = ["plain", "plain", "np", "array", "mixed", "int"]
SPLINES = ("SplineSpinMagnitudeIdentical", "SplineSpinTiltIdentical", "InterpolatedPowerlaw",
           "InterpolatedNoBaseModelIdentical")


def generate(rng, tier, idx):
    cheap = rng.random() < 0.45
    cosmo = "Planck15"
    if rng.random() < 0.08:
        # the cosmology is sampled too
        cosmo, cheap = rng.choice(["FlatLambdaCDM", "FlatwCDM"]), False
    cfg = world.likelihood_config(
        rng, jax=True, cosmo=cosmo, max_components=2 if cheap else 1,
        groups=["redshift"] if cosmo != "Planck15" else ["toy", "magnitude", "tilt"] if cheap else None)
    if cfg["selection"]["kind"] == "grid" and not world.usable_grid(cfg["selection"], cfg["specs"]):
        cfg["selection"] = dict(kind="constant")
    if cfg["selection"]["kind"] == "resampling":
        cfg["selection"]["share"] = rng.random() < 0.3
        # lists are wrapped by the selection function itself
        if rng.random() < 0.5:
            cfg["selection"]["form"] = "list"
    if len(cfg["specs"]) == 1 and cfg["specs"][0]["kind"] in world.FUNCTIONS and rng.random() < 0.5:
        cfg["wrap"] = "function"
    cfg["np_seed"] = rng.getrandbits(32)
    points = world.Points(rng, world.point_names(cfg["specs"], ["rate"] if cfg["cls"] == "Rate" else []))
    wrappers = rng.choice([1, 2, 2, 3])
    ops = []
    spline = any(s["kind"] in SPLINES for s in cfg["specs"])
    for i in range(rng.randint(4, 9)):
        if points.history and rng.random() < 0.25:
            point = rng.choice(points.history)
        else:
            point, _ = points.next()
        kind = rng.choices(["jit", "eager", "both", "stats", "recompile", "missing", "abort", "model", "fresh"],
                           [8, 4, 1, 1, 0.8, 0.9, 1.2, 0.7, 0.5])[0]
        if spline and i == 0:
            kind = "eager"
        ops.append(dict(op=kind, point=C03.to_sampled(cfg, point), mode=rng.choice(MODES), seed=rng.getrandbits(24),
                        extra=rng.random() < 0.1, wrapper=rng.randrange(wrappers), frac=rng.random(),
                        which=rng.random(), compiled=rng.random() < 0.6, exc=rng.choice(sorted(faults.EXCEPTIONS))))
    powers = [None] + [rng.choice([None, 0.5, 0.25]) for _ in range(wrappers - 1)]
    return dict(cfg=cfg, wrappers=wrappers, powers=powers, early=rng.random() < 0.5, ops=ops)


def arranged(cfg, op):
    mode = op["mode"]
    point = {**world.fixed_values(cfg["specs"]), **op["point"]}
    if mode == "int":
        # the same numbers, as integers where that is possible
        point = {k: int(v) if isinstance(v, float) and v == int(v) else v for k, v in point.items()}
        mode = "plain"
    return world.arrange(point, op["seed"], mode, jax=True, extra=op["extra"])


def execute(scn, rec):
    import gwpopulation
    from gwpopulation.experimental.jax import JittedLikelihood

    cfg = scn["cfg"]
    gwpopulation.set_backend("jax")
    np.random.seed(cfg["np_seed"])
    built = world.Built(cfg)
    like = built.like
    reference = world.RefLikelihood(cfg, like.data, like.sampling_prior)
    wrappers = {}

    def wrapper(i):
        if i not in wrappers:
            if scn["powers"][i] is None:
                wrappers[i] = JittedLikelihood(like)
            else:
                # the caller's own function with keyword arguments
                wrappers[i] = JittedLikelihood(like, likelihood_func=userfuncs.tempered,
                                               kwargs=dict(power=scn["powers"][i]))
        return wrappers[i]

    def unscaled(i, value):
        return value if scn["powers"][i] is None else value / scn["powers"][i]

    if scn["early"]:
        for i in range(scn["wrappers"]):
            wrapper(i)
    label = (tuple(s["kind"] for s in cfg["specs"]), cfg["cls"], cfg["selection"]["kind"], cfg["wrap"])
    previous, compiled = "new", set()
    caller = world.Caller()
    for op in scn["ops"]:
        kind, which = op["op"], op["wrapper"]
        rec.step(kind, which, op["mode"], sorted(op["point"].items()))
        rec.state(label, previous, kind, op["mode"], which in compiled)
        point = caller.give(arranged(cfg, op), op["seed"] % 3 == 0)
        terms = reference.terms(op["point"])
        if kind == "jit":
            value = wrapper(which).log_likelihood_ratio(point)
            rec.check(isinstance(value, float), "compiled-type", lambda: f"{type(value)}")
            oracle.ratio(rec, unscaled(which, value), terms, True, what="compiled")
            compiled.add(which)
        elif kind == "fresh":
            value = JittedLikelihood(like).log_likelihood_ratio(point)
            oracle.ratio(rec, value, terms, True, what="compiled-anew")
        elif kind == "eager":
            oracle.ratio(rec, like.log_likelihood_ratio(point), terms, True, what="eager")
        elif kind == "both":
            oracle.ln_l_and_variance(rec, like.ln_likelihood_and_variance(point), cfg, terms, True)
        elif kind == "stats":
            sample = dict(point)
            like.generate_extra_statistics(sample)
            oracle.statistics(rec, sample, point, cfg, terms, True)
        elif kind == "model":
            evaluate_model(rec, cfg, built, op)
        elif kind == "recompile":
            clear = getattr(wrapper(which).likelihood_func, "clear_cache", None)
            if clear is not None:
                clear()
                rec.fault("compiled-function-dropped")
            compiled.discard(which)
            oracle.ratio(rec, unscaled(which, wrapper(which).log_likelihood_ratio(point)), terms, True, what="recompiled")
            compiled.add(which)
        elif kind == "missing":
            names = sorted(set(op["point"]) - {"delta_m"})
            del point[names[int(op["which"] * len(names))]]
            target = wrapper(which) if op["compiled"] else like
            try:
                value = target.log_likelihood_ratio(point)
            except Exception:
                rec.fault("missing-parameter")
            else:
                if needs(cfg, names[int(op["which"] * len(names))]):
                    rec.check(False, "missing-parameter-accepted", lambda: f"value {value}")
        else:
            target = wrapper(which) if op["compiled"] else like
            counter = faults.Interrupt()
            # the number of lines is that of an uncompiled evaluation
            with counter:
                like.log_likelihood_ratio(arranged(cfg, op))
            cut = faults.Interrupt(1 + int(op["frac"] * counter.count), op["exc"])
            value = None
            try:
                with cut:
                    value = target.log_likelihood_ratio(point)
            except BaseException:
                if cut.fired is None:
                    raise
                rec.fault("aborted-compilation" if op["compiled"] else "aborted-evaluation")
            else:
                oracle.ratio(rec, unscaled(which, value) if op["compiled"] else value, terms, True, what="not-aborted")
        previous = kind
    # the order must not have mattered: both ways once more, at the first point
    op = scn["ops"][0]
    terms = reference.terms(op["point"])
    for i in sorted(wrappers):
        value = wrappers[i].log_likelihood_ratio(arranged(cfg, dict(op, mode="plain", extra=False)))
        oracle.ratio(rec, unscaled(i, value), terms,
                     True, what="compiled-at-the-end")
    oracle.ratio(rec, like.log_likelihood_ratio(arranged(cfg, op)), terms, True, what="eager-at-the-end")


def needs(cfg, name):
    """Whether the likelihood cannot be evaluated without a parameter."""
    return any(name in s["params"] for s in cfg["specs"]) and cfg["conversion"] == "default"


def evaluate_model(rec, cfg, built, op):
    """The population models themselves were not harmed by being traced."""
    i = int(op["which"] * len(built.models))
    spec, model = cfg["specs"][i], built.models[i]
    if cfg["conversion"] != "default" or spec["kind"] == "ToyClass":
        return
    point = {k: v for k, v in {**spec["fixed"], **op["point"]}.items() if k in spec["params"] or k in spec["fixed"]}
    data = {k: world.plain(built.like.data[k]) for k in spec["cols"] if k in built.like.data}
    if len(data) != len(spec["cols"]):
        return
    got = np.asarray(model(built.like.data, **point), float)
    expected = np.broadcast_to(world.ref_density(spec, data, point), got.shape)
    rtol, _ = world.tolerances(True)
    with np.errstate(all="ignore"):
        scale = rtol * (np.abs(expected) + 1e-6 * np.nanmax(np.abs(expected)))
    rec.check(oracle.same(got, expected, scale), "density-after-compilation",
              lambda: f"{spec['kind']}: got {got.ravel()[:4]}, expected {expected.ravel()[:4]}")


simplify = C03.simplify
