"""C21: what the package keeps does not grow with the number of evaluations, and unused objects are released."""
import gc
import weakref

import numpy as np

from props import C03, C07
from sim import faults, footprint, world

SPEC = dict(
    rule="a run is non-trivial if it makes at least 60 evaluations, measures what is kept in three windows and releases "
         "the objects at the end; runs are distinct if their scenarios differ",
    state_measure="tuples (kind of history, models, selection, mix of operations and failures)",
    real=["gwpopulation.hyperpe", "gwpopulation.vt", "gwpopulation.models", "gwpopulation.experimental",
          "bilby.hyper.model.Model", "cached_interpolate", "numpy/jax"],
    stub=["user population functions, selection and conversion callbacks (sim/userfuncs.py)"],
    assumptions=["growth counts if it goes on at half an object or one array element per evaluation for several hundred "
                 "evaluations, so bounded memories of results are accepted",
                 "what numpy, jax and bilby keep for themselves is not measured"],
    level="fault_enumeration",
    quick=dict(runs=320), thorough=dict(runs=16000),
)
JAX_EVERY = 13
RUN_LIMIT = 240


def generate(rng, tier, idx):
    jax = idx % JAX_EVERY == JAX_EVERY - 1
    kind = "compiled" if jax else rng.choices(["likelihood", "models", "churn"], [5, 4, 2])[0]
    scn = dict(kind=kind, seed=rng.getrandbits(32), failing=rng.choice([0, 0.1, 0.4]), window=rng.choice([20, 30]))
    if kind == "models":
        kinds = [k for g in ("mass", "magnitude", "tilt", "chi", "redshift") for k in world.GROUPS[g]]
        specs = [world.component(rng, rng.choice(kinds + ["InterpolatedNoBaseModelIdentical"] * 2), small=True)
                 for _ in range(rng.randint(1, 2))]
        scn.update(specs=specs, renew=rng.choice([0, 0.3, 1]), shape=rng.choice([[4], [2, 5]]),
                   shapes=rng.random() < 0.3)
        return scn
    if jax:
        cfg = world.likelihood_config(rng, jax=True, cosmo="Planck15", max_components=1, groups=["toy", "chi", "tilt"])
        if cfg["selection"]["kind"] == "grid":
            cfg["selection"] = dict(kind="constant")
    else:
        cfg = world.likelihood_config(rng, max_components=2)
        for spec in cfg["specs"]:
            if "shape" in spec["cfg"]:
                spec["cfg"]["shape"] = [20, 12]
    if cfg["selection"]["kind"] == "grid" and not world.usable_grid(cfg["selection"], cfg["specs"]):
        cfg["selection"] = dict(kind="constant")
    cfg["np_seed"] = rng.getrandbits(32)
    scn.update(cfg=cfg, mix=rng.choice(["ratio", "all", "all"]), nearby=rng.random() < 0.4)
    return scn


class Stream:
    """An endless sequence of new points."""

    def __init__(self, seed, names):
        import random

        self.rng = random.Random(seed)
        self.names = names
        self.base = {n: world.draw(self.rng, n) for n in names}

    def next(self, nearby=False):
        if nearby:
            point = dict(self.base)
            name = self.rng.choice(self.names)
            point[name] = world.draw(self.rng, name)
            return point
        return {n: world.draw(self.rng, n) for n in self.names}


def growth(rec, step, roots, window, what, sized=True):
    """Run step() in windows and measure after each; sized: the data always have the same size."""
    for _ in range(window):
        step()
    sizes = [footprint.measure(roots())]
    for _ in range(2):
        for _ in range(window):
            step()
        sizes.append(footprint.measure(roots()))
    rec.log(what, "measured")

    def growing(a, b, n):
        return b[0] - a[0] >= 0.5 * n or (sized and b[1] - a[1] >= 8 * n)

    if growing(sizes[0], sizes[1], window) and growing(sizes[1], sizes[2], window):
        # it may still be a memory of bounded size
        rec.probe("looked-closer")
        for _ in range(500):
            step()
        middle = footprint.measure(roots())
        for _ in range(100):
            step()
        last = footprint.measure(roots())
        sizes += [middle, last]
        rec.check(not growing(middle, last, 100), "state-grows",
                  lambda: f"{what}: (objects, array bytes) {sizes} after {window} evaluations more each, then 500 and 100")
    rec.checks += 1


def execute(scn, rec):
    import gwpopulation

    faults.forget()
    gwpopulation.set_backend("jax" if scn["kind"] == "compiled" else "numpy")
    globals()["run_" + scn["kind"]](scn, rec)


def attempt(call, rng, failing, point, rec):
    """Evaluate, now and then cut short or with a parameter missing."""
    if rng.random() >= failing:
        return call(point)
    try:
        if rng.random() < 0.5:
            del point[rng.choice(sorted(point))]
            call(point)
        else:
            with faults.Interrupt(rng.randint(1, 60), rng.choice(sorted(faults.EXCEPTIONS))):
                call(point)
    except BaseException as exc:
        if not isinstance(exc, (faults.Injected, Exception)):
            raise
        rec.fault("interrupt" if isinstance(exc, faults.Injected) else "missing-parameter")
    return None


def released(rec, refs, what):
    gc.collect()
    alive = sorted(name for name, ref in refs if ref() is not None)
    rec.check(not alive, "not-released", lambda: f"{what}: {alive} still exist although the caller dropped them")


def run_likelihood(scn, rec):
    import random

    cfg = scn["cfg"]
    np.random.seed(cfg["np_seed"])
    built = world.Built(cfg)
    like = built.like
    stream = Stream(scn["seed"], world.point_names(cfg["specs"], ["rate"] if cfg["cls"] == "Rate" else []))
    rng = random.Random(scn["seed"])
    fixed = world.fixed_values(cfg["specs"])

    def step():
        point = {**fixed, **C03.to_sampled(cfg, stream.next(scn["nearby"]))}
        kind = rng.choice(["ratio", "ratio", "stats", "both", "selection", "ppd", "rate"]) if scn["mix"] == "all" else "ratio"
        rec.steps += 1
        if kind == "stats":
            call = like.generate_extra_statistics
        elif kind == "both":
            call = like.ln_likelihood_and_variance
        elif kind in ("selection", "rate"):
            if cfg["conversion"] != "default" or (kind == "selection" and built.selection is None):
                return
            call = built.selection if kind == "selection" else like.generate_rate_posterior_sample
        elif kind == "ppd":
            if rng.random() < 0.8:
                return

            def call(p):
                with np.errstate(all="ignore"):
                    weights = np.asarray(like.hyper_prior.prob(like.data, **like.conversion_function(dict(p))[0]))
                if np.all(weights.sum(axis=-1) > 0) and np.all(np.isfinite(weights)) and weights.shape:
                    like.posterior_predictive_resample([p])
        else:
            call = like.log_likelihood_ratio
        attempt(call, rng, scn["failing"], point, rec)

    label = tuple(s["kind"] for s in cfg["specs"])
    rec.step("likelihood", label, cfg["selection"]["kind"])
    rec.state("likelihood", label, cfg["cls"], cfg["selection"]["kind"], scn["mix"], scn["failing"])
    growth(rec, step, lambda: [like, built.selection, built.models, built.hyper_prior], scn["window"], f"likelihood {label}")
    refs = [("likelihood", weakref.ref(like))]
    refs += [(f"samples of {k}", weakref.ref(v)) for k, v in like.data.items()]
    refs += [(f"model {s['kind']}", weakref.ref(m)) for s, m in zip(cfg["specs"], built.models)
             if not callable_function(m)]
    if built.selection is not None and not callable_function(built.selection):
        refs.append(("selection function", weakref.ref(built.selection)))
    del like, built, step
    released(rec, refs, f"likelihood {label}")


def callable_function(obj):
    import types

    return isinstance(obj, types.FunctionType)


def run_models(scn, rec):
    import random

    rng = random.Random(scn["seed"])
    models = [world.build(s) for s in scn["specs"]]
    streams = [Stream(scn["seed"] + i, s["params"]) for i, s in enumerate(scn["specs"])]
    cols = world.needed_columns(scn["specs"])
    gen = world.np_gen(scn["seed"])
    held = dict(data=world.columns(gen, cols, tuple(scn["shape"])))
    old = []

    def step():
        i = rng.randrange(len(models))
        if rng.random() < scn["renew"]:
            if len(old) < 30:
                old.append([(f"data {k}", weakref.ref(v)) for k, v in held["data"].items()])
            shape = tuple(scn["shape"]) if not scn["shapes"] else (rng.randint(1, 40),)
            held["data"] = world.columns(gen, cols, shape)
        rec.steps += 1
        point = {**scn["specs"][i]["fixed"], **streams[i].next()}
        attempt(lambda p: models[i](held["data"], **p), rng, scn["failing"], point, rec)

    label = tuple(s["kind"] for s in scn["specs"])
    rec.step("models", label, scn["renew"])
    rec.state("models", label, scn["renew"], scn["shapes"], scn["failing"])
    growth(rec, step, lambda: models, scn["window"], f"models {label}", sized=not (scn["shapes"] and scn["renew"]))
    # every model has seen newer data by now, or is dropped
    refs = [r for group in old for r in group]
    refs += [(f"model {s['kind']}", weakref.ref(m)) for s, m in zip(scn["specs"], models) if not callable_function(m)]
    refs += [(f"data {k}", weakref.ref(v)) for k, v in held["data"].items()]
    del models, step
    held.clear()
    released(rec, refs, f"models {label}")


def run_churn(scn, rec):
    """Likelihoods are made, used and dropped."""
    import random

    cfg = scn["cfg"]
    rng = random.Random(scn["seed"])
    stream = Stream(scn["seed"], world.point_names(cfg["specs"], ["rate"] if cfg["cls"] == "Rate" else []))
    fixed = world.fixed_values(cfg["specs"])
    refs = []

    def step():
        built = world.Built(cfg)
        like = built.like
        rec.steps += 1
        if len(refs) < 60:
            refs.append(("likelihood", weakref.ref(like)))
        attempt(like.log_likelihood_ratio, rng, scn["failing"], {**fixed, **C03.to_sampled(cfg, stream.next())}, rec)

    label = tuple(s["kind"] for s in cfg["specs"])
    rec.step("churn", label)
    rec.state("churn", label, cfg["cls"], cfg["selection"]["kind"], scn["failing"])
    growth(rec, step, lambda: [], 20, f"new likelihoods {label}")
    released(rec, refs, f"new likelihoods {label}")


class Counting:
    """A population model that counts how often it is executed (traced)."""

    def __init__(self, inner, names):
        self.inner, self.variable_names, self.count = inner, list(names), 0

    def __call__(self, dataset, **kwargs):
        self.count += 1
        return self.inner(dataset, **kwargs)


COMPILED = []


def count_compilations():
    """Count how often jax's compiler runs in this process."""
    import jax

    if not COMPILED:
        COMPILED.append(0)

        def listener(name, *args, **kwargs):
            if name.endswith("backend_compile_duration"):
                COMPILED[0] += 1

        jax.monitoring.register_event_duration_secs_listener(listener)


def run_compiled(scn, rec):
    """A compiled likelihood is not compiled again for arguments of a kind seen before."""
    import random

    import jax.numpy as jnp
    from bilby.hyper.model import Model
    from gwpopulation import hyperpe
    from gwpopulation.experimental.jax import JittedLikelihood

    cfg = scn["cfg"]
    rng = random.Random(scn["seed"])
    spec = cfg["specs"][0]
    counting = Counting(world.build(spec), list(spec["params"]) + list(spec["fixed"]))
    like = hyperpe.HyperparameterLikelihood(world.posteriors(cfg), Model([counting], cache=False))
    fixed = world.fixed_values(cfg["specs"])
    stream = Stream(scn["seed"], spec["params"])
    point = {**fixed, **stream.next()}
    like.log_likelihood_ratio(dict(point))
    compiled = JittedLikelihood(like)
    rec.step("compiled", spec["kind"])
    rec.state("compiled", spec["kind"])
    seen = set()
    count_compilations()
    for _ in range(60):
        point = {k: float(v) for k, v in {**fixed, **stream.next()}.items()}
        array = rng.random() < 0.4
        if array:
            point = {k: jnp.asarray(v) for k, v in point.items()}
        items = list(point.items())
        rng.shuffle(items)
        before, runs = counting.count, COMPILED[0]
        rec.steps += 1
        if rng.random() < scn["failing"] * 0.3:
            try:
                compiled.log_likelihood_ratio(dict(items[1:]))
            except Exception:
                rec.fault("missing-parameter")
            continue
        compiled.log_likelihood_ratio(dict(items))
        if array in seen:
            rec.check(counting.count == before, "compiled-again",
                      lambda: f"{spec['kind']}: {counting.count - before} more traces for arguments of the same kind")
            rec.check(COMPILED[0] == runs, "compiled-again",
                      lambda: f"{spec['kind']}: the compiler ran {COMPILED[0] - runs} times for arguments of the same kind")
        seen.add(array)
