"""C23: objects keep working after the backend was switched and switched back."""
import numpy as np

from props import C03, C13
from sim import faults, oracle, world

SPEC = dict(
    rule="a run is non-trivial if it uses at least one object before and after the backend was switched away and back and "
         "compares its values with the reference; runs are distinct if their scenarios differ",
    state_measure="tuples (object kind, backend, number of switches since its last use, operation, failure in between)",
    real=["gwpopulation.backend", "gwpopulation.hyperpe", "gwpopulation.vt", "gwpopulation.models", "gwpopulation.utils",
          "gwpopulation.experimental", "wcosmo", "cached_interpolate", "numpy/jax"],
    stub=["user population functions, selection and conversion callbacks (sim/userfuncs.py)"],
    assumptions=["an object is evaluated only while the backend it was made with is active (documented)",
                 "models with splines are evaluated once uncompiled before they are compiled",
                 "nobody turns off double precision while jax is active"],
    level="fault_enumeration",
    quick=dict(runs=200), thorough=dict(runs=8000),
)
RUN_LIMIT = 240


def likelihood(rng, jax):
    groups = rng.choice([["toy", "magnitude", "tilt"], ["toy", "redshift", "chi"], None]) if jax else None
    cfg = world.likelihood_config(rng, jax=jax, cosmo="Planck15" if jax else None, groups=groups,
                                  max_components=1 if jax else 2)
    if cfg["selection"]["kind"] == "grid" and not world.usable_grid(cfg["selection"], cfg["specs"]):
        cfg["selection"] = dict(kind="constant")
    for spec in cfg["specs"]:
        if "shape" in spec["cfg"]:
            spec["cfg"]["shape"] = [30, 20]
    cfg["np_seed"] = rng.getrandbits(32)
    return cfg


def generate(rng, tier, idx):
    objects = []
    for i in range(rng.randint(2, 4)):
        jax = i == 0 or (i != 1 and rng.random() < 0.4)
        if rng.random() < 0.55:
            objects.append(dict(kind="likelihood", jax=jax, cfg=likelihood(rng, jax)))
        else:
            kinds = [k for g in ("mass", "magnitude", "tilt", "chi", "redshift") for k in world.GROUPS[g]]
            spec = world.component(rng, rng.choice(kinds + ["InterpolatedNoBaseModelIdentical"]), small=True,
                                   cosmo="Planck15" if jax else None)
            objects.append(dict(kind="model", jax=jax, spec=spec, shape=rng.choice([[5], [2, 4]]), seed=rng.getrandbits(32)))
    # the same model and parameters on both backends is where mixing them up would go unnoticed longest
    if rng.random() < 0.4:
        twin = dict(objects[0], jax=False)
        if twin["kind"] == "likelihood":
            twin["cfg"] = dict(twin["cfg"], jax=False)
        objects.append(twin)
    streams = [world.Points(rng, world.point_names(o["cfg"]["specs"], ["rate"] if o["cfg"]["cls"] == "Rate" else [])
                            if o["kind"] == "likelihood" else o["spec"]["params"]) for o in objects]
    ops, active, n_jax = [], False, 0
    # evaluations while jax is active are slow
    for _ in range(rng.randint(8, 16)):
        which = rng.randrange(len(objects))
        target = objects[which]
        if target["jax"] != active:
            if rng.random() < 0.25:
                ops.append(dict(op="failed-switch", backend=rng.choice(["cupy", "torch", "Numpy", ""])))
            ops.append(dict(op="switch", backend="jax" if target["jax"] else "numpy"))
            if rng.random() < 0.15:
                ops.append(dict(op="switch", backend=ops[-1]["backend"]))
            active = target["jax"]
        elif rng.random() < 0.1:
            ops.append(dict(op="failed-switch", backend=rng.choice(["cupy", "torch"])))
        if target["jax"]:
            n_jax += 1
            if n_jax > 6:
                continue
        point, _ = streams[which].next()
        earlier = [o for o in ops if o.get("which") == which]
        op = dict(op="use", which=which, point=point, seed=rng.getrandbits(24),
                  mode=rng.choice(["plain", "plain", "array", "mixed", "np"]), cut=None)
        if earlier and rng.random() < 0.3:
            op["point"] = rng.choice(earlier)["point"]
        if target["kind"] == "likelihood":
            op["how"] = rng.choices(["ratio", "both", "stats", "compiled", "ppd"], [5, 2, 2, 6 if target["jax"] else 0, 1])[0]
            op["point"] = C03.to_sampled(target["cfg"], point) if op["point"] is point else op["point"]
        else:
            op["how"] = "density"
        if rng.random() < 0.15:
            op["cut"] = dict(at=rng.randint(1, 200), exc=rng.choice(sorted(faults.EXCEPTIONS)))
        ops.append(op)
    return dict(objects=objects, ops=ops)


class Held:
    """An object, its inputs and its reference."""

    def __init__(self, item):
        from gwpopulation.experimental.jax import JittedLikelihood

        self.item, self.jax = item, item["jax"]
        if item["kind"] == "likelihood":
            np.random.seed(item["cfg"]["np_seed"])
            self.built = world.Built(item["cfg"])
            self.like = self.built.like
            self.reference = world.RefLikelihood(item["cfg"], self.like.data, self.like.sampling_prior)
            self.compiled = JittedLikelihood(self.like) if self.jax else None
            self.specs = item["cfg"]["specs"]
        else:
            self.specs = [item["spec"]]
            self.model = world.build(item["spec"])
            self.plain = world.columns(world.np_gen(item["seed"]), world.needed_columns(self.specs), tuple(item["shape"]))
            self.data = world.as_backend(self.plain, self.jax)
        self.used = False
        self.label = (item["kind"], tuple(s["kind"] for s in self.specs), "jax" if self.jax else "numpy")


def check_type(rec, held, value, what):
    import jax

    wanted = jax.Array if held.jax else np.ndarray
    kind = getattr(value, "dtype", None)
    rec.check(isinstance(value, wanted), "array-type", lambda: f"{held.label}: {what} is {type(value)}")
    rec.check(kind == np.float64, "precision", lambda: f"{held.label}: {what} has {kind}")


def use(rec, held, op):
    how, jax = op["how"], held.jax
    if how == "density":
        spec = held.item["spec"]
        point = world.arrange({**spec["fixed"], **op["point"]}, op["seed"], op["mode"], jax=jax)
        got = held.model(held.data, **point)
        check_type(rec, held, got, "density")
        got = np.asarray(got, float)
        expected = np.broadcast_to(world.ref_density(spec, held.plain, {**spec["fixed"], **op["point"]}), got.shape)
        rtol, _ = world.tolerances(jax)
        with np.errstate(all="ignore"):
            scale = rtol * (np.abs(expected) + 1e-6 * np.nanmax(np.abs(expected)))
        rec.check(oracle.same(got, expected, scale), "density",
                  lambda: f"{held.label}: got {got.ravel()[:4]}, expected {expected.ravel()[:4]}")
        return
    cfg, like = held.item["cfg"], held.like
    point = C03.arranged(cfg, dict(op, extra=False))
    terms = held.reference.terms(op["point"])
    if how == "compiled" and not held.used and any(s["kind"] in C13.SPLINES for s in held.specs):
        how = "ratio"
    if how == "ratio":
        oracle.ratio(rec, like.log_likelihood_ratio(point), terms, jax)
    elif how == "compiled":
        oracle.ratio(rec, held.compiled.log_likelihood_ratio(point), terms, jax, what="compiled")
    elif how == "both":
        oracle.ln_l_and_variance(rec, like.ln_likelihood_and_variance(point), cfg, terms, jax)
    elif how == "stats":
        sample = dict(point)
        like.generate_extra_statistics(sample)
        oracle.statistics(rec, sample, point, cfg, terms, jax)
    else:
        weights = oracle.resample_weights(held.reference, [op["point"]])
        if not np.all(np.isfinite(weights)):
            rec.probe("undefined-weights-skipped")
            return
        np.random.seed(op["seed"])
        new, got = like.posterior_predictive_resample([C03.arranged(cfg, dict(op, mode="plain", extra=False))],
                                                      return_weights=True)
        rtol, _ = world.tolerances(jax)
        rec.check(oracle.same(got, weights, 10 * rtol), "ppd-weights",
                  lambda: f"largest difference {np.max(np.abs(np.asarray(got) - weights))}")
        oracle.rows_of(rec, new, {k: world.plain(v) for k, v in like.data.items()}, weights, what="ppd")
    for key, value in like.data.items():
        check_type(rec, held, value, f"samples of {key}")
    if how != "ppd":  # which does not evaluate the selection function
        held.used = True


def execute(scn, rec):
    import gwpopulation

    faults.forget()
    gwpopulation.set_backend("numpy")
    held, switches, last, failed = {}, 0, {}, "-"
    active = "numpy"
    for op in scn["ops"]:
        if op["op"] == "switch":
            rec.step("switch", op["backend"])
            gwpopulation.set_backend(op["backend"])
            active = op["backend"]
            switches += 1
            continue
        if op["op"] == "failed-switch":
            rec.step("failed-switch", op["backend"])
            try:
                gwpopulation.set_backend(op["backend"])
            except (ValueError, ImportError):
                rec.fault("failed-switch")
                failed = "switch"
            else:
                rec.check(False, "unknown-backend-accepted", lambda: op["backend"])
            continue
        which = op["which"]
        wanted = "jax" if scn["objects"][which]["jax"] else "numpy"
        if wanted != active:
            # minimised scenarios lack some switches
            gwpopulation.set_backend(wanted)
            active = wanted
        if which not in held:
            held[which] = Held(scn["objects"][which])
            last[which] = switches
        target = held[which]
        rec.step(op["how"], which, sorted(op["point"].items()), op["cut"])
        rec.state(target.label, min(switches - last[which], 3), op["how"], failed)
        last[which] = switches
        if op["cut"] is None:
            use(rec, target, op)
            continue
        cut = faults.Interrupt(op["cut"]["at"], op["cut"]["exc"])
        try:
            with cut:
                use(rec, target, op)
        except BaseException:
            if cut.fired is None:
                raise
            rec.fault("aborted-evaluation")
            failed = "evaluation"
    gwpopulation.set_backend("numpy")


def simplify(scn):
    for i, op in enumerate(scn["ops"]):
        if op.get("cut") is not None:
            yield dict(scn, ops=scn["ops"][:i] + [dict(op, cut=None)] + scn["ops"][i + 1:])
