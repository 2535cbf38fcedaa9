"""C03: a likelihood value depends only on the point that is evaluated."""
import numpy as np

from sim import oracle, world

SPEC = dict(
    rule="a run is non-trivial if it performs at least two operations on one likelihood and compares at least one "
         "returned number with the reference; runs are distinct if their scenarios differ",
    state_measure="pairs (likelihood configuration, operation preceding, kind of move, operation)",
    real=["gwpopulation.hyperpe", "gwpopulation.vt", "gwpopulation.models", "gwpopulation.conversions",
          "gwpopulation.utils", "bilby.hyper.model.Model", "wcosmo", "cached_interpolate", "numpy/jax"],
    stub=["user population functions, selection and conversion callbacks (sim/userfuncs.py)",
          "operating-system randomness (seeded numpy generator)"],
    assumptions=["posterior frames and injections are not modified by the caller between calls",
                 "a bilby Model with caching is not shared between a likelihood and its selection function",
                 "points within 1e-6 relative of the uncertainty or convergence threshold may go either way"],
    quick=dict(runs=720), thorough=dict(runs=24000),
)
JAX_EVERY = 7
LONG_EVERY = 45


def to_sampled(cfg, point):
    """Map a point in model parameters to the sampled parameters of the conversion."""
    point = dict(point)
    if cfg["conversion"] == "beta":
        for suffix in ("", "_1", "_2"):
            a, b, amax = f"alpha_chi{suffix}", f"beta_chi{suffix}", f"amax{suffix}"
            if a in point and b in point:
                total = point[a] + point[b]
                mean = point[a] / total
                var = mean * (1 - mean) / (total + 1)
                point[f"mu_chi{suffix}"] = mean * point[amax]
                point[f"sigma_chi{suffix}"] = var * point[amax] ** 2
                del point[a], point[b]
    elif cfg["conversion"] == "scaled" and "tau" in point:
        point["log_tau"] = float(np.log(point.pop("tau")))
    return point


def generate(rng, tier, idx):
    jax = idx % JAX_EVERY == JAX_EVERY - 1
    long = idx % LONG_EVERY == LONG_EVERY - 2 and not jax
    if jax:
        cfg = world.likelihood_config(rng, large=True, jax=True, cosmo="Planck15", max_components=2)
    elif long:
        cfg = world.likelihood_config(rng, large=True, groups=["toy", "chi", "tilt", "magnitude", "redshift"], max_components=2)
    else:
        cfg = world.likelihood_config(rng, large=True)
    if cfg["selection"]["kind"] == "grid" and not world.usable_grid(cfg["selection"], cfg["specs"]):
        cfg["selection"] = dict(kind="constant")
    if cfg["selection"]["kind"] == "resampling":
        cfg["selection"]["share"] = rng.random() < 0.25
    cfg["np_seed"] = rng.getrandbits(32)
    names = world.point_names(cfg["specs"], ["rate"] if cfg["cls"] == "Rate" else [])
    points = world.Points(rng, names)
    reuse = rng.choice([0, 0.3, 0.8])
    ops = []
    for _ in range(rng.randint(4, 7) if jax else rng.randint(150, 400) if long else rng.randint(4, 30)):
        point, move = points.next()
        if long and rng.random() < 0.3:
            point, move = rng.choice(points.history), "revisit"
        kind = rng.choices(
            ["ratio", "loglike", "both", "stats", "ppd", "threshold", "rate", "meta"],
            [8, 2, 3, 3, 0.1 if long else 1 if not jax else 0.5, 2, 0.7, 0.4])[0]
        # the documented conversion leaves parameters alone that need none
        native = cfg["conversion"] == "beta" and rng.random() < 0.25
        op = dict(op=kind, point=dict(point) if native else to_sampled(cfg, point), move=move, mode=rng.choice(["plain", "plain", "np", "array", "mixed"]),
                  seed=rng.getrandbits(24), extra=rng.random() < 0.15, reuse=rng.random() < reuse)
        if kind == "ppd":
            op["points"] = [to_sampled(cfg, p) for p in
                            [points.history[-1]] + rng.sample(points.history, min(len(points.history), rng.randint(0, 3)))]
            op["form"] = rng.choice(["list", "frame", "dict"])
        if kind == "threshold":
            op["value"] = rng.choice([None, 0.3, 1.0, 2.0, 1, "below", "above", "below", "above"])
        ops.append(op)
    return dict(cfg=cfg, ops=ops)


def arranged(cfg, op, point=None):
    mode = op["mode"]
    if cfg["wrap"] in ("model-cache", "function") and mode != "plain" and cfg["jax"]:
        mode = "plain"
    return world.arrange({**world.fixed_values(cfg["specs"]), **(point or op["point"])}, op["seed"], mode,
                         jax=cfg["jax"], extra=op["extra"])


def execute(scn, rec):
    import gwpopulation
    import pandas as pd

    cfg = scn["cfg"]
    jax = cfg["jax"]
    gwpopulation.set_backend("jax" if jax else "numpy")
    np.random.seed(cfg["np_seed"])
    built = world.Built(cfg)
    like = built.like
    reference = world.RefLikelihood(cfg, like.data, like.sampling_prior)
    snapshot = {k: np.array(v) for k, v in reference.data.items()}
    noise = sum(0.5 * i - 3.25 for i in range(cfg["n_events"])) if cfg["ln_evidences"] else np.nan
    rtol, _ = world.tolerances(jax)
    label = (tuple(s["kind"] for s in cfg["specs"]), cfg["cls"], cfg["selection"]["kind"], jax)
    previous = "new"
    caller = world.Caller()
    for op in scn["ops"]:
        kind = op["op"]
        rec.step(kind, op["move"], sorted(op["point"].items()))
        rec.state(label, previous, kind, op["move"])
        point = caller.give(arranged(cfg, op), op["reuse"], op["move"])
        terms = reference.terms(op["point"])
        if kind == "ratio":
            value = like.log_likelihood_ratio(point)
            rec.log("value", repr(float(value)))
            oracle.ratio(rec, value, terms, jax)
        elif kind == "loglike":
            value = oracle.number(like.log_likelihood(point))
            if cfg["ln_evidences"]:
                if terms["ratio"] > -1e300 or terms["ambiguous"]:
                    oracle.ratio(rec, value - noise, terms, jax, what="log_likelihood")
                else:
                    rec.check(value <= -1e300, "log_likelihood", lambda: f"{value} for a rejected point")
            else:
                rec.check(value is not None and np.isnan(value), "log_likelihood",
                          lambda: f"{value} without evidences")
        elif kind == "both":
            oracle.ln_l_and_variance(rec, like.ln_likelihood_and_variance(point), cfg, terms, jax)
        elif kind == "stats":
            sample = dict(point) if not op["reuse"] else point
            point = dict(point)
            out = like.generate_extra_statistics(sample)
            rec.check(out is sample, "statistics-not-in-place", "the sample was not extended in place")
            oracle.statistics(rec, sample, point, cfg, terms, jax)
        elif kind == "ppd":
            points = op["points"] if op["form"] != "dict" else op["points"][:1]
            weights = oracle.resample_weights(reference, points)
            if not np.all(np.isfinite(weights)):
                rec.probe("undefined-weights-skipped")
                continue
            given = [arranged(cfg, dict(op, mode="plain", extra=False), p) for p in points]
            if op["form"] == "dict":
                given = given[0]
            elif op["form"] == "frame":
                given = pd.DataFrame(given)
            np.random.seed(op["seed"])
            new, got = like.posterior_predictive_resample(given, return_weights=True)
            rec.check(oracle.same(got, weights, 10 * rtol), "ppd-weights",
                      lambda: f"largest difference {np.max(np.abs(np.asarray(got) - weights))}")
            oracle.rows_of(rec, new, snapshot, weights, what="ppd")
        elif kind == "threshold":
            value = op["value"]
            if value in ("below", "above"):
                if not np.isfinite(terms["total"]) or terms["total"] <= 1e-12:
                    value = None
                else:
                    value = float(np.sqrt(terms["total"])) * (0.9 if value == "below" else 1.1)
            like.maximum_uncertainty = np.inf if value is None else value
            reference.max_uncertainty = np.inf if value is None else value
            got = like.maximum_uncertainty
            rec.check(got == reference.max_uncertainty, "maximum_uncertainty", lambda: f"{got} after setting {value}")
            terms = reference.terms(op["point"])
            oracle.ratio(rec, like.log_likelihood_ratio(point), terms, jax)
        elif kind == "rate":
            np.random.seed(op["seed"])
            model_point = reference.convert({**world.fixed_values(cfg["specs"]), **op["point"]})
            rate = oracle.number(like.generate_rate_posterior_sample(model_point)
                                 if not (cfg["selection"]["kind"] == "simple" and cfg["selection"]["variance"]
                                         and cfg["cls"] != "Rate")
                                 else 1.0)
            if cfg["cls"] == "Rate":
                rec.check(rate == op["point"]["rate"], "rate", f"{rate}")
            else:
                rec.check(rate is not None and not rate < 0, "rate", lambda: f"{rate}")
        elif kind == "meta":
            if cfg["wrap"] == "custom" and not hasattr(like.hyper_prior, "models"):
                continue
            meta = like.meta_data
            rec.check(meta["n_events"] == cfg["n_events"], "meta-n_events", str(meta["n_events"]))
            for key, value in snapshot.items():
                rec.check(np.array_equal(np.asarray(meta["data"][key]), value), "meta-data", key)
        previous = kind
    for key, value in snapshot.items():
        rec.check(np.array_equal(np.asarray(like.data[key]), value), "data-changed", key)


def simplify(scn):
    """Smaller configurations to try when minimising."""
    for i in range(len(scn["cfg"]["specs"])):
        if len(scn["cfg"]["specs"]) > 1 and scn["cfg"]["selection"]["kind"] != "grid":
            specs = scn["cfg"]["specs"][:i] + scn["cfg"]["specs"][i + 1:]
            yield dict(scn, cfg=dict(scn["cfg"], specs=specs))
    if scn["cfg"]["selection"]["kind"] != "none":
        yield dict(scn, cfg=dict(scn["cfg"], selection=dict(kind="none")))
    if scn["cfg"]["n_events"] > 1 and not scn["cfg"]["jax"]:
        yield dict(scn, cfg=dict(scn["cfg"], n_events=1))
