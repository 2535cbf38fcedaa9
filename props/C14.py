"""C14: the numpyro model reports what the standard likelihood reports."""
import numpy as np

from props import C03, C12, C13
from sim import oracle, world

SPEC = dict(
    rule="a run is non-trivial if at least two traces of the numpyro model are compared with the reference; runs are "
         "distinct if their scenarios differ",
    state_measure="tuples (component kinds, selection or not, resampling or not, resampled parameters, maximum variance, "
                  "compiled or not, verdict)",
    real=["gwpopulation.experimental.numpyro", "gwpopulation.hyperpe", "gwpopulation.vt", "gwpopulation.models",
          "numpyro handlers", "jax"],
    stub=["the sampler that would drive the model (points and random keys come from the simulator)"],
    assumptions=["convergence enforcement and uncertainty marginalisation of the selection function are not part of the "
                 "numpyro model (as written), so they are switched off in the standard likelihood compared with",
                 "points whose variance is within 1e-6 relative of the maximum may go either way",
                 "draws are tested at a significance of 1e-9 per statistic"],
    quick=dict(runs=240), thorough=dict(runs=12000),
)
ALPHA = 1e-9
DRAWS_EVERY = 9


def generate(rng, tier, idx):
    draws = idx % DRAWS_EVERY == 4
    cheap = draws or rng.random() < 0.6
    cosmo, groups = "Planck15", ["toy", "magnitude", "chi"] if cheap else None
    if not draws and rng.random() < 0.12:
        # the cosmology is sampled too
        cosmo, groups, cheap = rng.choice(["FlatLambdaCDM", "FlatLambdaCDM", "FlatwCDM"]), ["redshift"], False
    cfg = world.likelihood_config(
        rng, jax=True, cosmo=cosmo, cls="Hyper", max_components=2 if cheap else 1, selection="resampling",
        groups=groups, kinds=None)
    if draws:
        cfg["specs"] = [world.component(rng, rng.choice(["toy_gauss", "toy_exp", "toy_tilted"]), small=True)]
        cfg["wrap"] = "model-nocache"
        if cfg["conversion"] == "beta":
            cfg["conversion"] = "default"
    cfg["selection"].update(enforce=False, marginalize=False, share=rng.random() < 0.2,
                            form=rng.choice(["model-nocache", "list"]))
    cfg["max_uncertainty"] = None
    cfg["np_seed"] = rng.getrandbits(32)
    cols = []
    for spec in cfg["specs"]:
        cols += [c for c in spec["cols"] if c not in cols]
    points = world.Points(rng, world.point_names(cfg["specs"]))
    ops = []
    for _ in range(1 if draws else rng.randint(3, 8)):
        point, _ = points.next()
        op = dict(op="trace", point=C03.to_sampled(cfg, point), key=rng.getrandbits(31),
                  selection=rng.random() < 0.75, resample=rng.random() < 0.7,
                  fit=None if rng.random() < 0.5 else rng.sample(cols, rng.randint(1, len(cols))),
                  varmax=rng.choice([None, None, 0.01, 0.1, 1.0, 1, "below", "above"]),
                  mode=rng.choice(["plain", "plain", "np", "array"]), seed=rng.getrandbits(24), extra=False,
                  again=rng.random() < 0.3, compiled=cheap and rng.random() < 0.15, seeded=rng.random() < 0.9,
                  standard=rng.random() < 0.5)
        if draws:
            op.update(selection=True, resample=True, varmax=None, fit=None)
        ops.append(op)
    return dict(cfg=cfg, draws=draws, n=4000 if tier == "quick" else 20000, ops=ops)


def model(like, op, point):
    from gwpopulation.experimental.numpyro import gwpopulation_likelihood_model

    kwargs = {}
    if op.get("varmax_value") is not None:
        kwargs["varmax"] = op["varmax_value"]
    if not op["selection"]:
        kwargs["apply_selection"] = False
    if not op["resample"]:
        kwargs["predictive_resample"] = False
    if op["fit"] is not None:
        kwargs["fit_keys"] = list(op["fit"])
    return gwpopulation_likelihood_model(like, point, **kwargs)


def trace(like, op, point, key):
    """({site: value}, returned value, the distribution of the rate)"""
    from numpyro import handlers

    out = {}

    def call():
        out["returned"] = model(like, op, point)

    with handlers.trace() as sites:
        if key is None:
            call()
        else:
            handlers.seed(call, key)()
    values = {name: site["value"] for name, site in sites.items() if site["type"] in ("deterministic", "sample")}
    fn = sites["rate"]["fn"] if "rate" in sites else None
    return values, out["returned"], fn


def execute(scn, rec):
    import gwpopulation
    import jax

    cfg = scn["cfg"]
    gwpopulation.set_backend("jax")
    np.random.seed(cfg["np_seed"])
    built = world.Built(cfg)
    like = built.like
    reference = world.RefLikelihood(cfg, like.data, like.sampling_prior)
    label = tuple(s["kind"] for s in cfg["specs"])
    caller = world.Caller()
    for op in scn["ops"]:
        op = dict(op)
        rec.step(op["key"], op["selection"], op["resample"], op["fit"], op["varmax"], sorted(op["point"].items()))
        point = caller.give(C03.arranged(cfg, op), op["seed"] % 3 == 0)
        expected = predict(reference, cfg, op)
        if op["varmax"] in ("below", "above"):
            total = expected["variance"]
            op["varmax_value"] = None
            if np.isfinite(total) and total > 1e-9:
                op["varmax_value"] = float(total) * (0.9 if op["varmax"] == "below" else 1.1)
        else:
            op["varmax_value"] = op["varmax"]
        if scn["draws"]:
            many_draws(rec, scn, like, op, point, expected)
            continue
        before = dict(point)
        key = jax.random.PRNGKey(op["key"])
        if not op["seeded"] and not op["selection"]:
            # without random variables the model can also run without a seed
            key = None
        # the first evaluation of a spline model cannot be a compiled one
        if op["compiled"] and key is not None and not any(s["kind"] in C13.SPLINES for s in cfg["specs"]):
            def compiled(key, point):
                values, returned, _ = trace(like, op, point, key)
                return values, returned

            values, returned = jax.jit(compiled)(key, point)
            fn = None
        else:
            values, returned, fn = trace(like, op, point, key)
        rec.check(list(before) == list(point) and all(point[k] is before[k] for k in before), "parameters-changed",
                  lambda: f"{before} became {point}")
        compare(rec, cfg, like, op, values, returned, fn, expected)
        rec.state(label, op["selection"], op["resample"], op["fit"] is None, op["varmax"], op["compiled"],
                  bool(np.isfinite(expected["ln_l"])))
        if op["again"] and not op["compiled"]:
            other, again, _ = trace(like, op, point, key)
            same = set(other) == set(values) and all(
                np.array_equal(np.asarray(other[k]), np.asarray(values[k]), equal_nan=True) for k in values)
            rec.check(same and np.array_equal(np.asarray(again), np.asarray(returned), equal_nan=True), "not-repeatable",
                      "the same key and point gave another trace")
            rec.probe("repeated")
        if op["standard"] and op["selection"]:
            ln_l, variance = like.ln_likelihood_and_variance(C03.arranged(cfg, op))
            size = expected["size"]
            rec.check(oracle.same(float(values["ln_l"]), float(ln_l), 1e-9 * size), "differs-from-standard",
                      lambda: f"{values['ln_l']} and {ln_l}")
            rec.check(oracle.same(float(values["variance"]), float(variance), 1e-7 * expected["scale"]),
                      "variance-differs-from-standard", lambda: f"{values['variance']} and {variance}")


def predict(reference, cfg, op):
    terms = reference.terms(op["point"])
    out = dict(ln_bf=terms["ln_bf"], var=terms["var"], var_scale=terms["var_scale"], size=terms["size"],
               weights=reference.weights(op["point"]), ambiguous=terms["ambiguous"])
    n = cfg["n_events"]
    with np.errstate(all="ignore"):
        if op["selection"]:
            mu, var = reference.efficiency(op["point"])
            out.update(efficiency=mu, selection=-n * np.log(mu), selection_variance=var / mu**2 * n**2,
                       vt=mu * reference.hypervolume(op["point"]), injection_weights=reference.injection_weights(op["point"]),
                       injections=reference.injections)
        else:
            out.update(selection=0.0, selection_variance=0.0)
        out["ln_l"] = float(np.sum(out["ln_bf"]) + out["selection"])
        out["variance"] = float(np.sum(out["var"]) + out["selection_variance"])
        out["scale"] = oracle.variance_scale(cfg, dict(terms, factor_var=out["selection_variance"]))
    out["data"] = reference.data
    return out


def compare(rec, cfg, like, op, values, returned, fn, want):
    rtol = 1e-7
    n = cfg["n_events"]
    values = {k: np.asarray(v, float) for k, v in values.items()}
    names = {"variances", "ln_bayes_factors", "ln_l", "variance"}
    if op["selection"]:
        names |= {"selection", "selection_variance", "rate"}
    if op["resample"]:
        keys = list(want["data"]) if op["fit"] is None else op["fit"]
        names |= {f"{k}_{e}" for k in keys for e in range(n)}
        if op["selection"]:
            rows = {k: np.asarray(v) for k, v in want["injections"].items() if np.ndim(v) > 0}
            names |= {f"{k}_injections" for k in (rows if op["fit"] is None else op["fit"])}
    missing = names - set(values)
    rec.check(not missing, "missing-sites", lambda: f"{sorted(missing)} missing; have {sorted(values)}")
    if op["fit"] is not None:
        extra = {k for k in values if k.split("_")[-1] in [str(i) for i in range(n)] + ["injections"]} - names
        rec.check(not extra, "parameters-not-asked-for", lambda: sorted(extra))
    if want["ambiguous"]:
        return
    with np.errstate(all="ignore"):
        rec.check(oracle.same(values["ln_bayes_factors"], want["ln_bf"],
                              rtol * (1 + np.abs(np.nan_to_num(want["ln_bf"], posinf=0, neginf=0)))),
                  "ln_bayes_factors", lambda: f"got {values['ln_bayes_factors']}, expected {want['ln_bf']}")
        scale = rtol * (want["var_scale"] + 1e-6)
        rec.check(oracle.same(values["variances"], want["var"], np.where(np.isfinite(scale), scale, 0)), "variances",
                  lambda: f"got {values['variances']}, expected {want['var']}")
        rec.check(oracle.same(float(values["ln_l"]), want["ln_l"], rtol * want["size"]), "ln_l",
                  lambda: f"got {values['ln_l']}, expected {want['ln_l']}")
        rec.check(oracle.same(float(values["variance"]), want["variance"], rtol * want["scale"]), "variance",
                  lambda: f"got {values['variance']}, expected {want['variance']}")
        if op["selection"]:
            rec.check(oracle.same(float(values["selection"]), float(want["selection"]), rtol * want["size"]), "selection",
                      lambda: f"got {values['selection']}, expected {want['selection']}")
            rec.check(oracle.same(float(values["selection_variance"]), float(want["selection_variance"]),
                                  rtol * want["scale"]), "selection_variance",
                      lambda: f"got {values['selection_variance']}, expected {want['selection_variance']}")
    verdict(rec, op, float(np.asarray(returned)), want, rtol)
    if op["selection"] and want["vt"] > 0:
        rate = float(values["rate"])
        rec.check(np.isfinite(rate) and rate >= 0, "rate", lambda: f"{rate}")
        if fn is not None:
            mean, var = float(fn.mean), float(fn.variance)
            rec.check(abs(mean * want["vt"] / n - 1) < 1e-6 and abs(var * want["vt"] ** 2 / n - 1) < 1e-6,
                      "rate-distribution",
                      lambda: f"mean {mean} and variance {var}, expected {n / want['vt']} and {n / want['vt'] ** 2}")
            # the whole distribution, not only two moments
            from scipy.stats import gamma

            at = np.array([0.3, 1.0, 2.5]) * n / want["vt"]
            got = np.asarray([float(fn.log_prob(x)) for x in at])
            exp = gamma(a=n, scale=1 / want["vt"]).logpdf(at)
            rec.check(bool(np.all(np.abs(got - exp) < 1e-5 * (1 + np.abs(exp)))), "rate-distribution",
                      lambda: f"log density {got}, expected {exp}")
    if not op["resample"]:
        return
    for event in range(n):
        weights = want["weights"][event]
        columns = {k: v[event] for k, v in want["data"].items()}
        drawn = {k: values[f"{k}_{event}"] for k in (columns if op["fit"] is None else op["fit"])}
        match = find_rows(rec, drawn, columns, (), f"event {event}")
        if np.all(np.isfinite(weights)) and np.sum(weights) > 1e-250:
            rec.check(bool(np.any(match & (weights > 0))), "row-of-zero-weight", lambda: f"event {event}")
    if op["selection"]:
        weights = want["injection_weights"]
        if not (np.all(np.isfinite(weights)) and np.sum(weights) > 1e-250):
            return
        keys = rows if op["fit"] is None else op["fit"]
        match = find_rows(rec, {k: values[f"{k}_injections"] for k in keys}, rows, (n,), "injections")
        index = match.argmax(axis=-1)
        if np.all(match.sum(axis=-1) == 1):
            rec.check(len(set(index.tolist())) == n, "injection-repeated", lambda: f"rows {index.tolist()}")
            if np.sum(weights > 0) >= n:
                rec.check(bool(np.all(weights[index] > 0)), "row-of-zero-weight", "injections")


def find_rows(rec, drawn, columns, shape, what):
    size = len(next(iter(columns.values())))
    match = np.ones(shape + (size,), dtype=bool)
    for key, value in drawn.items():
        rec.check(value.shape == shape, "draw-shape", lambda: f"{what}, {key}: {value.shape} instead of {shape}")
        match &= value[..., None] == np.asarray(columns[key])
    rec.check(bool(np.all(match.any(axis=-1))), "foreign-row",
              lambda: f"{what}: the drawn parameters {drawn} are not from one row")
    return match


def verdict(rec, op, returned, want, rtol):
    from sim import refmodel as ref

    limit = op["varmax_value"]
    if limit is None:
        rec.check(oracle.same(returned, want["ln_l"], rtol * want["size"]), "returned",
                  lambda: f"got {returned}, expected {want['ln_l']}")
        return
    if np.isnan(want["variance"]) and not np.isnan(want["ln_l"]):
        return
    with np.errstate(all="ignore"):
        close = abs(want["variance"] - limit) <= 1e-6 * (limit + want["scale"])
    if close:
        rec.probe("ambiguous")
    elif np.isnan(want["ln_l"]) or want["variance"] > limit:
        rec.check(returned == ref.LOWEST, "not-rejected",
                  lambda: f"returned {returned} for ln_l {want['ln_l']} and variance {want['variance']} > {limit}")
        rec.probe("rejected")
    elif np.isneginf(want["ln_l"]):
        rec.check(returned <= ref.LOWEST, "not-rejected", lambda: f"{returned}")
    else:
        rec.check(oracle.same(returned, want["ln_l"], rtol * want["size"]), "returned",
                  lambda: f"got {returned}, expected {want['ln_l']}")
        rec.probe("accepted")


def merge(columns, weights):
    """Normalised weights; those of equal rows are given to the first of them."""
    table = np.stack([np.asarray(v, float) for v in columns.values()], axis=-1)
    out = np.zeros(len(table))
    for i, row in enumerate(table):
        out[np.all(table == row, axis=-1).argmax()] += weights[i]
    return out / np.sum(out)


def many_draws(rec, scn, like, op, point, want):
    """Distribution of rate and predictive draws over many keys."""
    import jax
    from scipy.stats import binom, gamma, kstest

    cfg, n = scn["cfg"], scn["n"]
    if want["ambiguous"] or not np.all(np.isfinite(want["weights"])):
        return
    keys = jax.random.split(jax.random.PRNGKey(op["key"]), n)
    point = {k: float(v) for k, v in point.items() if isinstance(v, (int, float)) or np.ndim(v) == 0}
    values = jax.jit(jax.vmap(lambda key: trace(like, op, point, key)[0]))(keys)
    values = {k: np.asarray(v, float) for k, v in values.items()}
    rec.step("draws", n)
    events = cfg["n_events"]
    # rate
    scaled = values["rate"] * want["vt"]
    p = kstest(scaled, gamma(a=events).cdf).pvalue
    rec.check(p > ALPHA, "rate-draws", lambda: f"probability {p:.1e}, mean {scaled.mean()}, expected {events}")
    rec.check(len(set(values["rate"].tolist())) > 0.99 * n, "rate-draws-repeated", "different keys give equal rates")
    indices, probability = [], []
    for event in range(events):
        columns = {k: v[event] for k, v in want["data"].items()}
        match = find_rows(rec, {k: values[f"{k}_{event}"] for k in columns}, columns, (n,), f"event {event}")
        index = match.argmax(axis=-1)
        weights = merge(columns, want["weights"][event])
        tail = C12.chi_square(np.bincount(index, minlength=len(weights)), n * weights)
        rec.check(tail > ALPHA, "event-draws", lambda: f"event {event}: probability {tail:.1e}")
        indices.append(index)
        probability.append(weights)
    for a in range(events):
        for b in range(a):
            same = float(probability[a] @ probability[b])
            hits = int(np.sum(indices[a] == indices[b]))
            tail = 2 * min(binom.sf(hits - 1, n, same), binom.cdf(hits, n, same))
            rec.check(tail > ALPHA, "events-not-independent",
                      lambda: f"events {b} and {a}: the same position {hits} times, expected {n * same:.1f}")
    rows = {k: np.asarray(v) for k, v in want["injections"].items() if np.ndim(v) > 0}
    match = find_rows(rec, {k: values[f"{k}_injections"] for k in rows}, rows, (n, events), "injections")
    index = match.argmax(axis=-1)
    for a in range(events if match.sum() == n * events else 0):
        for b in range(a):
            rec.check(bool(np.all(index[:, a] != index[:, b])), "injection-repeated", "an injection was drawn twice")
    weights = merge(rows, want["injection_weights"])
    tail = C12.chi_square(np.bincount(index[:, 0], minlength=len(weights)), n * weights)
    rec.check(tail > ALPHA, "injection-draws", lambda: f"probability {tail:.1e}")
    rec.probe("draws", n)
    rec.state("draws", tuple(s["kind"] for s in cfg["specs"]), cfg["selection"]["form"])


simplify = C03.simplify
