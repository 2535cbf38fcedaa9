"""C12: random draws are seedable, confined and follow the stated distributions."""
import math
import random

import numpy as np

from sim import oracle, userfuncs, world

SPEC = dict(
    rule="a run is non-trivial if it repeats a history of draws at least once or tests the distribution of at least one "
         "kind of draw; runs are distinct if their scenarios differ",
    state_measure="tuples (kind of draw, backend, configuration, preceding operation)",
    real=["gwpopulation.hyperpe", "gwpopulation.vt", "gwpopulation.models", "gwpopulation.utils", "pandas sampling",
          "scipy.stats", "numpy/jax generators"],
    stub=["seeds of numpy's global and Python's generator"],
    assumptions=["distribution tests alarm at a probability below 1e-11 each"],
    quick=dict(runs=360), thorough=dict(runs=20000),
)
JAX_EVERY = 7
ALPHA = 1e-11


def generate(rng, tier, idx):
    jax = idx % JAX_EVERY == JAX_EVERY - 1
    kind = rng.choices(["history", "rows", "rate", "ingest"], [5, 2, 2, 1])[0]
    scn = dict(kind=kind, jax=jax, seed=rng.getrandbits(32), other=rng.getrandbits(32))
    if kind == "history":
        groups = ["toy"] if jax else None
        cfg = world.likelihood_config(rng, jax=jax, groups=groups, cosmo="Planck15" if jax else None, max_components=2)
        if cfg["selection"]["kind"] == "grid" and not world.usable_grid(cfg["selection"], cfg["specs"]):
            cfg["selection"] = dict(kind="constant")
        cfg["conversion"] = "default"
        # enough samples that two different draws never coincide
        cfg["n_events"], cfg["n_samples"] = (3, 16) if jax else (rng.randint(2, 4), rng.randint(25, 40))
        names = world.point_names(cfg["specs"], ["rate"] if cfg["cls"] == "Rate" else [])
        points = world.Points(rng, names)
        ops = []
        for _ in range(5 if jax else rng.randint(4, 14)):
            point, _ = points.next()
            ops.append(dict(op=rng.choice(["construct", "ppd", "ppd", "rate", "rate", "ratio", "both", "stats", "selection",
                                           "model", "loglike", "meta"]), point=point))
        scn.update(cfg=cfg, ops=ops)
    elif kind == "rows":
        scn.update(events=3, samples=16 if jax else rng.choice([8, 20, 50]), repeat=40 if jax else 150,
                   shape=rng.choice(["equal", "varied", "varied", "common"]), ops=[])
    elif kind == "rate":
        scn.update(events=rng.choice([1, 2, 3, 4, 8]), repeat=120 if jax else 900, selection=rng.choice(
            ["resampling", "resampling", "redshift", "value", "pair"]), jax=jax,
            points=[rng.uniform(0.3, 3) for _ in range(3)], ops=[])
    else:
        scn.update(sizes=[rng.randint(5, 14), rng.randint(5, 14)], limit=rng.choice([None, 3]), repeat=400, jax=False, ops=[])
    return scn


def state():
    """Fingerprint of every generator a library could share."""
    name, key, pos, gauss, cached = np.random.get_state()
    return name, key.tobytes(), pos, gauss, cached, random.getstate()


def execute(scn, rec):
    import gwpopulation

    gwpopulation.set_backend("jax" if scn["jax"] else "numpy")
    saved = random.getstate()
    try:
        globals()["run_" + scn["kind"]](scn, rec)
    finally:
        random.setstate(saved)


# ------------------------------------------------------------------ histories


DRAWING = ("construct", "ppd", "rate")


def history(scn, rec, seed, skip_evaluations, watch):
    """Perform the operations; returns the draws in order."""
    cfg = scn["cfg"]
    np.random.seed(seed)
    random.seed(seed)
    draws = []
    built = world.Built(cfg)
    like = built.like
    draws.append(("construct", {k: np.asarray(v) for k, v in like.data.items()}))
    fixed = world.fixed_values(cfg["specs"])
    probe_data = {k: v for k, v in like.data.items()}
    for op in scn["ops"]:
        kind = op["op"]
        point = {**fixed, **op["point"]}
        if skip_evaluations and kind not in DRAWING:
            continue
        rec.step(kind)
        before = state()
        if kind == "construct":
            like = world.Built(cfg, frames=built.frames).like
            draws.append((kind, {k: np.asarray(v) for k, v in like.data.items()}))
        elif kind == "ppd":
            reference = world.RefLikelihood(cfg, like.data, like.sampling_prior)
            weights = oracle.resample_weights(reference, [op["point"]])
            if not np.all(np.isfinite(weights)):
                continue
            new = like.posterior_predictive_resample([point])
            # two draws of weights concentrated in a few rows may coincide
            with np.errstate(all="ignore"):
                entropy = -np.sum(np.where(weights > 0, weights * np.log2(weights), 0)) * weights.shape[1]
            draws.append((kind if entropy > 100 else "ppd-certain", {k: np.asarray(v) for k, v in new.items()}))
        elif kind == "rate":
            value = oracle.number(like.generate_rate_posterior_sample(point))
            draws.append((kind, value))
        else:
            if kind == "ratio":
                like.log_likelihood_ratio(point)
            elif kind == "loglike":
                like.log_likelihood(point)
            elif kind == "both":
                like.ln_likelihood_and_variance(point)
            elif kind == "stats":
                like.generate_extra_statistics(dict(point))
            elif kind == "selection":
                if built.selection is not None:
                    like.selection_function(dict(point))
            elif kind == "meta":
                if hasattr(like.hyper_prior, "models"):
                    like.meta_data
            else:
                like.hyper_prior.prob(probe_data, **point)
            rec.check(state() == before, "evaluation-draws", lambda: f"{kind} changed the state of a random generator")
        if watch and kind in DRAWING and not (kind == "rate" and cfg["cls"] == "Rate"):
            rec.probe("drawing-operations")
        rec.state(kind, scn["jax"], cfg["cls"], cfg["selection"]["kind"], draws[-1][0])
    if watch:
        seeded_again(scn, rec, like, fixed)
    return draws


def seeded_again(scn, rec, like, fixed):
    """Draws of one likelihood whose process is seeded again, with and without evaluations in between."""
    ops = [op for op in scn["ops"] if op["op"] in ("ppd", "rate")][:4]
    passes = []
    for number in range(3):
        np.random.seed(scn["other"])
        random.seed(scn["other"])
        got = []
        for op in ops:
            point = {**fixed, **op["point"]}
            if number == 1:
                like.log_likelihood_ratio(dict(point))
            if op["op"] == "rate":
                got.append(oracle.number(like.generate_rate_posterior_sample(point)))
                continue
            reference = world.RefLikelihood(scn["cfg"], like.data, like.sampling_prior)
            if not np.all(np.isfinite(oracle.resample_weights(reference, [op["point"]]))):
                continue
            new = like.posterior_predictive_resample([point])
            got.append({k: np.asarray(v) for k, v in new.items()})
        passes.append(got)
    for number in (1, 2):
        for i, (a, b) in enumerate(zip(passes[0], passes[number])):
            rec.check(identical(a, b), "not-repeatable-same-object",
                      lambda: f"draw {i} of one likelihood differs after the same seed")


def identical(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a)
    return a == b or (a != a and b != b)


def run_history(scn, rec):
    first = history(scn, rec, scn["seed"], False, True)
    second = history(scn, rec, scn["seed"], False, False)
    third = history(scn, rec, scn["seed"], True, False)
    fourth = history(scn, rec, scn["other"], False, False)
    for name, again in (("seed", second), ("evaluations", third)):
        rec.check([k for k, _ in first] == [k for k, _ in again], f"not-repeatable-{name}", "different operations")
        for i, ((kind, a), (_, b)) in enumerate(zip(first, again)):
            rec.check(identical(a, b), f"not-repeatable-{name}",
                      lambda: f"draw {i} ({kind}) differs although the seed is the same"
                              + (" (only evaluations were left out)" if name == "evaluations" else ""))
    certain = ("ppd-certain",)
    for i, ((kind, a), (other, b)) in enumerate(zip(first, fourth)):
        if kind in certain or other in certain or (kind == "rate" and scn["cfg"]["cls"] == "Rate"):
            continue
        if kind == "rate" and not np.isfinite(a) or kind == "rate" and a == 0:
            continue
        rec.check(not identical(a, b), "seed-ignored", lambda: f"draw {i} ({kind}) is the same for two seeds")
    # successive draws at the same point differ
    for i in range(len(first)):
        for j in range(i):
            if first[i][0] == first[j][0] and first[i][0] not in certain:
                if first[i][0] == "rate" and (scn["cfg"]["cls"] == "Rate" or not np.isfinite(first[i][1]) or not first[i][1]):
                    continue
                rec.check(not identical(first[i][1], first[j][1]), "draw-repeated",
                          lambda: f"draws {j} and {i} ({first[i][0]}) are identical")


# ------------------------------------------------------------------ distributions


def chi_square(counts, expected):
    """Two-sided tail probability of Pearson's statistic (cells with small expectation are merged)."""
    from scipy.stats import chi2

    order = np.argsort(expected)
    cells, have, want = [], 0.0, 0.0
    for i in order:
        have += counts[i]
        want += expected[i]
        if want >= 12:
            cells.append((have, want))
            have = want = 0.0
    if cells and want:
        cells[-1] = (cells[-1][0] + have, cells[-1][1] + want)
    if len(cells) < 2:
        return 1.0
    value = sum((h - w) ** 2 / w for h, w in cells)
    dof = len(cells) - 1
    return 2 * min(chi2.sf(value, dof), chi2.cdf(value, dof))


def run_rows(scn, rec):
    """Resampled rows occur in proportion to their weights, independently between positions and events."""
    import pandas as pd
    from gwpopulation.hyperpe import HyperparameterLikelihood
    from scipy.stats import binom

    gen = world.np_gen(scn["seed"])
    events, samples = scn["events"], scn["samples"]
    frames = [pd.DataFrame(dict(row=np.arange(samples) + 1000.0 * e, prior=gen.uniform(0.5, 2, samples)))
              for e in range(events)]
    weights = gen.uniform(0.5, 1.5, (events, samples))
    if scn["shape"] == "varied":
        weights = np.exp(gen.normal(0, 1, (events, samples)))
    elif scn["shape"] == "common":
        weights = np.broadcast_to(np.exp(gen.normal(0, 1, samples)), (events, samples)).copy()
    table = {}
    np.random.seed(scn["seed"])
    like = HyperparameterLikelihood(frames, userfuncs.TablePrior(table))
    prior = np.asarray(like.sampling_prior)
    target = weights * (prior if scn["shape"] == "common" else 1)
    table[0] = target
    if scn["jax"]:
        import jax.numpy as jnp

        table[0] = jnp.asarray(target)
    p = target / prior
    p /= p.sum(axis=-1, keepdims=True)
    ids = np.asarray(like.data["row"])
    order = [{float(v): i for i, v in enumerate(ids[e])} for e in range(events)]
    indices = np.empty((scn["repeat"], events, samples), dtype=int)
    for r in range(scn["repeat"]):
        rec.step()
        new = np.asarray(like.posterior_predictive_resample([dict(case=0)])["row"])
        for e in range(events):
            indices[r, e] = [order[e].get(float(v), -1) for v in new[e]]
    rec.check(bool(np.all(indices >= 0)), "foreign-row", "a resampled row is not a row of its event")
    n = scn["repeat"] * samples
    for e in range(events):
        counts = np.bincount(indices[:, e].ravel(), minlength=samples)
        tail = chi_square(counts, n * p[e])
        rec.check(tail > ALPHA, "row-frequencies",
                  lambda: f"event {e}: probability {tail:.2e}; counts {counts.tolist()[:10]}, "
                          f"expected {np.round(n * p[e], 1).tolist()[:10]}")
        # independence of successive positions and successive draws
        same = p[e] @ p[e]
        for what, hits, tries in (
                ("positions", np.sum(indices[:, e, 1:] == indices[:, e, :-1]), scn["repeat"] * (samples - 1)),
                ("draws", np.sum(indices[1:, e] == indices[:-1, e]), (scn["repeat"] - 1) * samples)):
            tail = 2 * min(binom.sf(hits - 1, tries, same), binom.cdf(hits, tries, same))
            # neighbouring coincidences are weakly dependent: a generous threshold
            rec.check(tail > 1e-16, "row-dependence", lambda: f"event {e}, {what}: {hits} coincidences in {tries}, "
                                                              f"expected {tries * same:.1f}")
    for e in range(1, events):
        hits = np.sum(indices[:, e] == indices[:, 0])
        same = p[e] @ p[0]
        tail = 2 * min(binom.sf(hits - 1, n, same), binom.cdf(hits, n, same))
        rec.check(tail > 1e-13, "event-dependence",
                  lambda: f"events 0 and {e}: the same position drawn {hits} times, expected {n * same:.1f}")
    rec.state("rows", scn["jax"], scn["shape"], samples)


def run_rate(scn, rec):
    """Rate draws are Gamma(number of events, 1 / sensitive volume)."""
    import pandas as pd
    from bilby.hyper.model import Model
    from gwpopulation.hyperpe import HyperparameterLikelihood
    from gwpopulation.models.redshift import PowerLawRedshift
    from gwpopulation.vt import ResamplingVT
    from scipy.stats import gamma, kstwo

    jax = scn["jax"]
    gen = world.np_gen(scn["seed"])
    frames = [pd.DataFrame(dict(y=gen.exponential(size=4))) for _ in range(scn["events"])]
    kwargs, volume = {}, None
    spec = world.component(random.Random(scn["seed"]), "PowerLawRedshift", cosmo="Planck15")
    if scn["selection"] in ("resampling", "redshift"):
        injections = dict(y=gen.exponential(size=100), redshift=gen.uniform(0.01, 2, 100), prior=gen.uniform(0.2, 1, 100))
        plain = {k: v.copy() for k, v in injections.items()}
        injections = dict(world.as_backend(injections, jax), total_generated=170, analysis_time=0.7)
        models = [userfuncs.toy_exp]
        specs = [dict(kind="toy_exp", cfg={}, fixed={}, params=["tau"])]
        if scn["selection"] == "redshift":
            models.append(PowerLawRedshift(z_max=spec["cfg"]["z_max"]))
            specs.append(spec)
        kwargs["selection_function"] = ResamplingVT(Model(models, cache=False), injections, n_events=scn["events"],
                                                    enforce_convergence=False)

        def volume(tau):
            from sim import refmodel as ref

            point = dict(tau=tau, lamb=1.2)
            weights = world.ref_product(specs, plain, point) / plain["prior"]
            efficiency = weights.sum() / 170
            if scn["selection"] == "redshift":
                total = ref.redshift_norm("PowerLawRedshift", dict(lamb=1.2), spec["cfg"]) / 1e9 * 0.7
            else:
                total = ref.four_volume(0, 0.7)
            return efficiency * total
    else:
        values = [float(v) for v in gen.uniform(0.05, 5, 3)]
        lookup = dict(zip(scn["points"], values))
        pair = scn["selection"] == "pair"

        def select(parameters):
            value = lookup[parameters["tau"]]
            return (value, value**2 * 1e-3) if pair else value

        kwargs["selection_function"] = select
        volume = lookup.get
    np.random.seed(scn["seed"])
    like = HyperparameterLikelihood(frames, userfuncs.toy_exp, **kwargs)
    uniform = []
    draws = []
    for i in range(scn["repeat"]):
        rec.step()
        tau = scn["points"][i % 3]
        value = oracle.number(like.generate_rate_posterior_sample(dict(tau=tau, lamb=1.2)))
        rec.check(value is not None and value >= 0 and np.isfinite(value), "rate-value", lambda: f"{value}")
        draws.append(value)
        uniform.append(float(gamma.cdf(value * volume(tau), a=scn["events"])))
    u = np.sort(uniform)
    n = len(u)
    distance = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
    tail = float(kstwo.sf(distance, n))
    rec.check(tail > ALPHA, "rate-distribution",
              lambda: f"{scn['events']} events: Kolmogorov-Smirnov distance {distance:.3f} of {n} draws, "
                      f"probability {tail:.2e}, mean quantile {np.mean(u):.3f}")
    # mean and spread of the quantiles are more sensitive to a wrong shape parameter
    z = (np.mean(u) - 0.5) * math.sqrt(12 * n)
    rec.check(abs(z) < 7, "rate-mean", lambda: f"mean quantile {np.mean(u):.4f} of {n} draws is {z:.1f} sigma from 1/2")
    v = (np.asarray(uniform) - 0.5) ** 2
    z = (np.mean(v) - 1 / 12) / math.sqrt((1 / 80 - 1 / 144) / n)
    rec.check(abs(z) < 8, "rate-spread", lambda: f"spread of the quantiles is {z:.1f} sigma off")
    rec.check(len(set(draws)) == len(draws), "rate-repeated", "two rate draws are identical")
    rec.state("rate", jax, scn["selection"], scn["events"])


def run_ingest(scn, rec):
    """Every row of a posterior is equally likely to be kept, at every position."""
    import pandas as pd
    from gwpopulation.hyperpe import HyperparameterLikelihood

    frames = [pd.DataFrame(dict(y=np.arange(size) + 100.0 * e)) for e, size in enumerate(scn["sizes"])]
    kwargs = {} if scn["limit"] is None else dict(max_samples=scn["limit"])
    kept = min(scn["sizes"] + ([scn["limit"]] if scn["limit"] else []))
    every = [np.zeros(size) for size in scn["sizes"]]
    np.random.seed(scn["seed"])
    for _ in range(scn["repeat"]):
        rec.step()
        data = np.asarray(HyperparameterLikelihood(frames, userfuncs.toy_exp, **kwargs).data["y"])
        for e in range(2):
            rows = (data[e] - 100 * e).astype(int)
            every[e][rows] += 1
    for e, size in enumerate(scn["sizes"]):
        want = scn["repeat"] * kept / size
        sigma = math.sqrt(max(want * (1 - kept / size), 1e-12))
        worst = float(np.max(np.abs(every[e] - want)))
        rec.check(worst <= 8 * sigma + 1e-9, "ingestion-not-uniform",
                  lambda: f"event {e}: rows kept {every[e].astype(int).tolist()}, expected {want:.0f} each")
    rec.state("ingest", tuple(scn["sizes"]), scn["limit"])
