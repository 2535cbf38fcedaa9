"""C08: undefined or too uncertain likelihood estimates are always rejected, others never."""
import numpy as np

from sim import oracle, userfuncs
from sim import refmodel as ref
from sim import world

SPEC = dict(
    rule="a run is non-trivial if it evaluates at least one point with a numerical fault and one without; runs are "
         "distinct if their scenarios differ",
    state_measure="tuples (likelihood class, backend and compilation, faults of this point, verdict for this and the "
                  "previous point)",
    real=["gwpopulation.hyperpe", "gwpopulation.utils", "gwpopulation.experimental.jax", "bilby.hyper.model.Model",
          "numpy/jax"],
    stub=["population model and selection function (tables of scripted outputs)"],
    assumptions=["if double precision over- or underflows where exact arithmetic does not, either verdict is accepted",
                 "a NaN variance of a defined estimate may be accepted or rejected; an infinite estimate only has to be "
                 "reported as a finite number"],
    level="fault_enumeration",
    quick=dict(runs=3200), thorough=dict(runs=80000),
)
VALUES = [float("nan"), float("inf"), float("-inf"), 0.0, -1.0, 1e308, 1e200, 1e160, 1e-320, 1e-200, 1e-160, -1e-5]


def enc(value):
    """JSON has no NaN."""
    return repr(float(value))


def generate(rng, tier, idx):
    mode = "numpy"
    if idx % 9 == 7:
        mode = "jax"
    elif idx % 9 == 3:
        mode = "jit"
    events = 2 if mode != "numpy" else rng.randint(1, 4)
    samples = 4 if mode != "numpy" else rng.choice([1, 2, 4, 9])
    cls = rng.choice(["Hyper", "Hyper", "Rate", "Null"])
    selection = rng.choice(["none", "value", "pair", "pair"])
    cfg = dict(mode=mode, events=events, samples=samples, cls=cls, selection=selection, seed=rng.getrandbits(32),
               spread=rng.choice([0.0, 0.1, 1.0, 3.0]), prior=rng.random() < 0.7,
               prior_faults=[], wrap=rng.choice(["custom", "model", "model-nocache"]) if mode == "numpy" else
               rng.choice(["custom", "model-nocache"]),
               max_uncertainty=enc(rng.choice([np.inf, np.inf, 0.1, 1.0, 3.0, 10.0, 0.0, 1, 2])),
               scale=10 ** rng.uniform(-3, 3))
    if cfg["prior"] and rng.random() < 0.25:
        cfg["prior_faults"] = [[rng.randrange(events), rng.randrange(samples),
                                enc(rng.choice([0.0, float("nan"), float("inf"), 1e-320, 1e308, -1.0]))]]
    ops = []
    for _ in range(4 if mode != "numpy" else rng.randint(4, 20)):
        op = dict(op="point", faults=[], rate=rng.uniform(0.5, 20), form=rng.choice(["float", "np", "array"]),
                  call=rng.choice(["ratio", "ratio", "ratio", "both"]), threshold=None)
        if rng.random() < 0.55:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                where = rng.choice(["sample", "sample", "event", "all", "selection", "variance", "rate"])
                if where in ("selection", "variance") and selection == "none":
                    where = "sample"
                if where == "variance" and selection != "pair":
                    where = "event"
                if where == "rate" and cls != "Rate":
                    where = "all"
                op["faults"].append([where, rng.randrange(events), rng.randrange(samples), enc(rng.choice(VALUES))])
        if rng.random() < 0.12 and mode != "jit":
            op["threshold"] = enc(rng.choice([np.inf, 0.1, 1.0, 3.0, 0.0]))
        elif rng.random() < 0.3 and mode != "jit":
            op["threshold"] = rng.choice(["below", "above"])
        ops.append(op)
    return dict(cfg=cfg, ops=ops)


def flush(value):
    """Subnormal numbers count as zero (jax on CPU)."""
    return np.where(np.abs(value) < np.finfo(np.float64).tiny, np.float64(0), value)[()]


def keep(value):
    return value


def estimate(table, prior, selection, variance, rate, cls, fl=keep):
    """(ln_l, total variance, sizes) with the precision of the arguments."""
    with np.errstate(all="ignore"):
        weights = fl(fl(table) / fl(prior))
        n = weights.shape[0]
        mean = fl(np.mean(weights, axis=-1))
        square = fl(np.mean(fl(weights**2), axis=-1))
        var = fl(square - fl(mean**2)) / fl(weights.shape[1] * fl(mean**2))
        scale = float(np.nansum(square / (weights.shape[1] * mean**2)))
        selection, variance, rate = fl(selection), fl(variance), fl(rate)
        if cls == "Rate":
            factor = -fl(selection * rate) + n * np.log(rate)
            factor_var = fl(fl(selection * rate) * variance) / fl(selection**2)
        else:
            factor = -n * np.log(selection)
            factor_var = n**2 * (variance / fl(selection**2))
        ln_l = np.sum(np.log(mean)) + factor
        total = np.sum(var) + factor_var
        size = float(np.nansum(np.abs(np.log(np.abs(mean)))) + abs(factor))
    if cls == "Null":
        ln_l = type(ln_l)(0)
    return ln_l, total, size if np.isfinite(size) else 1.0, scale if np.isfinite(scale) else 0.0


def verdict(ln_l, total, limit, slack):
    """'low', 'value', 'finite' (any finite number) or 'either'."""
    if np.isnan(ln_l):
        return "low"
    if np.isnan(total):
        if ln_l == -np.inf:
            return "low"
        return "either" if np.isfinite(limit) and np.isfinite(ln_l) else ("value" if np.isfinite(ln_l) else "finite")
    if np.isfinite(limit) and total > limit**2 + slack:
        return "low"
    if np.isfinite(limit) and total > limit**2 - slack and not (total == 0 and slack == 0):
        return "either" if np.isfinite(ln_l) else "finite"
    if ln_l == -np.inf:
        return "low"
    if ln_l == np.inf:
        return "finite"
    return "value"


def execute(scn, rec):
    import gwpopulation
    import pandas as pd
    from bilby.hyper.model import Model
    from gwpopulation import hyperpe

    cfg = scn["cfg"]
    jax = cfg["mode"] != "numpy"
    gwpopulation.set_backend("jax" if jax else "numpy")
    gen = world.np_gen(cfg["seed"])
    events, samples, count = cfg["events"], cfg["samples"], len(scn["ops"])
    table = np.exp(cfg["spread"] * gen.normal(size=(count, events, samples))) * cfg["scale"]
    values = gen.uniform(0.05, 0.9, count)
    variances = values**2 * 10 ** gen.uniform(-6, -2, count)
    rates = [op["rate"] for op in scn["ops"]]
    for case, op in enumerate(scn["ops"]):
        for where, event, sample, value in op["faults"]:
            value = float(value)
            if where == "sample":
                table[case, event, sample] = value
            elif where == "event":
                table[case, event] = value
            elif where == "all":
                table[case] = value
            elif where == "selection":
                values[case] = value
            elif where == "variance":
                variances[case] = value
            else:
                rates[case] = value
    frames = []
    for event in range(events):
        frame = dict(index=np.arange(samples) + 100.0 * event)
        if cfg["prior"]:
            frame["prior"] = gen.uniform(0.2, 2, samples)
            for e, s, value in cfg["prior_faults"]:
                if e == event:
                    frame["prior"][s] = float(value)
                    rec.fault("prior-" + value)
        frames.append(pd.DataFrame(frame))
    given = table
    if jax:
        import jax.numpy as jnp

        given = jnp.asarray(table)
    prior = userfuncs.TablePrior(given)
    if cfg["wrap"] != "custom":
        prior = Model([userfuncs.TableFunction(given)], cache=cfg["wrap"] == "model")
    kwargs = {}
    limit = float(cfg["max_uncertainty"])
    if np.isfinite(limit):
        kwargs["maximum_uncertainty"] = int(limit) if limit in (1, 2) else limit
    if cfg["selection"] != "none":
        pair = cfg["selection"] == "pair"
        if jax:
            kwargs["selection_function"] = userfuncs.TableSelection(
                jnp.asarray(values), jnp.asarray(variances) if pair else None)
        else:
            kwargs["selection_function"] = userfuncs.TableSelection(
                values, variances if pair else None, [op["form"] for op in scn["ops"]])
    cls = dict(Hyper=hyperpe.HyperparameterLikelihood, Rate=hyperpe.RateLikelihood,
               Null=hyperpe.NullHyperparameterLikelihood)[cfg["cls"]]
    np.random.seed(cfg["seed"] & 0xFFFF)
    like = cls(frames, prior, **kwargs)
    evaluate = like
    if cfg["mode"] == "jit":
        from gwpopulation.experimental.jax import JittedLikelihood

        evaluate = JittedLikelihood(like)
    sampling_prior = np.asarray(like.sampling_prior, float)
    previous = None
    for case, op in enumerate(scn["ops"]):
        rec.step("point", case, op["faults"], op["threshold"])
        for where, _, _, value in op["faults"]:
            rec.fault(f"{where}={value}")
        selection, variance = (values[case], variances[case]) if cfg["selection"] != "none" else (1.0, 0.0)
        if cfg["selection"] != "pair":
            variance = 0.0
        with np.errstate(all="ignore"):
            long, double = np.longdouble, np.float64
            exact = estimate(long(table[case]), long(sampling_prior), long(selection), long(variance),
                             long(rates[case]), cfg["cls"])
            options = [exact, estimate(table[case], sampling_prior, double(selection), double(variance),
                                       double(rates[case]), cfg["cls"])]
            if jax:
                options.append(estimate(table[case], sampling_prior, double(selection), double(variance),
                                        double(rates[case]), cfg["cls"], flush))
        if op["threshold"] is not None:
            total = float(exact[1])
            if op["threshold"] in ("below", "above"):
                if np.isfinite(total) and total > 1e-9:
                    limit = float(np.sqrt(total)) * (0.95 if op["threshold"] == "below" else 1.05)
            else:
                limit = float(op["threshold"])
            like.maximum_uncertainty = limit
        slack = 1e-9 * ((limit**2 if np.isfinite(limit) else 0) + exact[3] + abs(np.nan_to_num(float(exact[1]), posinf=0, neginf=0)))
        if samples == 1 and limit == 0 and float(exact[1]) == 0:
            slack = 0  # exact also in double precision
        verdicts = {verdict(e[0], e[1], limit, slack) for e in options}
        point = dict(case=case)
        if cfg["cls"] == "Rate":
            point["rate"] = rates[case]
        if op["call"] == "both":
            pair = like.ln_likelihood_and_variance(dict(point))
            rec.check(len(pair) == 2, "pair", repr(pair))
        result = evaluate.log_likelihood_ratio(dict(point))
        value = oracle.number(result)
        rec.log(repr(value), sorted(verdicts))
        rec.check(value is not None and np.isfinite(value), "not-finite",
                  lambda: f"{value} for faults {op['faults']}, ln_l={exact[0]}, variance={exact[1]}, limit={limit}")
        if verdicts == {"low"}:
            rec.check(value == ref.LOWEST, "not-rejected",
                      lambda: f"{value} for ln_l={exact[0]}, variance={exact[1]}, limit={limit}")
        elif verdicts == {"value"}:
            expected = float(exact[0])
            denormal = any("e-3" in f[3] or "e-2" in f[3] for f in op["faults"]) or cfg["prior_faults"]
            atol = (1e-3 if denormal else 1e-8) * (1 + exact[2])  # subnormal numbers have few digits
            rec.check(oracle.same(value, expected, atol), "wrongly-rejected" if value < -1e300 else "value",
                      lambda: f"{value} instead of {expected}, variance={exact[1]}, limit={limit}, previous {previous}")
        else:
            rec.probe("either-verdict")
        rec.probe("rejected" if value < -1e300 else "accepted")
        now = value < -1e300
        rec.state(cfg["cls"], cfg["mode"], cfg["selection"], tuple((f[0], f[3]) for f in op["faults"]), now, previous)
        previous = now
