"""C05: selection estimates depend only on the point, the settings and the injections."""
import numpy as np

from sim import oracle, world

SPEC = dict(
    rule="a run is non-trivial if it makes at least two evaluations of one selection function and compares at least one "
         "estimate; runs are distinct if their scenarios differ",
    state_measure="tuples (models, settings, converged or not now and before, operation)",
    real=["gwpopulation.vt", "gwpopulation.models", "gwpopulation.utils", "bilby.hyper.model.Model", "wcosmo",
          "cached_interpolate", "numpy/jax"],
    stub=["user population functions (sim/userfuncs.py)"],
    assumptions=["injection arrays are not modified in place by the caller",
                 "estimates within 1e-6 relative of the convergence criterion may go either way"],
    quick=dict(runs=1080), thorough=dict(runs=40000),
)
JAX_EVERY = 9


def generate(rng, tier, idx):
    jax = idx % JAX_EVERY == JAX_EVERY - 1
    kind = "grid" if rng.random() < 0.3 else "resampling"
    for _ in range(30):
        cfg = world.likelihood_config(rng, large=True, jax=jax, selection=kind, cosmo="Planck15" if jax else None,
                                      max_components=2 if jax or kind == "grid" else 3)
        if cfg["selection"]["kind"] == "grid" and not world.usable_grid(cfg["selection"], cfg["specs"]):
            continue
        if cfg["selection"]["kind"] == kind:
            break
    else:
        cfg = world.likelihood_config(rng, large=True, jax=jax, selection="resampling", groups=["toy"])
    cfg["conversion"] = "default"
    sel = cfg["selection"]
    if sel["kind"] == "resampling" and not jax:
        sel["n"] = rng.choice([1, 2, 5, 20, 60, 150, 300] * 4 + [2049, 10007])
        sel["factor"] = rng.choice([1, 1.3, 4, 40])
    points = world.Points(rng, world.point_names(cfg["specs"]))
    ops = []
    reuse = rng.choice([0, 0.3, 0.8])
    for _ in range(rng.randint(3, 6) if jax else rng.randint(5, 30)):
        point, move = points.next()
        if sel["kind"] == "grid":
            name = "call"
        else:
            name = rng.choices(["call", "efficiency", "factor", "volume", "criterion", "n_events", "enforce",
                                "marginalize", "caller"], [8, 3, 2, 2, 1, 3, 1.5, 1, 0.5])[0]
        op = dict(op=name, point=point, move=move, mode=rng.choice(["plain", "plain", "np", "array"]),
                  seed=rng.getrandbits(24), extra=rng.random() < 0.2, reuse=rng.random() < reuse)
        if name == "n_events":
            op["value"] = rng.choice(["below", "above", "below", "above", 1, 3, 100, None])
        elif name in ("enforce", "marginalize"):
            op["value"] = rng.random() < 0.5
        ops.append(op)
    return dict(cfg=cfg, lists=rng.random() < 0.2, ops=ops)


def execute(scn, rec):
    import gwpopulation

    cfg = scn["cfg"]
    jax, sel = cfg["jax"], cfg["selection"]
    gwpopulation.set_backend("jax" if jax else "numpy")
    rtol, _ = world.tolerances(jax)
    mode_ok = jax and (sel.get("form") in ("list", "model-cache") or sel["kind"] == "grid")
    if sel["kind"] == "resampling" and scn["lists"] and not jax:
        data = {k: (v.tolist() if np.ndim(v) else v) for k, v in world.injection_data(sel, cfg["specs"]).items()}
        from gwpopulation.vt import ResamplingVT

        kwargs = {}
        if sel["n_events"] is not None:
            kwargs["n_events"] = cfg["n_events"] if sel["n_events"] == "match" else sel["n_events"]
        vt = ResamplingVT(
            world.wrap_models([world.build(s) for s in cfg["specs"]], sel["form"]), data,
            marginalize_uncertainty=sel["marginalize"], enforce_convergence=sel["enforce"], **kwargs)
    else:
        vt, data = world.build_selection(sel, cfg["specs"], cfg["n_events"], jax)
    reference = world.RefLikelihood(cfg, {}, 1.0)
    before = None
    caller = world.Caller()
    label = tuple(s["kind"] for s in cfg["specs"]) + (sel["kind"], jax)
    for op in scn["ops"]:
        kind = op["op"]
        rec.step(kind, op.get("value"), sorted(op["point"].items()))
        point = world.arrange({**world.fixed_values(cfg["specs"]), **op["point"]}, op["seed"],
                              "plain" if mode_ok else op["mode"], jax=jax, extra=op["extra"])
        point = caller.give(point, op["reuse"], op["move"])
        if sel["kind"] == "grid":
            expected, _, _ = reference.selection(op["point"])
            got = oracle.number(vt(point))
            rec.log(repr(got))
            rec.check(got is not None and oracle.same(got, expected, rtol * abs(expected)), "grid-integral",
                      lambda: f"got {got}, expected {expected}")
            rec.state(label, op["move"])
            continue
        mu, var = reference.efficiency(op["point"])
        weights = reference.injection_weights(op["point"])
        total = reference.total_injections()
        with np.errstate(all="ignore"):
            var_scale = float(np.sum(weights**2) / total**2 + mu**2 / total)
        settings = reference.settings
        if kind == "n_events":
            value = op["value"]
            if value in ("below", "above"):
                if not (var > 1e-9 * mu**2 / total and mu > 0):
                    continue
                value = mu**2 / var / 4 * (0.93 if value == "below" else 1.07)
            settings["n_events"] = np.inf if value is None else value
            vt.n_events = settings["n_events"]
        elif kind == "enforce":
            settings["enforce"] = vt.enforce_convergence = op["value"]
        elif kind == "marginalize":
            settings["marginalize"] = vt.marginalize_uncertainty = op["value"]
        elif kind == "caller":
            # the caller reuses its dictionary for something else
            for key in list(data):
                if key not in ("total_generated", "analysis_time"):
                    data[key] = None
            data.clear()
        if kind == "efficiency":
            got = vt.detection_efficiency(point)
            check_pair(rec, got, mu, var, var_scale, rtol, "efficiency")
        elif kind == "volume":
            expected = reference.hypervolume(op["point"])
            got = oracle.number(vt.surveyed_hypervolume(point))
            rec.check(got is not None and oracle.same(got, expected, 10 * rtol * expected), "hypervolume",
                      lambda: f"got {got}, expected {expected}")
        elif kind == "criterion":
            for factor in (0.9, 1.1):
                if settings["n_events"] == np.inf:
                    limit = 0.5
                    good = False
                else:
                    limit = 0.25 / 4 / settings["n_events"] * factor
                    good = factor < 1
                got = vt.check_convergence(0.5, limit)
                rec.check(bool(got[0]) == good, "check_convergence", lambda: f"{got} for {limit}, {settings}")
                rec.check(oracle.number(got[1]) == (0.0 if good else np.inf), "check_convergence-correction",
                          lambda: f"{got}")
        elif kind == "factor":
            saved = settings["marginalize"]
            settings["marginalize"] = True
            expected, _, ambiguous = reference.resampled(mu, var)
            settings["marginalize"] = saved
            got = oracle.number(vt.vt_factor(point))
            if not ambiguous and not tiny(mu, var, var_scale):
                scale = rtol * abs(np.nan_to_num(expected, posinf=0)) * (1 + amplification(settings, mu, var_scale))
                rec.check(oracle.same(got, expected, scale), "vt_factor", lambda: f"got {got}, expected {expected}")
        else:
            result = vt(point)
            expected, expected_var, ambiguous = reference.resampled(mu, var)
            converged = bool(np.isfinite(expected))
            rec.state(label, settings["enforce"], settings["marginalize"], converged, before)
            before = converged
            rec.probe("converged" if converged else "unconverged")
            if settings["marginalize"]:
                got = oracle.number(result)
                if not ambiguous and not tiny(mu, var, var_scale):
                    scale = rtol * abs(np.nan_to_num(expected, posinf=0)) * (1 + amplification(settings, mu, var_scale))
                    rec.check(got is not None and oracle.same(got, expected, scale), "marginalised",
                              lambda: f"got {got}, expected {expected}, {settings}")
            else:
                rec.check(isinstance(result, tuple) and len(result) == 2, "selection-shape", lambda: f"{result}")
                if ambiguous or (tiny(mu, var, var_scale) and settings["enforce"]):
                    rec.probe("ambiguous")
                    continue
                check_pair(rec, result, expected, expected_var, var_scale, rtol, "selection")
            rec.log(repr(expected))


def verify(rec, reference, op, result, rtol):
    """What a selection function based on injections returned, with its current settings."""
    settings, kind = reference.settings, op["op"]
    mu, var = reference.efficiency(op["point"])
    weights, total = reference.injection_weights(op["point"]), reference.total_injections()
    with np.errstate(all="ignore"):
        var_scale = float(np.sum(weights**2) / total**2 + mu**2 / total)
    if kind == "efficiency":
        check_pair(rec, result, mu, var, var_scale, rtol, "efficiency")
        return
    if kind == "volume":
        expected, got = reference.hypervolume(op["point"]), oracle.number(result)
        rec.check(got is not None and oracle.same(got, expected, 10 * rtol * expected), "hypervolume",
                  lambda: f"got {got}, expected {expected}")
        return
    marginalize = settings["marginalize"]
    if kind == "factor":
        settings["marginalize"] = True
    expected, expected_var, ambiguous = reference.resampled(mu, var)
    factor, settings["marginalize"] = settings["marginalize"], marginalize
    if ambiguous or tiny(mu, var, var_scale):
        rec.probe("ambiguous")
    elif factor:
        got = oracle.number(result)
        scale = rtol * abs(np.nan_to_num(expected, posinf=0)) * (1 + amplification(settings, mu, var_scale))
        rec.check(got is not None and oracle.same(got, expected, scale), "marginalised",
                  lambda: f"got {got}, expected {expected}, {settings}")
    else:
        check_pair(rec, result, expected, expected_var, var_scale, rtol, "selection")


def tiny(mu, var, scale):
    """The variance is rounding error."""
    return not abs(var) > 1e-9 * scale


def amplification(settings, mu, var_scale):
    with np.errstate(all="ignore"):
        value = (3 + settings["n_events"]) / 2 * var_scale / mu**2
    return float(value) if np.isfinite(value) else 0.0


def check_pair(rec, result, mu, var, var_scale, rtol, what):
    got, got_var = oracle.number(result[0]), oracle.number(result[1])
    rec.check(got is not None and oracle.same(got, mu, rtol * abs(np.nan_to_num(mu, posinf=0))), what,
              lambda: f"got {got}, expected {mu}")
    rec.check(got_var is not None and oracle.same(got_var, var, rtol * var_scale), f"{what}-variance",
              lambda: f"got {got_var}, expected {var}")
