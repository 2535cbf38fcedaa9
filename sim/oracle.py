"""Comparisons of what the package returned with the reference."""
import numpy as np

from . import refmodel as ref
from . import world


def number(value):
    """A Python float from whatever scalar the package returned."""
    array = np.asarray(value)
    if array.size != 1:
        return None
    return float(array.reshape(-1)[0])


def same(a, b, atol):
    """Equality within atol, with NaN equal to NaN and infinities by sign.  Numbers
    below 1e-250 count as zero: products there have lost their digits to underflow."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        near = np.abs(a - b) <= np.maximum(atol, 1e-250)
    return bool(np.all(near | (a == b) | (np.isnan(a) & np.isnan(b))))


def ratio(rec, value, terms, jax, what="log_likelihood_ratio"):
    rtol, _ = world.tolerances(jax)
    value = number(value)
    rec.check(value is not None and np.isfinite(value), f"{what}-not-finite", lambda: f"{value}")
    atol = rtol * terms["size"]
    expected = terms["ratio"]
    if terms["ambiguous"]:
        options = [ref.LOWEST, float(np.nan_to_num(terms["ln_l"]))]
        good = any(same(value, o, atol) for o in options)
        rec.probe("ambiguous")
    else:
        good = same(value, expected, atol)
    rec.check(good, what, lambda: f"got {value!r}, expected {expected!r} (tolerance {atol:.3g}), terms {brief(terms)}")


def brief(terms):
    return {k: (np.round(v, 6).tolist() if hasattr(v, "tolist") else v) for k, v in terms.items()
            if k in ("ln_l", "total", "selection", "ratio", "rejected", "ambiguous")}


def variance_scale(cfg, terms):
    n = cfg["n_events"]
    extra = 0.0
    if cfg["selection"]["kind"] == "resampling":
        extra = 4 * n**2 / cfg["selection"]["n"]
    with np.errstate(all="ignore"):
        return float(np.nansum(terms["var_scale"])) + abs(np.nan_to_num(terms["factor_var"], posinf=0, neginf=0)) + extra + 1e-6


def ln_l_and_variance(rec, result, cfg, terms, jax):
    rtol, _ = world.tolerances(jax)
    ln_l, variance = number(result[0]), number(result[1])
    rec.check(ln_l is not None and variance is not None, "ln_likelihood_and_variance-shape", repr(result))
    if terms["ambiguous"]:
        return
    rec.check(same(ln_l, terms["ln_l"], rtol * terms["size"]), "ln_likelihood",
              lambda: f"got {ln_l!r}, expected {terms['ln_l']!r}")
    rec.check(same(variance, terms["total"], rtol * variance_scale(cfg, terms)), "variance",
              lambda: f"got {variance!r}, expected {terms['total']!r}")


def statistics(rec, sample, before, cfg, terms, jax):
    """Result of generate_extra_statistics on a copy of `before`."""
    rtol, _ = world.tolerances(jax)
    for key, value in before.items():
        rec.check(key in sample and (sample[key] is value or same(sample[key], value, 0)),
                  "statistics-parameters", lambda: f"{key}: {value!r} became {sample.get(key)!r}")
    n = cfg["n_events"]
    ln_bf = [number(sample[f"ln_bf_{i}"]) for i in range(n)]
    var = [number(sample[f"var_{i}"]) for i in range(n)]
    if terms["ambiguous"]:
        return
    with np.errstate(all="ignore"):
        bf_scale = rtol * (1 + np.abs(np.nan_to_num(terms["ln_bf"], posinf=0, neginf=0)))
        var_scale = rtol * (terms["var_scale"] + 1e-6)
        rec.check(same(ln_bf, terms["ln_bf"], bf_scale), "statistics-ln_bf",
                  lambda: f"got {ln_bf}, expected {terms['ln_bf'].tolist()}")
        rec.check(same(var, terms["var"], np.where(np.isfinite(var_scale), var_scale, 0)), "statistics-var",
                  lambda: f"got {var}, expected {terms['var'].tolist()}")
        sel, sel_var = terms["selection"], terms["selection_variance"]
        got = number(sample["selection"])
        rec.check(same(got, sel, rtol * abs(np.nan_to_num(sel, posinf=0))), "statistics-selection",
                  lambda: f"got {got}, expected {sel}")
        expected = sel_var / np.asarray(sel, dtype=float) ** 2
        got = number(sample["selection_variance"])
        scale = variance_scale(cfg, terms)
        rec.check(same(got, expected, rtol * (abs(np.nan_to_num(expected)) + scale)), "statistics-selection_variance",
                  lambda: f"got {got}, expected {expected}")
        got = number(sample["variance"])
        rec.check(same(got, terms["total"], rtol * scale), "statistics-variance",
                  lambda: f"got {got}, expected {terms['total']}")


def resample_weights(reference, points):
    """Reference per-event weights of predictive resampling."""
    total = 0
    for point in points:
        weights = reference.weights(point)
        with np.errstate(all="ignore"):
            total = total + weights / np.sum(weights, axis=-1, keepdims=True)
    with np.errstate(all="ignore"):
        return total / np.sum(total, axis=-1, keepdims=True)


def rows_of(rec, new, data, weights=None, what="resampled"):
    """Every column of resampled rows comes from one row of the same event."""
    new = {k: np.asarray(v, dtype=float) for k, v in new.items()}
    rec.check(set(new) == set(data), f"{what}-columns", lambda: f"{sorted(new)} instead of {sorted(data)}")
    first = next(iter(data.values()))
    for key, value in new.items():
        rec.check(value.shape == first.shape, f"{what}-shape", lambda: f"{key}: {value.shape} instead of {first.shape}")
    used = []
    for event in range(first.shape[0]):
        match = np.ones((first.shape[1], first.shape[1]), dtype=bool)
        for key in data:
            match &= new[key][event][:, None] == data[key][event][None, :]
        rec.check(bool(np.all(match.any(axis=1))), f"{what}-rows",
                  lambda: f"event {event}: a resampled row is not a row of that event")
        index = match.argmax(axis=1)
        if weights is not None:
            with np.errstate(all="ignore"):
                positive = (match & (weights[event] > 0)[None, :]).any(axis=1)
            rec.check(bool(np.all(positive)), f"{what}-zero-weight",
                      lambda: f"event {event}: a row of zero weight was drawn")
        used.append(index)
    return used
