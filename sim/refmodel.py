"""
Reference model: the documented densities and estimators, written independently of
the package with numpy and scipy only (wcosmo's functional API for cosmology).
No state is kept: every call computes everything from its arguments.
"""
import numpy as np
from scipy import special
from scipy.interpolate import CubicSpline

LOWEST = -np.finfo(float).max


def trapz(y, x, axis=-1):
    y = np.moveaxis(np.asarray(y, float), axis, -1)
    return np.sum(0.5 * (y[..., 1:] + y[..., :-1]) * np.diff(x), axis=-1)


# ------------------------------------------------------------------ elementary densities


def powerlaw(x, index, low, high):
    x, low, high = np.asarray(x, float), np.asarray(low, float), np.asarray(high, float)
    with np.errstate(all="ignore"):
        if index == -1:
            norm = 1 / np.log(high / low)
        else:
            norm = (1 + index) / (high ** (1 + index) - low ** (1 + index))
        return np.where((x >= low) & (x <= high), x**index * norm, 0.0)


def truncnorm(x, mu, sigma, low, high):
    x = np.asarray(x, float)
    a, b = (low - mu) / sigma, (high - mu) / sigma
    if b <= 0:
        p, q = special.log_ndtr(b), special.log_ndtr(a)
        lognorm = p + np.log1p(-np.exp(q - p))
    elif a > 0:
        p, q = special.log_ndtr(-a), special.log_ndtr(-b)
        lognorm = p + np.log1p(-np.exp(q - p))
    else:
        lognorm = np.log1p(-special.ndtr(a) - special.ndtr(-b))
    logpdf = -0.5 * ((x - mu) / sigma) ** 2 - 0.5 * np.log(2 * np.pi) - np.log(sigma) - lognorm
    return np.where((x >= low) & (x <= high), np.exp(logpdf), 0.0)


def beta(x, a, b, scale):
    x = np.asarray(x, float)
    inside = (x > 0) & (x < scale)
    y = np.where(inside, x / scale, 0.5)
    logpdf = (a - 1) * np.log(y) + (b - 1) * np.log1p(-y) - special.betaln(a, b) - np.log(scale)
    return np.where(inside, np.exp(logpdf), 0.0)


def window(m, mmin, mmax, delta):
    """Planck-taper low-mass smoothing."""
    m = np.asarray(m, float)
    if delta <= 0:
        return np.ones(np.broadcast(m, mmax).shape)
    s = np.clip((m - mmin) / delta, 1e-6, 1 - 1e-6)
    return special.expit(-(1 / s - 1 / (1 - s))) * (m >= mmin) * (m <= mmax)


# ------------------------------------------------------------------ mass models


def broken_powerlaw(m, p):
    a1, a2, mmin, mmax = p["alpha_1"], p["alpha_2"], p["mmin"], p["mmax"]
    mb = mmin + p["break_fraction"] * (mmax - mmin)
    corr = float(powerlaw(mb, -a2, mb, mmax) / powerlaw(mb, -a1, mmin, mb))
    low = powerlaw(m, -a1, mmin, mb) * corr
    high = powerlaw(m, -a2, mb, mmax)
    return np.where(np.asarray(m) < mb, low, high) / (1 + corr)


def primary_peak(m, p, top):
    return (1 - p["lam"]) * powerlaw(m, -p["alpha"], p["mmin"], p["mmax"]) + p["lam"] * truncnorm(
        m, p["mpp"], p["sigpp"], p["mmin"], top
    )


def primary_two_peaks(m, p, top):
    return (
        (1 - p["lam"]) * powerlaw(m, -p["alpha"], p["mmin"], p["mmax"])
        + p["lam"] * p["lam_1"] * truncnorm(m, p["mpp_1"], p["sigpp_1"], p["mmin"], top)
        + p["lam"] * (1 - p["lam_1"]) * truncnorm(m, p["mpp_2"], p["sigpp_2"], p["mmin"], top)
    )


def primary_broken_peak(m, p, top):
    return (1 - p["lam"]) * broken_powerlaw(m, p) + p["lam"] * truncnorm(
        m, p["mpp"], p["sigpp"], p["mmin"], top
    )


PRIMARY = dict(
    SinglePeakSmoothedMassDistribution=primary_peak,
    MultiPeakSmoothedMassDistribution=primary_two_peaks,
    BrokenPowerLawSmoothedMassDistribution=lambda m, p, top: broken_powerlaw(m, p),
    BrokenPowerLawPeakSmoothedMassDistribution=primary_broken_peak,
    UserSmoothed=lambda m, p, top: powerlaw(m, -p["slope"], p["mmin"], p["mmax"]),
)


def linear_interp(x, grid, values):
    """Linear interpolation on a regular grid, extrapolating the last segments."""
    step = grid[1] - grid[0]
    idx = np.clip(np.floor((x - grid[0]) / step).astype(int), 0, len(grid) - 2)
    slope = np.diff(values) / np.diff(grid)
    return values[idx] + slope[idx] * (x - grid[idx])


def mass_ratio_density(data, p, cfg, delta):
    m1, q = np.asarray(data["mass_1"], float), np.asarray(data["mass_ratio"], float)
    mmin = p.get("mmin", cfg["mmin"])
    with np.errstate(all="ignore"):
        dens = powerlaw(q, p["beta"], mmin / m1, 1.0) * window(m1 * q, mmin, m1, delta)
        if delta != 0:
            m1s = np.linspace(cfg["mmin"], cfg["mmax"], cfg["shape"][0])
            qs = np.linspace(0.001, 1, cfg["shape"][1])
            grid = powerlaw(qs[:, None], p["beta"], mmin / m1s[None, :], 1.0)
            grid = grid * window(m1s[None, :] * qs[:, None], mmin, m1s[None, :], delta)
            norms = np.nan_to_num(trapz(grid, qs, axis=0))
            dens = dens / linear_interp(m1, m1s, norms)
    return np.nan_to_num(dens)


def smoothed_mass(kind, data, p, cfg):
    delta = p.get("delta_m", 0)
    primary = PRIMARY[kind]
    top = cfg["mmax"]
    mmin = p.get("mmin", cfg["mmin"])
    m1 = np.asarray(data["mass_1"], float)
    pm = primary(m1, p, top) * window(m1, mmin, cfg["mmax"], delta)
    if delta != 0:
        m1s = np.linspace(cfg["mmin"], cfg["mmax"], cfg["shape"][0])
        pm = pm / trapz(primary(m1s, p, top) * window(m1s, mmin, cfg["mmax"], delta), m1s)
    return pm * mass_ratio_density(data, p, cfg, delta)


# ------------------------------------------------------------------ splines


def spline(x, nodes, values, kind):
    if kind == "cubic":
        return CubicSpline(nodes, values, bc_type="not-a-knot")(x)
    return linear_interp(np.asarray(x, float), np.asarray(nodes), np.asarray(values))


def spline_points(base, p, n_nodes, regularize):
    xs = np.array([p[f"{base}{i}"] for i in range(n_nodes)], float)
    fs = np.array([p[f"f{base}{i}"] for i in range(n_nodes)], float)
    if regularize:
        fs = fs * p[f"rms{base}"] / np.sqrt(np.mean(fs**2))
    return xs, fs


def interpolated_powerlaw(data, p, cfg):
    xs, fs = spline_points("mass", p, cfg["nodes"], cfg.get("regularize", False))
    delta = p.get("delta_m", 0)
    m1 = np.asarray(data["mass_1"], float)
    m1s = np.linspace(cfg["mmin"], cfg["mmax"], cfg["shape"][0])

    def unnormed(m):
        return (
            powerlaw(m, -p["alpha"], p["mmin"], p["mmax"])
            * window(m, p["mmin"], cfg["mmax"], delta)
            * np.exp(spline(np.log(m), np.log(xs), fs, cfg["kind"]))
        )

    pm = unnormed(m1) * ((m1 >= xs[0]) & (m1 <= xs[-1])) / trapz(unnormed(m1s), m1s)
    return pm * mass_ratio_density(data, p, cfg, delta)


def spline_identical(data, p, cfg, n_nodes):
    base = cfg["base"]
    xs, fs = spline_points(base, p, n_nodes, cfg.get("regularize", False))
    grid = np.linspace(cfg["minimum"], cfg["maximum"], 10 * n_nodes)
    log = np.log if cfg.get("log_nodes") else np.asarray

    def unnormed(x):
        x = np.asarray(x, float)
        with np.errstate(all="ignore"):
            value = np.exp(spline(log(x), log(xs), fs, cfg["kind"]))
        return np.where((x >= xs[0]) & (x <= xs[-1]), value, 0.0)

    norm = trapz(unnormed(grid), grid)
    out = 1.0
    for name in cfg["parameters"]:
        out = out * unnormed(data[name]) / norm
    return out


# ------------------------------------------------------------------ spins


def tilt(data, xi, s1, s2, m1, m2):
    return (1 - xi) / 4 + xi * truncnorm(data["cos_tilt_1"], m1, s1, -1, 1) * truncnorm(
        data["cos_tilt_2"], m2, s2, -1, 1
    )


def chi_eff_chi_p(data, p):
    mu = np.array([p["mu_chi_eff"], p["mu_chi_p"]])
    s = np.array([p["sigma_chi_eff"], p["sigma_chi_p"]])
    rho = p["spin_covariance"]
    inverse = np.linalg.inv(np.array([[s[0] ** 2, rho * s[0] * s[1]], [rho * s[0] * s[1], s[1] ** 2]]))

    def gauss(x, y):
        dx, dy = np.asarray(x, float) - mu[0], np.asarray(y, float) - mu[1]
        return np.exp(
            -0.5 * (inverse[0, 0] * dx**2 + 2 * inverse[0, 1] * dx * dy + inverse[1, 1] * dy**2)
        )

    xs, ys = np.linspace(-1, 1, 500), np.linspace(0, 1, 250)
    norm = trapz(trapz(gauss(xs[None, :], ys[:, None]), xs), ys)
    x, y = np.asarray(data["chi_eff"]), np.asarray(data["chi_p"])
    return gauss(x, y) / norm * ((np.abs(x) <= 1) & (y <= 1) & (y >= 0))


# ------------------------------------------------------------------ cosmology, redshift


def _plain(value):
    return np.asarray(getattr(value, "value", value), float)


def cosmo_parameters(name, p):
    if name == "FlatwCDM":
        return dict(H0=float(p["H0"]), Om0=float(p["Om0"]), w0=float(p["w0"]))
    if name == "FlatLambdaCDM":
        return dict(H0=float(p["H0"]), Om0=float(p["Om0"]), w0=-1.0)
    from wcosmo.astropy import available

    fixed = available[name]
    return dict(H0=float(_plain(fixed.H0)), Om0=float(_plain(fixed.Om0)), w0=float(_plain(fixed.w0)))


def comoving_volume_element(z, cosmo):
    import wcosmo

    return 4 * np.pi * _plain(wcosmo.differential_comoving_volume(np.asarray(z, float), **cosmo))


def psi(kind, z, p):
    if kind == "PowerLawRedshift":
        return (1 + z) ** p["lamb"]
    return (
        (1 + z) ** p["gamma"]
        / (1 + ((1 + z) / (1 + p["z_peak"])) ** p["kappa"])
        * (1 + (1 + p["z_peak"]) ** (-p["kappa"]))
    )


def redshift_unnormed(kind, z, p, cfg):
    z = np.asarray(z, float)
    cosmo = cosmo_parameters(cfg.get("cosmo_model", "Planck15"), p)
    return psi(kind, z, p) / (1 + z) * comoving_volume_element(z, cosmo) * (z <= cfg["z_max"])


def redshift_norm(kind, p, cfg):
    zs = np.linspace(1e-6, cfg["z_max"], 2500)
    return trapz(redshift_unnormed(kind, zs, p, cfg), zs)


def four_volume(lamb, time, zmax=2.3):
    zs = np.linspace(0, zmax, 2500)
    cosmo = cosmo_parameters("Planck15", {})
    return trapz(comoving_volume_element(zs, cosmo) * (1 + zs) ** (lamb - 1), zs) / 1e9 * time


def to_source_frame(data, p, cosmo_model):
    """Source-frame samples and Jacobian of the detector-frame columns."""
    import wcosmo

    data = {k: np.asarray(v, float) for k, v in data.items()}
    cosmo = cosmo_parameters(cosmo_model, p)
    if "luminosity_distance" in data:
        grid = np.logspace(-4, 2, 1000)
        z = np.interp(
            data["luminosity_distance"], _plain(wcosmo.luminosity_distance(grid, **cosmo)), grid,
            left=1e-4, right=100,
        )
        jacobian = _plain(wcosmo.dDLdz(z, **cosmo))
    else:
        z = data["redshift"]
        jacobian = np.ones(z.shape)
    z = data.get("redshift", z)
    out = dict(redshift=z)
    for key, value in data.items():
        if key.endswith("_detector"):
            out[key[: -len("_detector")]] = value / (1 + z)
            jacobian = jacobian * (1 + z)
        elif key not in ("luminosity_distance", "redshift"):
            out[key] = value
    return out, jacobian


# ------------------------------------------------------------------ components


def density(spec, data, p, n_nodes=None):
    """Density of one model component (see world.py for the specifications)."""
    kind, cfg = spec["kind"], spec.get("cfg", {})
    p = {k: (v if v is None else float(v)) for k, v in p.items()}
    if kind in PRIMARY:
        return smoothed_mass(kind, data, p, cfg)
    if kind == "InterpolatedPowerlaw":
        return interpolated_powerlaw(data, p, cfg)
    if kind in ("SplineSpinMagnitudeIdentical", "SplineSpinTiltIdentical", "InterpolatedNoBaseModelIdentical"):
        return spline_identical(data, p, cfg, n_nodes or cfg["nodes"])
    if kind in ("PowerLawRedshift", "MadauDickinsonRedshift"):
        return redshift_unnormed(kind, data["redshift"], p, cfg) / redshift_norm(kind, p, cfg)
    if kind == "GaussianChiEffChiP":
        return chi_eff_chi_p(data, p)
    return FUNCTIONS[kind](data, p)


def _pair(data, f1, f2):
    return 2 * f1 * f2 * (np.asarray(data["mass_1"]) >= np.asarray(data["mass_2"]))


def _two(mass, p, alpha):
    return primary_peak(mass, dict(p, alpha=alpha), p.get("gaussian_mass_maximum", 100))


FUNCTIONS = dict(
    power_law_primary_mass_ratio=lambda d, p: powerlaw(d["mass_1"], -p["alpha"], p["mmin"], p["mmax"])
    * powerlaw(d["mass_ratio"], p["beta"], p["mmin"] / np.asarray(d["mass_1"]), 1.0),
    two_component_primary_mass_ratio=lambda d, p: _two(d["mass_1"], p, p["alpha"])
    * powerlaw(d["mass_ratio"], p["beta"], p["mmin"] / np.asarray(d["mass_1"]), 1.0),
    double_power_law_primary_power_law_mass_ratio=lambda d, p: broken_powerlaw(d["mass_1"], p)
    * powerlaw(d["mass_ratio"], p["beta"], p["mmin"] / np.asarray(d["mass_1"]), 1.0),
    power_law_primary_secondary_independent=lambda d, p: _pair(
        d, powerlaw(d["mass_1"], -p["alpha"], p["mmin"], p["mmax"]),
        powerlaw(d["mass_2"], -p["beta"], p["mmin"], p["mmax"])),
    power_law_primary_secondary_identical=lambda d, p: _pair(
        d, powerlaw(d["mass_1"], -p["alpha"], p["mmin"], p["mmax"]),
        powerlaw(d["mass_2"], -p["alpha"], p["mmin"], p["mmax"])),
    two_component_primary_secondary_independent=lambda d, p: _pair(
        d, _two(d["mass_1"], p, p["alpha"]), _two(d["mass_2"], p, p["beta"])),
    two_component_primary_secondary_identical=lambda d, p: _pair(
        d, _two(d["mass_1"], p, p["alpha"]), _two(d["mass_2"], p, p["alpha"])),
    iid_spin=lambda d, p: tilt(d, p["xi_spin"], p["sigma_spin"], p["sigma_spin"], 1, 1)
    * beta(d["a_1"], p["alpha_chi"], p["beta_chi"], p["amax"])
    * beta(d["a_2"], p["alpha_chi"], p["beta_chi"], p["amax"]),
    iid_spin_magnitude_beta=lambda d, p: beta(d["a_1"], p["alpha_chi"], p["beta_chi"], p["amax"])
    * beta(d["a_2"], p["alpha_chi"], p["beta_chi"], p["amax"]),
    independent_spin_magnitude_beta=lambda d, p: beta(
        d["a_1"], p["alpha_chi_1"], p["beta_chi_1"], p["amax_1"]
    ) * beta(d["a_2"], p["alpha_chi_2"], p["beta_chi_2"], p["amax_2"]),
    iid_spin_orientation_gaussian_isotropic=lambda d, p: tilt(
        d, p["xi_spin"], p["sigma_spin"], p["sigma_spin"], p.get("mu_spin", 1), p.get("mu_spin", 1)
    ),
    independent_spin_orientation_gaussian_isotropic=lambda d, p: tilt(
        d, p["xi_spin"], p["sigma_1"], p["sigma_2"], p.get("mu_1", 1), p.get("mu_2", 1)
    ),
    gaussian_chi_eff=lambda d, p: truncnorm(d["chi_eff"], p["mu_chi_eff"], p["sigma_chi_eff"], -1, 1),
    gaussian_chi_p=lambda d, p: truncnorm(d["chi_p"], p["mu_chi_p"], p["sigma_chi_p"], 0, 1),
    toy_gauss=lambda d, p: np.exp(-0.5 * ((np.asarray(d["x"]) - p["mu_x"]) / p["sig_x"]) ** 2)
    / p["sig_x"] / np.sqrt(2 * np.pi),
    toy_exp=lambda d, p: np.exp(-np.asarray(d["y"]) / p["tau"]) / p["tau"],
    toy_tilted=lambda d, p: 1 + p["slope_x"] * np.asarray(d["x"]) * p["slope_y"] * np.asarray(d["y"])
    + (p["slope_x"] * 3) ** 2 + p["slope_y"] ** 2 * 9,
    power_law_mass=lambda d, p: powerlaw(d["mass_1"], -p["alpha"], p["mmin"], p["mmax"]),
    two_component_single=lambda d, p: _two(d["mass_1"], p, p["alpha"]),
    three_component_single=lambda d, p: primary_two_peaks(
        d["mass_1"], p, p.get("gaussian_mass_maximum", 100)),
    double_power_law_primary_mass=lambda d, p: broken_powerlaw(d["mass_1"], p),
    double_power_law_peak_primary_mass=lambda d, p: primary_broken_peak(
        d["mass_1"], p, p.get("gaussian_mass_maximum", 100)),
)


def product(specs, data, p):
    out = 1.0
    for spec in specs:
        out = out * density(spec, data, p)
    return out


# ------------------------------------------------------------------ conversions


def convert_beta(p):
    """mu/variance/maximum to Beta shapes where they are missing (documented conversion)."""
    out = dict(p)

    def convert(suffix):
        a, b = f"alpha_chi{suffix}", f"beta_chi{suffix}"
        if p.get(a) is not None and p.get(b) is not None:
            return True
        if f"mu_chi{suffix}" in p and f"sigma_chi{suffix}" in p:
            amax = p[f"amax{suffix}"]
            mu, var = p[f"mu_chi{suffix}"] / amax, p[f"sigma_chi{suffix}"] / amax**2
            common = mu * (1 - mu) / var - 1
            out[a], out[b] = mu * common, (1 - mu) * common
            return True
        return False

    done = [convert(s) for s in ("_1", "_2")]
    if not any(done):
        convert("")
    return out


# ------------------------------------------------------------------ estimators


def event_terms(weights):
    """Per-event ln Bayes factors and variances; weights (n_events, n_samples)."""
    weights = np.asarray(weights, float)
    n = weights.shape[-1]
    with np.errstate(all="ignore"):
        mean = np.mean(weights, axis=-1)
        second = np.mean(weights**2, axis=-1)
        return np.log(mean), (second - mean**2) / (n * mean**2), second / (n * mean**2)


def efficiency(weights, total):
    weights = np.asarray(weights, float)
    with np.errstate(all="ignore"):
        mu = np.sum(weights) / total
        var = np.sum(weights**2) / total**2 - mu**2 / total
    return float(mu), float(var)


def converged(mu, var, n_events):
    with np.errstate(all="ignore"):
        return bool(mu**2 > 4 * n_events * var)


def close(a, b, rtol, atol=0.0):
    """Elementwise agreement of two arrays of equal shape, NaN and infinities included."""
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        same = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= atol + 1e-250 + rtol * np.abs(b))
    return bool(np.all(same))
