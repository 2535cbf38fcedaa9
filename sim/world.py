"""
Random worlds: population models, data, selection functions, likelihoods and points.

Specifications are plain JSON; builders turn them into objects of the package, `Ref*`
classes into the reference values.
"""
import numpy as np

from . import refmodel as ref
from . import userfuncs

RANGES = dict(
    alpha=(-0.9, 4.0), beta=(-0.9, 4.0), mmin=(3.0, 6.0), mmax=(60.0, 99.0), lam=(0.0, 1.0),
    mpp=(15.0, 50.0), sigpp=(1.0, 10.0), lam_1=(0.0, 1.0), mpp_1=(10.0, 30.0), mpp_2=(30.0, 60.0),
    sigpp_1=(1.0, 8.0), sigpp_2=(1.0, 8.0), alpha_1=(-0.9, 4.0), alpha_2=(-0.9, 6.0),
    break_fraction=(0.1, 0.9), gaussian_mass_maximum=(95.0, 120.0), slope=(-0.9, 4.0),
    xi_spin=(0.0, 1.0), sigma_spin=(0.1, 3.0), mu_spin=(-1.0, 1.0), amax=(0.7, 1.0),
    alpha_chi=(1.0, 5.0), beta_chi=(1.0, 5.0), amax_1=(0.7, 1.0), amax_2=(0.7, 1.0),
    alpha_chi_1=(1.0, 5.0), alpha_chi_2=(1.0, 5.0), beta_chi_1=(1.0, 5.0), beta_chi_2=(1.0, 5.0),
    sigma_1=(0.1, 3.0), sigma_2=(0.1, 3.0), mu_1=(-1.0, 1.0), mu_2=(-1.0, 1.0),
    mu_chi_eff=(-0.5, 0.5), sigma_chi_eff=(0.1, 0.8), mu_chi_p=(0.0, 1.0), sigma_chi_p=(0.1, 0.8),
    spin_covariance=(-0.8, 0.8), lamb=(-4.0, 6.0), gamma=(-3.0, 6.0), kappa=(0.0, 6.0),
    z_peak=(0.5, 3.0), H0=(50.0, 100.0), Om0=(0.15, 0.6), w0=(-1.6, -0.5),
    mu_x=(-1.5, 1.5), sig_x=(0.5, 2.0), tau=(0.3, 3.0), slope_x=(-0.5, 0.5), slope_y=(-0.5, 0.5),
    rate=(0.5, 50.0),
)
INTEGER_OK = {
    "alpha": (0, 4), "beta": (0, 4), "mmin": (3, 6), "mmax": (60, 99), "mpp": (15, 50),
    "sigpp": (1, 10), "mpp_1": (10, 30), "mpp_2": (30, 60), "lamb": (-3, 5), "gamma": (0, 5),
    "kappa": (0, 5), "alpha_chi": (1, 4), "beta_chi": (1, 4), "H0": (60, 80), "tau": (1, 3),
    "mu_x": (-1, 1), "sig_x": (1, 2), "rate": (1, 40), "slope": (0, 4), "lam": (0, 1), "xi_spin": (0, 1),
    "alpha_1": (0, 4), "alpha_2": (0, 4),
}
MASS_CLASSES = {
    "SinglePeakSmoothedMassDistribution": ["alpha", "mmin", "mmax", "lam", "mpp", "sigpp"],
    "MultiPeakSmoothedMassDistribution": [
        "alpha", "mmin", "mmax", "lam", "lam_1", "mpp_1", "sigpp_1", "mpp_2", "sigpp_2"],
    "BrokenPowerLawSmoothedMassDistribution": ["alpha_1", "alpha_2", "mmin", "mmax", "break_fraction"],
    "BrokenPowerLawPeakSmoothedMassDistribution": [
        "alpha_1", "alpha_2", "mmin", "mmax", "break_fraction", "lam", "mpp", "sigpp"],
    "UserSmoothed": ["slope", "mmin", "mmax"],
}
FUNCTIONS = {
    # kind: (module, columns, parameters)
    "power_law_primary_mass_ratio": ("mass", ["mass_1", "mass_ratio"], ["alpha", "beta", "mmin", "mmax"]),
    "two_component_primary_mass_ratio": ("mass", ["mass_1", "mass_ratio"], [
        "alpha", "beta", "mmin", "mmax", "lam", "mpp", "sigpp", "gaussian_mass_maximum"]),
    "double_power_law_primary_power_law_mass_ratio": ("mass", ["mass_1", "mass_ratio"], [
        "alpha_1", "alpha_2", "beta", "mmin", "mmax", "break_fraction"]),
    "power_law_primary_secondary_independent": ("mass", ["mass_1", "mass_2"], ["alpha", "beta", "mmin", "mmax"]),
    "power_law_primary_secondary_identical": ("mass", ["mass_1", "mass_2"], ["alpha", "mmin", "mmax"]),
    "two_component_primary_secondary_independent": ("mass", ["mass_1", "mass_2"], [
        "alpha", "beta", "mmin", "mmax", "lam", "mpp", "sigpp", "gaussian_mass_maximum"]),
    "two_component_primary_secondary_identical": ("mass", ["mass_1", "mass_2"], [
        "alpha", "mmin", "mmax", "lam", "mpp", "sigpp", "gaussian_mass_maximum"]),
    "iid_spin": ("spin", ["a_1", "a_2", "cos_tilt_1", "cos_tilt_2"], [
        "xi_spin", "sigma_spin", "amax", "alpha_chi", "beta_chi"]),
    "iid_spin_magnitude_beta": ("spin", ["a_1", "a_2"], ["amax", "alpha_chi", "beta_chi"]),
    "independent_spin_magnitude_beta": ("spin", ["a_1", "a_2"], [
        "alpha_chi_1", "alpha_chi_2", "beta_chi_1", "beta_chi_2", "amax_1", "amax_2"]),
    "iid_spin_orientation_gaussian_isotropic": ("spin", ["cos_tilt_1", "cos_tilt_2"], [
        "xi_spin", "sigma_spin", "mu_spin"]),
    "independent_spin_orientation_gaussian_isotropic": ("spin", ["cos_tilt_1", "cos_tilt_2"], [
        "xi_spin", "sigma_1", "sigma_2", "mu_1", "mu_2"]),
    "gaussian_chi_eff": ("spin", ["chi_eff"], ["mu_chi_eff", "sigma_chi_eff"]),
    "gaussian_chi_p": ("spin", ["chi_p"], ["mu_chi_p", "sigma_chi_p"]),
    "toy_gauss": ("user", ["x"], ["mu_x", "sig_x"]),
    "toy_exp": ("user", ["y"], ["tau"]),
    "toy_tilted": ("user", ["x", "y"], ["slope_x", "slope_y"]),
}
# functions of a mass array instead of a data set
MASS_FUNCTIONS = {
    "power_law_mass": ["alpha", "mmin", "mmax"],
    "two_component_single": ["alpha", "mmin", "mmax", "lam", "mpp", "sigpp", "gaussian_mass_maximum"],
    "three_component_single": ["alpha", "mmin", "mmax", "lam", "lam_1", "mpp_1", "sigpp_1", "mpp_2", "sigpp_2",
                               "gaussian_mass_maximum"],
    "double_power_law_primary_mass": ["alpha_1", "alpha_2", "mmin", "mmax", "break_fraction"],
    "double_power_law_peak_primary_mass": ["alpha_1", "alpha_2", "mmin", "mmax", "break_fraction", "lam", "mpp",
                                           "sigpp", "gaussian_mass_maximum"],
}
GROUPS = dict(
    mass=list(MASS_CLASSES) + ["InterpolatedPowerlaw"]
    + [k for k, v in FUNCTIONS.items() if v[0] == "mass"],
    magnitude=["iid_spin_magnitude_beta", "independent_spin_magnitude_beta", "SplineSpinMagnitudeIdentical",
               "iid_spin"],
    tilt=["iid_spin_orientation_gaussian_isotropic", "independent_spin_orientation_gaussian_isotropic",
          "SplineSpinTiltIdentical"],
    chi=["gaussian_chi_eff", "gaussian_chi_p", "GaussianChiEffChiP"],
    redshift=["PowerLawRedshift", "MadauDickinsonRedshift"],
    toy=["toy_gauss", "toy_exp", "toy_tilted", "ToyClass"],
)
FIXED_COSMOLOGIES = ["Planck15", "Planck13", "Planck18"]


# ------------------------------------------------------------------ specifications


def component(rng, kind, small=False, cosmo=None):
    """A JSON specification of one model component."""
    cfg, fixed = {}, {}
    shape = [40, 24] if small else [rng.choice([30, 60, 90]), rng.choice([20, 40])]
    if kind in MASS_CLASSES:
        cfg = dict(mmin=2, mmax=100, shape=shape, cache=rng.random() < 0.75)
        params = MASS_CLASSES[kind] + ["beta", "delta_m"]
        cols = ["mass_1", "mass_ratio"]
    elif kind == "InterpolatedPowerlaw":
        n = 6 if small else rng.randint(5, 8)
        cfg = dict(mmin=2, mmax=100, shape=shape, nodes=n, kind=rng.choice(["cubic", "cubic", "linear"]),
                   regularize=rng.random() < 0.3)
        nodes = np.exp(np.linspace(np.log(rng.uniform(2, 4)), np.log(rng.uniform(85, 100)), n))
        fixed = {f"mass{i}": float(x) for i, x in enumerate(nodes)}
        params = ["alpha", "mmin", "mmax", "beta", "delta_m"] + [f"fmass{i}" for i in range(n)]
        if cfg["regularize"]:
            params.append("rmsmass")
        cols = ["mass_1", "mass_ratio"]
    elif kind in ("SplineSpinMagnitudeIdentical", "SplineSpinTiltIdentical", "InterpolatedNoBaseModelIdentical"):
        n = 5 if small else rng.randint(4, 8)
        if kind == "SplineSpinMagnitudeIdentical":
            base, cols, low, high = "a", ["a_1", "a_2"], 0.0, 1.0
        elif kind == "SplineSpinTiltIdentical":
            base, cols, low, high = "cos_tilt", ["cos_tilt_1", "cos_tilt_2"], -1.0, 1.0
        else:
            base, cols, low, high = "s", ["s_1", "s_2"][: rng.randint(1, 2)], 0.5, 10.0
        cfg = dict(nodes=n, kind=rng.choice(["cubic", "cubic", "linear"]), regularize=rng.random() < 0.3,
                   minimum=low, maximum=high, base=base, parameters=cols)
        if kind == "InterpolatedNoBaseModelIdentical":
            cfg["log_nodes"] = rng.random() < 0.5
        fixed = node_positions(cfg, n)
        params = [f"f{base}{i}" for i in range(n)]
        if cfg["regularize"]:
            params.append(f"rms{base}")
    elif kind in ("PowerLawRedshift", "MadauDickinsonRedshift"):
        if cosmo is None:
            cosmo = rng.choice(FIXED_COSMOLOGIES + ["Planck15"] * 3 + ["FlatLambdaCDM", "FlatwCDM"])
        cfg = dict(z_max=rng.choice([1.0, 1.9, 2.3]), cosmo_model=cosmo)
        params = ["lamb"] if kind == "PowerLawRedshift" else ["gamma", "kappa", "z_peak"]
        params = params + cosmo_names(cosmo)
        cols = ["redshift"]
    elif kind == "GaussianChiEffChiP":
        params = ["mu_chi_eff", "sigma_chi_eff", "mu_chi_p", "sigma_chi_p", "spin_covariance"]
        cols = ["chi_eff", "chi_p"]
    elif kind == "ToyClass":
        _, cols, params = FUNCTIONS["toy_gauss"]
    else:
        _, cols, params = FUNCTIONS[kind]
    return dict(kind=kind, cfg=cfg, params=list(params), fixed=fixed, cols=list(cols))


def node_positions(cfg, n):
    if cfg.get("log_nodes"):
        nodes = np.exp(np.linspace(np.log(cfg["minimum"]), np.log(cfg["maximum"]), n))
    else:
        nodes = np.linspace(cfg["minimum"], cfg["maximum"], n)
    return {f"{cfg['base']}{i}": float(x) for i, x in enumerate(nodes)}


def cosmo_names(name):
    return {"FlatwCDM": ["H0", "Om0", "w0"], "FlatLambdaCDM": ["H0", "Om0"]}.get(name, [])


def components(rng, small=False, kinds=None, max_components=3, cosmo=None, groups=None):
    """One to three compatible components."""
    groups = list(groups or ["mass", "magnitude", "tilt", "chi", "redshift", "toy"])
    chosen = rng.sample(groups, min(len(groups), rng.randint(1, max_components)))
    specs = []
    for group in chosen:
        options = [k for k in GROUPS[group] if kinds is None or k in kinds]
        if not options:
            continue
        specs.append(component(rng, rng.choice(options), small=small, cosmo=cosmo))
    if any(s["kind"] == "iid_spin" for s in specs):
        specs = [s for s in specs if s["kind"] not in GROUPS["tilt"]]
    if not specs:
        specs = [component(rng, "toy_gauss")]
    return specs


def draw(rng, name):
    if name == "delta_m":
        return 0.0 if rng.random() < 0.2 else rng.uniform(0.5, 4.0)
    if name in INTEGER_OK and rng.random() < 0.12:
        return rng.randint(*INTEGER_OK[name])
    if name in RANGES:
        value = rng.uniform(*RANGES[name])
    elif name.startswith("rms"):
        value = rng.uniform(0.2, 1.5)
    elif name.startswith("f"):
        value = rng.gauss(0, 1)
    elif name == "log_tau":
        value = rng.uniform(-1, 1)
    else:
        raise KeyError(name)
    # stay away from the removable singularities of power laws
    if name in ("alpha", "alpha_1", "alpha_2", "slope") and abs(value - 1) < 0.03:
        value = 1.1
    return value


def point_names(specs, extra=()):
    names = []
    for spec in specs:
        for name in spec["params"]:
            if name not in names:
                names.append(name)
    return names + [n for n in extra if n not in names]


def fixed_values(specs):
    fixed = {}
    for spec in specs:
        fixed.update(spec["fixed"])
    return fixed


class Points:
    """Generates related points: fresh ones, small moves, single changes, revisits, swaps."""

    def __init__(self, rng, names, replace=None):
        self.rng, self.names = rng, list(names)
        self.replace = replace or {}
        self.history = [self.fresh()]

    def fresh(self):
        return {n: draw(self.rng, n) for n in self.names}

    def next(self):
        rng, kind = self.rng, self.rng.random()
        base = rng.choice(self.history[-3:])
        if kind < 0.22:
            point, label = self.fresh(), "fresh"
        elif kind < 0.50:
            point, label = dict(base), "one"
            name = rng.choice(self.names)
            point[name] = draw(rng, name)
        elif kind < 0.68:
            point, label = dict(base), "nudge"
            name = rng.choice(self.names)
            step = 10 ** rng.uniform(-6, -2)
            value = float(point[name])
            point[name] = value + step * (abs(value) if abs(value) > 0.1 else 0.3) * rng.choice([-1, 1])
            if name in RANGES and name != "delta_m":
                low, high = RANGES[name]
                point[name] = min(max(point[name], low), high)
            if name == "delta_m" and point[name] < 0.3:
                point[name] = 0.5
            if name in ("alpha", "alpha_1", "alpha_2", "slope") and abs(point[name] - 1) < 0.02:
                point[name] = 1.1
        elif kind < 0.83:
            point, label = dict(rng.choice(self.history)), "revisit"
        elif kind < 0.91:
            point, label = self.exchange(dict(base))
        else:
            point, label = dict(base), "several"
            for name in rng.sample(self.names, max(1, len(self.names) // 2)):
                point[name] = draw(rng, name)
        self.history.append(point)
        return point, label

    def exchange(self, point):
        """Swap the values of two parameters that allow each other's value, otherwise change one."""
        names = self.rng.sample(self.names, len(self.names))
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                if point[a] != point[b] and allowed(a, point[b]) and allowed(b, point[a]):
                    point[a], point[b] = point[b], point[a]
                    return point, "swap"
        name = self.rng.choice(self.names)
        point[name] = draw(self.rng, name)
        return point, "one"


def allowed(name, value):
    if name in ("alpha", "alpha_1", "alpha_2", "slope") and abs(value - 1) < 0.02:
        return False
    if name in ("delta_m", "rate"):
        return False
    if name in RANGES:
        return RANGES[name][0] <= value <= RANGES[name][1]
    # the value of a spline node
    return name.startswith("f") and abs(value) < 4


class Caller:
    """A caller that may use one dictionary again and again, changing it in place."""

    def __init__(self):
        self.held = {}
        self.given = []

    def give(self, point, reuse, move=None):
        if all(v is None or isinstance(v, (int, float)) for v in point.values()):
            if move == "swap" and not reuse:
                point = in_value_order(point, self.given)
            self.given = self.given[-20:] + [dict(point)]
        if not reuse:
            return point
        for key in list(self.held):
            if key not in point:
                del self.held[key]
        self.held.update(point)
        return self.held


def in_value_order(point, earlier):
    """Order the keys so that the sequence of values is that of an earlier point with exchanged values."""
    for other in reversed(earlier):
        if set(other) == set(point) and other is not point:
            rest, out = dict(point), {}
            for value in other.values():
                for key in rest:
                    if isinstance(value, (int, float)) and rest[key] == value:
                        out[key] = rest.pop(key)
                        break
                else:
                    break
            if not rest:
                return out
    return point


def arrange(point, seed, mode, jax=False, extra=False):
    """Give a point its argument types and key order (deterministic in seed)."""
    import random

    rng = random.Random(seed)
    items = list(point.items())
    rng.shuffle(items)
    if extra:
        items.insert(rng.randint(0, len(items)), ("unused_parameter", 3.25))
    out = {}
    for key, value in items:
        pick = mode if mode != "mixed" else rng.choice(["plain", "np", "array"])
        if value is None or not isinstance(value, (int, float)):
            out[key] = value
        elif pick == "np":
            out[key] = np.float64(value)
        elif pick == "array":
            if jax:
                import jax.numpy as jnp

                out[key] = jnp.asarray(float(value))
            else:
                out[key] = np.array(float(value))
        else:
            out[key] = value
    return out


# ------------------------------------------------------------------ data


def columns(gen, cols, shape):
    """Sample columns as numpy arrays; gen is a numpy Generator."""
    data = {}
    for col in cols:
        name = col[: -len("_detector")] if col.endswith("_detector") else col
        if name == "mass_1":
            value = gen.uniform(8, 95, shape)
        elif name == "mass_2":
            value = gen.uniform(4, 80, shape)
        elif name == "mass_ratio":
            value = gen.uniform(0.05, 1, shape)
        elif name in ("a_1", "a_2"):
            value = gen.uniform(0.01, 0.99, shape)
        elif name.startswith("cos_tilt"):
            value = gen.uniform(-0.999, 0.999, shape)
        elif name == "chi_eff":
            value = gen.uniform(-0.99, 0.99, shape)
        elif name == "chi_p":
            value = gen.uniform(0.01, 0.99, shape)
        elif name == "redshift":
            value = gen.uniform(0.01, 2.4, shape)
        elif name == "luminosity_distance":
            value = gen.uniform(100, 12000, shape)
        elif name == "x":
            value = np.clip(gen.normal(0, 1, shape), -3, 3)
        elif name == "y":
            value = np.clip(gen.exponential(1, shape), 0, 3)
        elif name.startswith("s_"):
            value = gen.uniform(0.6, 9.9, shape)
        else:
            value = gen.uniform(0, 1, shape)
        data[col] = value
    return data


def needed_columns(specs):
    cols = []
    for spec in specs:
        for col in spec["cols"]:
            if col not in cols:
                cols.append(col)
    return cols


def np_gen(seed):
    return np.random.Generator(np.random.PCG64(seed))


def as_backend(data, jax):
    if not jax:
        return data
    import jax.numpy as jnp

    return {k: jnp.asarray(v) for k, v in data.items()}


def plain(value):
    """A numpy copy of an array-like value."""
    return np.array(value, dtype=float)


# ------------------------------------------------------------------ builders


def build(spec):
    """Construct the object a specification describes with the package."""
    from gwpopulation.models import interped, mass, redshift, spin

    kind, cfg = spec["kind"], spec["cfg"]
    if kind == "UserSmoothed":
        return userfuncs.UserSmoothed(
            mmin=cfg["mmin"], mmax=cfg["mmax"], normalization_shape=tuple(cfg["shape"]), cache=cfg["cache"])
    if kind in MASS_CLASSES:
        return getattr(mass, kind)(
            mmin=cfg["mmin"], mmax=cfg["mmax"], normalization_shape=tuple(cfg["shape"]), cache=cfg["cache"])
    if kind == "InterpolatedPowerlaw":
        return mass.InterpolatedPowerlaw(
            nodes=cfg["nodes"], kind=cfg["kind"], mmin=cfg["mmin"], mmax=cfg["mmax"],
            normalization_shape=tuple(cfg["shape"]), regularize=cfg["regularize"])
    if kind in ("SplineSpinMagnitudeIdentical", "SplineSpinTiltIdentical"):
        return getattr(spin, kind)(
            minimum=cfg["minimum"], maximum=cfg["maximum"], nodes=cfg["nodes"], kind=cfg["kind"],
            regularize=cfg["regularize"])
    if kind == "InterpolatedNoBaseModelIdentical":
        return interped.InterpolatedNoBaseModelIdentical(
            parameters=list(cfg["parameters"]), minimum=cfg["minimum"], maximum=cfg["maximum"],
            nodes=cfg["nodes"], kind=cfg["kind"], log_nodes=cfg["log_nodes"], regularize=cfg["regularize"])
    if kind in ("PowerLawRedshift", "MadauDickinsonRedshift"):
        return getattr(redshift, kind)(z_max=cfg["z_max"], cosmo_model=cfg["cosmo_model"])
    if kind == "GaussianChiEffChiP":
        return spin.GaussianChiEffChiP()
    if kind == "ToyClass":
        return userfuncs.ToyClass()
    module = FUNCTIONS[kind][0]
    return getattr(dict(mass=mass, spin=spin, user=userfuncs)[module], kind)


def ref_spec(spec):
    return dict(spec, kind="toy_gauss") if spec["kind"] == "ToyClass" else spec


def ref_density(spec, data, point, n_nodes=None):
    return ref.density(ref_spec(spec), data, {**spec["fixed"], **point}, n_nodes)


def ref_product(specs, data, point):
    out = 1.0
    for spec in specs:
        out = out * ref_density(spec, data, {k: v for k, v in point.items() if isinstance(v, (int, float))})
    return out


# ------------------------------------------------------------------ likelihoods


def likelihood_config(rng, jax=False, kinds=None, selection=None, cls=None, groups=None, cosmo=None,
                      max_components=3, large=False):
    """JSON configuration of a whole likelihood with its selection function."""
    specs = components(rng, small=jax, kinds=kinds, cosmo=cosmo, groups=groups, max_components=max_components)
    cfg = dict(
        jax=jax,
        specs=specs,
        cls=cls or rng.choice(["Hyper"] * 4 + ["Rate"] * 2 + ["Null"]),
        n_events=3 if jax else rng.randint(1, 5),
        n_samples=16 if jax else rng.randint(2, 40),
        unequal=rng.random() < 0.4,
        prior=rng.random() < 0.75,
        ln_evidences=rng.random() < 0.5,
        data_seed=rng.getrandbits(32),
        wrap=rng.choice(["model-cache", "model-cache", "model-nocache", "custom"]),
        conversion=rng.choice(["default", "default", "beta", "scaled"]),
        max_uncertainty=rng.choice([None, None, 0.3, 1.0, 3.0]),
    )
    if len(specs) == 1 and specs[0]["kind"] in FUNCTIONS and rng.random() < 0.5:
        cfg["wrap"] = "function"
    names = point_names(specs)
    kind = selection or rng.choice(["none", "constant", "simple", "resampling", "resampling", "grid"])
    if kind == "grid" and any(
        s["kind"] in ("InterpolatedPowerlaw", "GaussianChiEffChiP") for s in specs
    ):
        kind = "resampling"
    if kind == "simple":
        cfg["selection"] = dict(kind="simple", key=rng.choice([n for n in names if n in RANGES] or names),
                                scale=rng.uniform(0.1, 2), variance=rng.random() < 0.6,
                                array=rng.random() < 0.5)
    elif kind == "resampling":
        cfg["selection"] = dict(
            kind="resampling", n=64 if jax else rng.randint(50, 300), factor=rng.choice([1, 1.7, 4]),
            total=rng.random() < 0.7, time=rng.choice([None, 0.5, 2.0]), seed=rng.getrandbits(32),
            n_events=rng.choice([None, "match", "match", 1]), marginalize=rng.random() < 0.2,
            enforce=rng.random() < 0.6, share=False,
            form=rng.choice(["list", "model-cache", "model-nocache"]))
    elif kind == "grid":
        cfg["selection"] = grid_config(rng, specs)
    else:
        cfg["selection"] = dict(kind=kind)
    if jax:
        cfg["wrap"] = rng.choice(["model-nocache", "custom"]) if cfg["wrap"] != "function" else "function"
        if cfg["selection"].get("form"):
            cfg["selection"]["form"] = "model-nocache"
    elif large and rng.random() < 0.05:
        # as large as real catalogues
        big = rng.choice(["samples", "events", "injections"])
        if big == "samples":
            cfg["n_samples"] = rng.choice([1025, 4100, 10007])
        elif big == "events":
            cfg["n_events"] = rng.choice([17, 45, 90])
        elif kind == "resampling":
            cfg["selection"]["n"] = rng.choice([2049, 10007])
    return cfg


def grid_config(rng, specs):
    cols = needed_columns(specs)
    cols = cols[:3]
    same = rng.random() < 0.4
    n = rng.randint(4, 7)
    sizes = [n if same else n + i for i in range(len(cols))]
    order = list(range(len(cols)))
    rng.shuffle(order)
    keys = list(cols)
    rng.shuffle(keys)
    return dict(kind="grid", cols=[cols[i] for i in order], sizes=sizes, seed=rng.getrandbits(32), keys=keys)


GRID_RANGES = dict(
    mass_1=(8, 95), mass_2=(4, 80), mass_ratio=(0.05, 1), a_1=(0.01, 0.99), a_2=(0.01, 0.99),
    cos_tilt_1=(-0.99, 0.99), cos_tilt_2=(-0.99, 0.99), chi_eff=(-0.99, 0.99), chi_p=(0.01, 0.99),
    redshift=(0.01, 2.2), x=(-3, 3), y=(0, 3), s_1=(0.6, 9.9), s_2=(0.6, 9.9),
)


def grid_data(cfg):
    """Axes in order and the data dictionary (numpy) of a grid selection function."""
    axes = [np.linspace(*GRID_RANGES[c], n) for c, n in zip(cfg["cols"], cfg["sizes"])]
    mesh = dict(zip(cfg["cols"], np.meshgrid(*axes, indexing="ij")))
    vts = np_gen(cfg["seed"]).uniform(0.1, 2, mesh[cfg["cols"][0]].shape)
    data = {}
    keys = list(cfg["keys"])
    position = cfg["seed"] % (len(keys) + 1)
    for i, key in enumerate(keys):
        if i == position:
            data["vt"] = vts
        data[key] = mesh[key]
    if "vt" not in data:
        data["vt"] = vts
    return axes, data, vts


def usable_grid(cfg, specs):
    return set(needed_columns(specs)) <= set(cfg["cols"])


def injection_data(cfg, specs):
    """Injection dictionary (numpy) of a resampling selection function."""
    gen = np_gen(cfg["seed"])
    data = columns(gen, needed_columns(specs), cfg["n"])
    data["prior"] = gen.uniform(0.2, 2, cfg["n"])
    if cfg["total"]:
        data["total_generated"] = int(cfg["n"] * cfg["factor"])
    if cfg["time"] is not None:
        data["analysis_time"] = cfg["time"]
    return data


def wrap_models(models, form):
    from bilby.hyper.model import Model

    if form == "model-cache":
        return Model(models)
    if form == "model-nocache":
        return Model(models, cache=False)
    if form == "custom":
        return userfuncs.CustomPrior(models)
    if form == "function":
        return models[0]
    return models


def build_selection(cfg, specs, n_events, jax=False, models=None):
    """(callable or None, data passed in)"""
    from gwpopulation.vt import GridVT, ResamplingVT

    if cfg["kind"] == "none":
        return None, None
    if cfg["kind"] == "constant":
        return userfuncs.constant_selection, None
    if cfg["kind"] == "simple":
        return userfuncs.SimpleSelection(cfg["key"], cfg["scale"], cfg["variance"], cfg["array"]), None
    models = models or [build(s) for s in specs]
    if cfg["kind"] == "grid":
        _, data, _ = grid_data(cfg)
        data = as_backend(data, jax)
        return GridVT(wrap_models(models, "list"), data), data
    data = injection_data(cfg, specs)
    if jax:
        scalars = {k: v for k, v in data.items() if np.ndim(v) == 0}
        data = {**as_backend({k: v for k, v in data.items() if k not in scalars}, True), **scalars}
    kwargs = {}
    if cfg["n_events"] is not None:
        kwargs["n_events"] = n_events if cfg["n_events"] == "match" else cfg["n_events"]
    selection = ResamplingVT(
        wrap_models(models, cfg["form"]), data, marginalize_uncertainty=cfg["marginalize"],
        enforce_convergence=cfg["enforce"], **kwargs)
    return selection, data


def posteriors(cfg):
    """List of data frames; rows are unique."""
    import pandas as pd

    gen = np_gen(cfg["data_seed"])
    frames = []
    for event in range(cfg["n_events"]):
        n = cfg["n_samples"] + (int(gen.integers(0, 6)) if cfg["unequal"] else 0)
        data = columns(gen, needed_columns(cfg["specs"]), n)
        if cfg["prior"]:
            data["prior"] = gen.uniform(0.2, 2, n)
        frames.append(pd.DataFrame(data))
    return frames


class Built:
    """A likelihood of the package together with what is needed to predict it."""

    def __init__(self, cfg, frames=None):
        from gwpopulation import hyperpe
        from gwpopulation.conversions import convert_to_beta_parameters

        self.cfg = cfg
        self.frames = posteriors(cfg) if frames is None else frames
        self.models = [build(s) for s in cfg["specs"]]
        self.hyper_prior = wrap_models(self.models, cfg["wrap"])
        share = self.models if cfg["selection"].get("share") else None
        self.selection, self.selection_data = build_selection(
            cfg["selection"], cfg["specs"], cfg["n_events"], cfg["jax"], share)
        kwargs = {}
        if self.selection is not None:
            kwargs["selection_function"] = self.selection
        if cfg["conversion"] == "beta":
            kwargs["conversion_function"] = convert_to_beta_parameters
        elif cfg["conversion"] == "scaled":
            kwargs["conversion_function"] = userfuncs.scaled_conversion
        if cfg["ln_evidences"]:
            kwargs["ln_evidences"] = [0.5 * i - 3.25 for i in range(cfg["n_events"])]
        if cfg["max_uncertainty"] is not None:
            kwargs["maximum_uncertainty"] = cfg["max_uncertainty"]
        cls = dict(Hyper=hyperpe.HyperparameterLikelihood, Rate=hyperpe.RateLikelihood,
                   Null=hyperpe.NullHyperparameterLikelihood)[cfg["cls"]]
        self.like = cls(self.frames, self.hyper_prior, **kwargs)


class RefLikelihood:
    """Reference values of a configuration on given ingested samples."""

    def __init__(self, cfg, data, sampling_prior):
        self.cfg = cfg
        self.data = {k: plain(v) for k, v in data.items()}
        self.prior = plain(sampling_prior)
        self.max_uncertainty = np.inf if cfg["max_uncertainty"] is None else cfg["max_uncertainty"]
        sel = cfg["selection"]
        self.settings = {}
        if sel["kind"] == "resampling":
            self.injections = injection_data(sel, cfg["specs"])
            n_events = {None: np.inf, "match": cfg["n_events"]}.get(sel["n_events"], sel["n_events"])
            self.settings = dict(
                n_events=n_events, marginalize=sel["marginalize"], enforce=sel["enforce"])
        elif sel["kind"] == "grid":
            self.axes, self.grid, self.vts = grid_data(sel)

    def convert(self, point):
        point = dict(point)
        if self.cfg["conversion"] == "beta":
            return ref.convert_beta(point)
        if self.cfg["conversion"] == "scaled" and "log_tau" in point:
            point["tau"] = np.exp(point["log_tau"])
        return point

    def weights(self, point):
        shape = next(iter(self.data.values())).shape
        return np.broadcast_to(ref_product(self.cfg["specs"], self.data, self.convert(point)) / self.prior, shape)

    def injection_weights(self, point):
        return ref_product(self.cfg["specs"], self.injections, self.convert(point)) / self.injections["prior"]

    def total_injections(self):
        return self.injections.get("total_generated", len(self.injections["prior"]))

    def efficiency(self, point):
        return ref.efficiency(self.injection_weights(point), self.total_injections())

    def hypervolume(self, point):
        time = self.injections.get("analysis_time", 1)
        for spec in reversed(self.cfg["specs"]):
            if spec["kind"] in GROUPS["redshift"]:
                p = {k: float(v) for k, v in self.convert(point).items() if isinstance(v, (int, float))}
                return ref.redshift_norm(spec["kind"], p, spec["cfg"]) / 1e9 * time
        return ref.four_volume(0, time)

    def selection(self, point):
        """(value, variance, ambiguous)"""
        sel, p = self.cfg["selection"], self.convert(point)
        if sel["kind"] == "none":
            return 1.0, 0.0, False
        if sel["kind"] == "constant":
            return 0.37, 0.0, False
        if sel["kind"] == "simple":
            value = sel["scale"] / (1 + np.exp(-float(p[sel["key"]])))
            return value, (value**2 * 1e-3 if sel["variance"] else 0.0), False
        if sel["kind"] == "grid":
            value = ref_product(self.cfg["specs"], self.grid, p) * self.vts
            for axis in reversed(self.axes):
                value = ref.trapz(value, axis)
            return float(value), 0.0, False
        mu, var = self.efficiency(point)
        return self.resampled(mu, var)

    def resampled(self, mu, var):
        s = self.settings
        with np.errstate(all="ignore"):
            threshold = 4 * s["n_events"] * var
            ambiguous = bool(abs(mu**2 - threshold) <= 1e-6 * mu**2)
            good = bool(mu**2 > threshold)
            if s["marginalize"]:
                value = mu / np.exp((3 + s["n_events"]) / 2 / np.divide(mu**2, var)) if good else np.inf
                if s["n_events"] == np.inf:
                    value = np.inf
                return value, 0.0, ambiguous
            if s["enforce"] and not good:
                mu = np.inf
        return mu, var, ambiguous and s["enforce"]

    def terms(self, point):
        cfg = self.cfg
        weights = self.weights(point)
        ln_bf, var, scale = ref.event_terms(weights)
        sel, sel_var, ambiguous = self.selection(point)
        n = cfg["n_events"]
        with np.errstate(all="ignore"):
            if cfg["cls"] == "Rate":
                rate = float(point["rate"])
                n_exp = sel * rate
                factor = -n_exp + n * np.log(rate)
                factor_var = n_exp * sel_var / np.asarray(sel) ** 2
            else:
                factor = -n * np.log(sel)
                factor_var = n**2 * sel_var / np.asarray(sel) ** 2
            ln_l = np.sum(ln_bf) + factor
            total = np.sum(var) + factor_var
            if cfg["cls"] == "Null":
                ln_l = 0.0
            rejected = bool(total > self.max_uncertainty**2)
            if np.isfinite(self.max_uncertainty):
                slack = 1e-6 * (self.max_uncertainty**2 + np.sum(scale) + abs(factor_var))
                ambiguous = ambiguous or bool(abs(total - self.max_uncertainty**2) <= slack)
                if np.isnan(total):
                    ambiguous = True
        with np.errstate(all="ignore"):
            tiny = np.mean(np.abs(weights), axis=-1)
            ambiguous = ambiguous or bool(np.any((tiny > 0) & (tiny < 1e-200)))
        ratio = ref.LOWEST if (np.isnan(ln_l) or rejected) else float(np.nan_to_num(ln_l))
        return dict(
            ln_bf=ln_bf, var=var, var_scale=scale, selection=sel, selection_variance=sel_var,
            ln_l=float(ln_l), total=float(total), factor_var=float(factor_var), ratio=ratio,
            rejected=rejected, ambiguous=ambiguous,
            size=float(np.sum(np.abs(np.where(np.isfinite(ln_bf), ln_bf, 0))) + abs(np.nan_to_num(factor, posinf=0, neginf=0)) + 1),
        )


def tolerances(jax):
    return (1e-7, 1e-9) if jax else (1e-8, 1e-11)
