"""User-supplied population models and callbacks (what a caller of the package writes)."""
import math

import numpy as np


def _exp(x):
    if isinstance(x, (np.ndarray, np.generic, float, int)):
        return np.exp(x)
    import jax.numpy as jnp

    return jnp.exp(x)


def toy_gauss(dataset, mu_x, sig_x):
    return _exp(-0.5 * ((dataset["x"] - mu_x) / sig_x) ** 2) / sig_x / math.sqrt(2 * math.pi)


def toy_exp(dataset, tau):
    return _exp(-dataset["y"] / tau) / tau


def toy_tilted(dataset, slope_x, slope_y):
    return (
        1
        + slope_x * dataset["x"] * slope_y * dataset["y"]
        + (slope_x * 3) ** 2
        + slope_y**2 * 9
    )


class ToyClass:
    """A model class with variable_names, as in the documentation."""

    variable_names = ["mu_x", "sig_x"]

    def __call__(self, dataset, **kwargs):
        return toy_gauss(dataset, kwargs["mu_x"], kwargs["sig_x"])


class CustomPrior:
    """A hyper_prior that is neither a function nor a bilby Model."""

    def __init__(self, models):
        from bilby.hyper.model import Model

        self.models = models
        self.parameters = dict()
        self._model = Model(models, cache=False)

    def prob(self, data, **kwargs):
        return self._model.prob(data, **kwargs)


def user_powerlaw(mass, slope, mmin, mmax):
    from gwpopulation.utils import powerlaw

    return powerlaw(mass, alpha=-slope, high=mmax, low=mmin)


_USER_SMOOTHED = None


def UserSmoothed(**kwargs):
    """A user's smoothed mass distribution built on the documented base class."""
    global _USER_SMOOTHED
    if _USER_SMOOTHED is None:
        from gwpopulation.models.mass import BaseSmoothedMassDistribution

        class _UserSmoothed(BaseSmoothedMassDistribution):
            primary_model = user_powerlaw

        _UserSmoothed.__qualname__ = "_UserSmoothedClass"
        _UserSmoothed.__name__ = "_UserSmoothedClass"
        globals()["_UserSmoothedClass"] = _UserSmoothed
        _USER_SMOOTHED = _UserSmoothed
    return _USER_SMOOTHED(**kwargs)


def identity_conversion(parameters):
    return parameters, None


def scaled_conversion(parameters):
    """Adds tau from log_tau without touching its input."""
    converted = parameters.copy()
    added = []
    if "log_tau" in converted:
        converted["tau"] = _exp(converted["log_tau"])
        added.append("tau")
    return converted, added


class SimpleSelection:
    """A selection function written by a user: smooth, with or without a variance."""

    def __init__(self, key, scale, with_variance, as_array=False):
        self.key, self.scale = key, scale
        self.with_variance, self.as_array = with_variance, as_array

    def value(self, parameters):
        return self.scale / (1 + _exp(-parameters[self.key]))

    def __call__(self, parameters):
        value = self.value(parameters)
        if self.with_variance:
            variance = value**2 * 1e-3
            if self.as_array and isinstance(value, (float, np.floating)):
                return np.array(value), np.array(variance)
            return value, variance
        return value


def constant_selection(parameters):
    return 0.37


class TablePrior:
    """A population model whose output at a point is a row of a table."""

    def __init__(self, table):
        self.table = table
        self.parameters = dict()

    def prob(self, data, case, **kwargs):
        return self.table[case]


class TableFunction:
    """The same as a component of a bilby Model."""

    variable_names = ["case"]

    def __init__(self, table):
        self.table = table

    def __call__(self, dataset, case):
        return self.table[case]


class TableSelection:
    """A selection function whose output is an entry of a table."""

    def __init__(self, values, variances, forms=None):
        self.values, self.variances, self.forms = values, variances, forms

    def __call__(self, parameters):
        case = parameters["case"]
        value = self.values[case]
        variance = None if self.variances is None else self.variances[case]
        if self.forms is not None:
            convert = dict(float=float, np=np.float64, array=np.array)[self.forms[case]]
            value = convert(value)
            variance = None if variance is None else convert(variance)
        return value if variance is None else (value, variance)


class MemoPrimary:
    """A primary mass model that keeps its results, like a function with a cache."""

    def __init__(self):
        self.variable_names = ["slope", "mmin", "mmax"]
        self.memo = []

    def __call__(self, mass, slope, mmin, mmax):
        key = (float(slope), float(mmin), float(mmax))
        for masses, used, result, _ in self.memo:
            if masses is mass and used == key:
                return result
        result = user_powerlaw(mass, slope, mmin, mmax)
        self.memo.append((mass, key, result, np.array(result)))
        return result

    def corrupted(self):
        return [key for _, key, result, copy in self.memo if not np.array_equal(np.asarray(result), copy)]


def memo_smoothed(primary, **kwargs):
    from gwpopulation.models.mass import BaseSmoothedMassDistribution

    return type("MemoSmoothed", (BaseSmoothedMassDistribution,), dict(primary_model=primary))(**kwargs)


def tempered(likelihood, parameters, power=1.0):
    """A caller's own function for the compiled likelihood."""
    return power * likelihood.log_likelihood_ratio(parameters)
