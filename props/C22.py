"""C22: process-wide settings of the caller stay as they were."""
import logging
import os
import random
import signal
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from props import C03, C13, C15
from sim import core, faults, oracle, settings, world

SPEC = dict(
    rule="a run is non-trivial if it makes at least two calls and compares all process-wide settings after each; runs are "
         "distinct if their scenarios differ",
    state_measure="tuples (kind of call, models, settings of the caller, outcome)",
    real=["all of gwpopulation", "bilby.hyper.model.Model", "wcosmo", "cached_interpolate", "numpy/jax", "numpyro", "dill"],
    stub=["user population functions, selection and conversion callbacks (sim/userfuncs.py)"],
    assumptions=["calls during which a library is imported for the first time are not judged",
                 "wcosmo's switch for units and double precision in jax belong to the package",
                 "random generators are the business of C12"],
    level="fault_enumeration",
    quick=dict(runs=480), thorough=dict(runs=24000),
)
JAX_EVERY = 13
IMPORT_EVERY = 60
FLOAT = ["ignore", "warn", "raise", "print", "call", "log"]
WARNINGS = ["ignore", "error", "always", "once"]
# one of these makes the numerical libraries raise
OPS = ["ratio", "ratio", "both", "stats", "loglike", "selection", "ppd", "rate", "construct", "density", "helper",
       "serialise", "meta", "report"]


def interrupt(rng):
    return dict(at=rng.choice([rng.randint(1, 30), rng.randint(1, 250)]), exc=rng.choice(sorted(faults.EXCEPTIONS)))


def generate(rng, tier, idx):
    if idx % IMPORT_EVERY == IMPORT_EVERY - 1:
        return dict(kind="import", float=rng.choice(FLOAT[:4]), backend=rng.choice(["numpy", "jax", "both"]))
    jax = idx % JAX_EVERY == JAX_EVERY - 1
    if jax:
        cfg = world.likelihood_config(rng, jax=True, cosmo="Planck15", max_components=1,
                                      groups=["toy", "chi", "tilt", "magnitude"] if rng.random() < 0.7 else None)
    else:
        cfg = world.likelihood_config(rng, max_components=2)
    if cfg["selection"]["kind"] == "grid" and not world.usable_grid(cfg["selection"], cfg["specs"]):
        cfg["selection"] = dict(kind="constant")
    for spec in cfg["specs"]:
        if "shape" in spec["cfg"]:
            spec["cfg"]["shape"] = [40, 25]
    cfg["np_seed"] = rng.getrandbits(32)
    points = world.Points(rng, world.point_names(cfg["specs"], ["rate"] if cfg["cls"] == "Rate" else []))
    ops = []
    for _ in range(rng.randint(4, 8) if jax else rng.randint(4, 14)):
        point, _ = points.next()
        op = dict(op=rng.choice(OPS + (["jit"] * 12 + ["numpyro"] if jax else [])), point=C03.to_sampled(cfg, point),
                  seed=rng.getrandbits(24), mode=rng.choice(["plain", "np", "array"]), extra=False,
                  which=rng.getrandbits(16))
        if rng.random() < 0.45:
            op["own"] = dict(divide=rng.choice(FLOAT), over=rng.choice(FLOAT), invalid=rng.choice(FLOAT),
                             warnings=rng.choice(WARNINGS), precision=rng.choice([3, 8]),
                             logging=rng.choice([10, 20, 50]), signal=rng.random() < 0.3, env=rng.random() < 0.3,
                             cwd=rng.random() < 0.2, nans=jax and rng.random() < 0.5)
        if rng.random() < 0.5:
            op["fault"] = rng.choice([interrupt(rng), interrupt(rng), dict(missing=rng.getrandbits(16)),
                                      dict(data=rng.choice(["nan", "text", "shape"]))])
        ops.append(op)
    return dict(kind="calls", jax=jax, cfg=cfg, ops=ops)


_state = {}


def setup(tier):
    """Load everything that is loaded lazily, so that it is not attributed to the calls."""
    import dill  # noqa
    import gwpopulation
    import jax.experimental.multihost_utils  # noqa
    import wcosmo.backend.jax  # noqa

    from gwpopulation.experimental import cosmo_models, jax, numpyro  # noqa

    for idx in list(range(1, 30)):
        scn = generate(core.make_rng("warm-up", idx), "quick", idx)
        if scn["kind"] == "import" or (scn["jax"] and idx > 14):
            continue
        for op in scn["ops"]:
            op.pop("own", None)
        try:
            execute(scn, core.Recorder())
        except Exception:
            pass  # the runs proper judge
        settings.reset()
    gwpopulation.set_backend("numpy")


class Own:
    """Settings made by the caller around one call."""

    def __init__(self, own, scratch):
        self.own, self.scratch = own or {}, scratch

    def __enter__(self):
        own = self.own
        self.err, self.cwd = np.geterr(), os.getcwd()
        self.call = np.geterrcall()
        self.caught = warnings.catch_warnings()
        self.caught.__enter__()
        self.level = logging.getLogger("bilby").level
        self.options = np.get_printoptions()
        if not own:
            return self
        np.seterrcall(Log())
        np.seterr(divide=own["divide"], over=own["over"], invalid=own["invalid"])
        warnings.simplefilter(own["warnings"])
        warnings.showwarning = quiet
        logging.getLogger("bilby").setLevel(own["logging"])
        np.set_printoptions(precision=own["precision"])
        if own["signal"]:
            self.old = signal.signal(signal.SIGUSR1, handler)
        if own["env"]:
            os.environ["GWPOPULATION_CALLER"] = "set"
        if own["cwd"]:
            os.chdir(self.scratch)
        if own["nans"]:
            import jax

            jax.config.update("jax_debug_nans", True)
        return self

    def __exit__(self, *exc):
        own = self.own
        self.caught.__exit__(*exc)
        logging.getLogger("bilby").setLevel(self.level)
        np.seterr(**self.err)
        np.seterrcall(self.call)
        np.set_printoptions(**self.options)
        os.chdir(self.cwd)
        if own:
            if own["signal"]:
                signal.signal(signal.SIGUSR1, self.old)
            os.environ.pop("GWPOPULATION_CALLER", None)
            if own["nans"]:
                import jax

                jax.config.update("jax_debug_nans", False)
        return False

    def strict(self):
        """Whether the settings make ordinary calls fail."""
        own = self.own
        return bool(own) and ("raise" in (own["divide"], own["over"], own["invalid"]) or own["warnings"] == "error"
                              or own["nans"])


class Log:
    def __call__(self, kind, flag):
        pass

    def write(self, message):
        pass


def quiet(*args, **kwargs):
    pass


def handler(signum, frame):
    pass


def execute(scn, rec):
    if scn["kind"] == "import":
        return run_import(scn, rec)
    import gwpopulation

    faults.forget()
    gwpopulation.set_backend("jax" if scn["jax"] else "numpy")
    run_calls(scn, rec)


def judged(rec, doing, call, own, ignore=()):
    """Make a call and compare the settings; returns its value or the exception."""
    modules = len(sys.modules)
    before = settings.take()
    error, value = None, None
    try:
        value = call()
    except BaseException as exc:
        error = exc
    after = settings.take()
    if isinstance(error, core.Stuck):
        raise error
    if len(sys.modules) != modules:
        rec.probe("first-import")
    else:
        found = settings.difference(before, after, ignore)
        rec.check(found is None, "setting-changed",
                  lambda: f"{doing} ({'failed' if error is not None else 'succeeded'}) changed {found}")
    return value, error


def run_calls(scn, rec):
    import dill
    import gwpopulation
    from gwpopulation import hyperpe

    cfg, jax = scn["cfg"], scn["jax"]
    np.random.seed(cfg["np_seed"])
    held = {}

    def make():
        held["built"] = world.Built(cfg)
        return held["built"]

    value, error = judged(rec, "construction", make, None)
    if error is not None:
        raise error
    built = held["built"]
    like = built.like
    reference = world.RefLikelihood(cfg, like.data, like.sampling_prior)
    label = tuple(s["kind"] for s in cfg["specs"])
    compiled = {}
    scratch = tempfile.mkdtemp(prefix="c22-")
    try:
        for op in scn["ops"]:
            kind, fault, own = op["op"], op.get("fault") or {}, op.get("own")
            rec.step(kind, sorted(op["point"].items()), fault, own)
            terms = reference.terms(op["point"])
            point = C03.arranged(cfg, op)
            if "missing" in fault:
                names = sorted(op["point"])
                point.pop(names[fault["missing"] % len(names)], None)
            check = None
            if kind == "ratio" or (kind == "jit" and any(s["kind"] in C13.SPLINES for s in cfg["specs"])):
                call = lambda: like.log_likelihood_ratio(point)  # noqa: E731
                check = lambda v: oracle.ratio(rec, v, terms, jax)  # noqa: E731
            elif kind == "jit":
                def call():
                    from gwpopulation.experimental.jax import JittedLikelihood

                    if "j" not in compiled or op["which"] % 3 == 0:
                        compiled["j"] = JittedLikelihood(like)
                    return compiled["j"].log_likelihood_ratio(point)
                check = lambda v: oracle.ratio(rec, v, terms, jax)  # noqa: E731
            elif kind == "both":
                call = lambda: like.ln_likelihood_and_variance(point)  # noqa: E731
                check = lambda v: oracle.ln_l_and_variance(rec, v, cfg, terms, jax)  # noqa: E731
            elif kind == "stats":
                before = dict(point)
                call = lambda: like.generate_extra_statistics(point)  # noqa: E731
                check = lambda v: oracle.statistics(rec, v, before, cfg, terms, jax)  # noqa: E731
            elif kind == "loglike":
                call = lambda: like.log_likelihood(point)  # noqa: E731
            elif kind == "meta":
                call = lambda: getattr(like, "meta_data")  # noqa: E731
            elif kind == "report":
                call = lambda: (repr(like), str(like.__dict__)[:5], dir(like))  # noqa: E731
            elif kind == "numpyro":
                if cfg["conversion"] != "default" or cfg["cls"] == "Null":
                    continue
                call = lambda: C15.numpyro_trace(like, point)  # noqa: E731
            elif kind in ("selection", "rate"):
                if cfg["conversion"] != "default" or built.selection is None:
                    continue
                call = ((lambda: built.selection(point)) if kind == "selection"
                        else (lambda: like.generate_rate_posterior_sample(point)))
            elif kind == "density":
                i = op["which"] % len(built.models)
                spec = cfg["specs"][i]
                if cfg["conversion"] != "default":
                    continue
                inner = {k: v for k, v in point.items() if k in spec["params"] or k in spec["fixed"]}
                call = lambda: built.models[i](like.data, **inner)  # noqa: E731
            elif kind == "ppd":
                call = lambda: like.posterior_predictive_resample([point])  # noqa: E731
            elif kind == "serialise":
                call = lambda: dill.loads(dill.dumps(like))  # noqa: E731
            elif kind == "helper":
                call = lambda: helper(op, jax)  # noqa: E731
            else:
                def call():
                    new = world.Built(cfg)
                    frames = world.posteriors(cfg)
                    if "data" in fault:
                        spoil(frames, fault["data"])
                    return hyperpe.HyperparameterLikelihood(frames, new.hyper_prior)

            cut = faults.Interrupt(fault["at"], fault["exc"]) if "at" in fault else None

            def under_fault():
                if cut is None:
                    return call()
                with cut:
                    return call()

            with Own(own, scratch) as mine:
                strict = mine.strict()
                value, error = judged(rec, kind, under_fault, own)
            outcome = "done"
            if error is not None:
                outcome = type(error).__name__
                if cut is not None and cut.fired is not None:
                    rec.fault("interrupt")
                elif strict and isinstance(error, Exception):
                    rec.fault("caller-made-it-raise")
                elif "missing" in fault:
                    rec.fault("missing-parameter")
                elif "data" in fault:
                    rec.fault("bad-data")
                elif kind in ("ppd", "rate", "helper", "meta", "numpyro"):
                    rec.probe("refused")
                else:
                    raise error
            elif check is not None and "missing" not in fault and not fault and not (own and jax):
                check(value)
            rec.state(kind, label, bool(own), strict, sorted(fault), outcome)
        # afterwards everything works as before
        point = C03.arranged(cfg, dict(scn["ops"][0], mode="plain"))
        value, error = judged(rec, "last", lambda: like.log_likelihood_ratio(point), None)
        if error is not None:
            raise error
        oracle.ratio(rec, value, reference.terms(scn["ops"][0]["point"]), jax)
        for name in ("jax", "numpy") if scn["ops"][0]["seed"] % 4 == 0 else ("numpy",):
            value, error = judged(rec, f"set_backend({name})", lambda: gwpopulation.set_backend(name), None,
                                  ignore=("jax_enable_x64",))
            if error is not None:
                raise error
    finally:
        os.rmdir(scratch)


def spoil(frames, how):
    frame = frames[0]
    name = sorted(frame)[0]
    if how == "nan":
        frame[name] = np.nan
    elif how == "text":
        frame[name] = "text"
    else:
        frame.drop(columns=[name], inplace=True)


def helper(op, jax):
    from gwpopulation import conversions, utils

    rng = random.Random(op["seed"])
    name = rng.choice(["beta_dist", "powerlaw", "truncnorm", "von_mises", "beta", "mu", "ab", "gauss", "to_numpy", "volume"])
    xx = world.as_backend(dict(x=np.linspace(0.01, 1.2, 7)), jax)["x"]
    bad = rng.random() < 0.4  # inadmissible arguments
    if name == "beta_dist":
        return utils.beta_dist(xx, -1.0 if bad else 2.0, 3.0)
    if name == "powerlaw":
        return utils.powerlaw(xx, -1.0 if rng.random() < 0.5 else 2.0, 1.0, -1.0 if bad else 0.1)
    if name == "truncnorm":
        return utils.truncnorm(xx, 0.4, -1.0 if bad else 0.2, 1.0, 0.0)
    if name == "von_mises":
        return utils.von_mises(xx, 0.4, -1.0 if bad else 1e4)
    if name == "beta":
        params = dict(mu_chi=0.3, sigma_chi=0.02, amax=1.0, xi_spin=0.2)
        if bad:
            del params["amax"]
        return conversions.convert_to_beta_parameters(params)
    if name == "mu":
        return conversions.mu_var_max_to_alpha_beta_max(0.0 if bad else 0.4, 0.0 if bad else 0.02, 1.0)
    if name == "ab":
        return conversions.alpha_beta_max_to_mu_var_max(0.0 if bad else 2.0, 0.0 if bad else 3.0, 1.0)
    if name == "gauss":
        return utils.unnormalized_2d_gaussian(xx, xx, 0.1, 0.2, 0.0 if bad else 0.3, 0.3, 1.0 if bad else 0.4)
    if name == "volume":
        from gwpopulation.models.redshift import total_four_volume

        return total_four_volume(2.7, 1.0, 1.0 if not bad else -1.0)
    return utils.to_numpy(xx)


IMPORTS = r"""
import sys
sys.path[:0] = [sys.argv[1], sys.argv[2]]
import numpy as np, os, types, warnings
import bilby, bilby.hyper.model, wcosmo, wcosmo.astropy, wcosmo.utils, cached_interpolate, pandas, scipy.special, scipy.linalg, scipy.stats, tqdm, dill
import scipy.interpolate, scipy.integrate
import jax, jax.numpy, jax.scipy.special, jax.scipy.linalg, numpyro, numpyro.distributions
import importlib.metadata
if not os.path.exists(os.path.join(sys.argv[2], "gwpopulation", "_version.py")):
    stub = types.ModuleType("gwpopulation._version"); stub.__version__ = "0"; sys.modules["gwpopulation._version"] = stub
np.seterr(all=sys.argv[3])
warnings.simplefilter("ignore")
from sim import settings
before = settings.take()
import gwpopulation, gwpopulation.experimental.jax, gwpopulation.experimental.numpyro, gwpopulation.experimental.cosmo_models
found = settings.difference(before, settings.take(), ("jax_enable_x64",))
if found is None:
    for name in ["jax", "numpy"] if sys.argv[4] == "both" else [sys.argv[4]]:
        before = settings.take()
        gwpopulation.set_backend(name)
        found = found or settings.difference(before, settings.take(), ("jax_enable_x64",))
print("FOUND" if found else "NONE", found)
"""


def run_import(scn, rec):
    """Importing the package and choosing a backend in a new interpreter."""
    rec.step("import", scn["float"], scn["backend"])
    rec.state("import", scn["float"], scn["backend"])
    done = subprocess.run([sys.executable, "-B", "-c", IMPORTS, os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                           core.REPO, scn["float"], scn["backend"]], capture_output=True, text=True, timeout=200)
    line = (done.stdout.strip().splitlines() or [""])[-1]
    if not line.startswith(("NONE", "FOUND")):
        if "gwpopulation" in done.stderr:
            rec.check(False, "import-failed", lambda: done.stderr[-1500:])
        raise RuntimeError(done.stderr[-2000:])
    rec.check(line.startswith("NONE"), "setting-changed", lambda: f"import: {line}")
    rec.checks += 1


def cleanup():
    settings.reset()
    logging.getLogger("bilby").setLevel(logging.CRITICAL)
