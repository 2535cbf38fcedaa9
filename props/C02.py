"""C02: a successful backend switch reaches every registered consumer."""
import os
import sys

import numpy as np

from props import C01
from sim import backends, core, world
from sim import refmodel as ref

SPEC = dict(
    rule="a run is non-trivial if it makes at least one switch and compares all bindings and some computed values "
         "afterwards; runs are distinct if their scenarios differ",
    state_measure="tuples (active backend, requested backend, faults in place, outcome) and (active backend, model or "
                  "helper evaluated)",
    real=["gwpopulation.backend and every module registered with it", "gwpopulation.models, utils, vt, hyperpe",
          "Python's import system and entry points", "numpy, scipy, jax"],
    stub=["plugin packages (generated on disk)", "cupy and cupyx (stand-in that forwards to numpy and scipy)"],
    assumptions=["models are made after the switch they are used with (documented)",
                 "nobody turns off double precision while jax is active",
                 "the set of registered modules of a process is fixed"],
    quick=dict(runs=480), thorough=dict(runs=30000),
)
KINDS = ([k for k in world.MASS_CLASSES if k != "UserSmoothed"] + ["InterpolatedPowerlaw"]
         + ["SplineSpinMagnitudeIdentical", "SplineSpinTiltIdentical", "InterpolatedNoBaseModelIdentical",
            "PowerLawRedshift", "MadauDickinsonRedshift", "GaussianChiEffChiP"]
         + [k for k in world.FUNCTIONS if world.FUNCTIONS[k][0] != "user"])
CHEAP = [k for k in world.FUNCTIONS if world.FUNCTIONS[k][0] != "user"] + ["SplineSpinTiltIdentical"]
HELPERS = ["powerlaw", "truncnorm", "beta_dist", "trapezoid", "gaussian_2d", "to_numpy", "plugin", "likelihood",
           "from_numpy", "von_mises"]
FRESH_EVERY = 17


def generate(rng, tier, idx):
    group = idx % 8
    if group == 5:
        group = 13 if idx % 16 == 5 else 5
    packages = backends.plugin_spec(core.make_rng("plugins", rng.parts[0], group), group)
    ops, last = [], "numpy"
    jax_left = 3
    for _ in range(rng.randint(3, 12)):
        name = rng.choices(["switch", "model", "helper", "precision"], [5, 4, 5, 0.7])[0]
        op = dict(op=name)
        if name == "switch":
            op["backend"] = rng.choice([b for b in C01.BACKENDS if b != last] + [last] * (rng.random() < 0.2))
            if rng.random() < 0.12:
                op["fault"] = [C01.make_fault(rng)]
            last = op["backend"]
        elif name == "model":
            kind = rng.choice(KINDS)
            if last == "jax":
                jax_left -= 1
                if jax_left < 0 or rng.random() < 0.5:
                    kind = rng.choice(CHEAP)
            spec = world.component(rng, kind, small=True, cosmo="Planck15")
            op.update(spec=spec, point={k: world.draw(rng, k) for k in spec["params"]}, seed=rng.getrandbits(32))
        elif name == "helper":
            op.update(what=rng.choice(HELPERS), seed=rng.getrandbits(32))
        ops.append(op)
    return dict(packages=packages, fresh=idx % FRESH_EVERY == 3, cupy=rng.random() < 0.7, ops=ops)


def execute(scn, rec):
    if scn["fresh"] and not os.environ.get("VERIF_FRESH"):
        return C01.in_new_interpreter(scn, rec, "C02")
    C01.run(scn, rec, use)


def use(rec, sim, op):
    if sim.active is None:
        return
    kind = op.get("op")
    if kind is None:
        return C01.use(rec, sim, op)
    if kind == "precision":
        if sim.active != "jax" and "jax" in sys.modules:
            import jax

            jax.config.update("jax_enable_x64", False)
            rec.fault("double-precision-switched-off")
        return
    xp = sys.modules[backends.NP_MODULES[sim.active]]
    gen = world.np_gen(op["seed"])
    if kind == "model":
        spec = op["spec"]
        rec.state(sim.active, spec["kind"])
        plain = world.columns(gen, spec["cols"], (7,))
        data = {k: xp.asarray(v) for k, v in plain.items()}
        point = {**spec["fixed"], **op["point"]}
        model = world.build(spec)
        got = model(data, **point)
        expected = np.broadcast_to(world.ref_density(spec, plain, point), (7,))
        C01.check_result(rec, sim, got, expected, spec["kind"], rtol=world.tolerances(sim.active == "jax")[0])
        return
    what = op["what"]
    rec.state(sim.active, what)
    from gwpopulation import utils

    plain = gen.uniform(0.1, 0.9, 6)
    other = gen.uniform(0.1, 0.9, 6)
    data = xp.asarray(plain)
    low, high, index = 0.05, float(gen.uniform(0.95, 2)), float(gen.uniform(-3, 3))
    if what == "powerlaw":
        C01.check_result(rec, sim, utils.powerlaw(data, index, high, low), ref.powerlaw(plain, index, low, high), what)
    elif what == "truncnorm":
        C01.check_result(rec, sim, utils.truncnorm(data, index / 3, high, high, low),
                         ref.truncnorm(plain, index / 3, high, low, high), what)
    elif what == "beta_dist":
        C01.check_result(rec, sim, utils.beta_dist(data, 1 + high, 2.5, scale=high),
                         ref.beta(plain, 1 + high, 2.5, high), what)
    elif what == "trapezoid":
        got = utils.trapezoid(xp.asarray(np.sort(other)), xp.asarray(np.sort(plain)))
        C01.check_result(rec, sim, got, np.trapezoid(np.sort(other), np.sort(plain)), what)
    elif what == "gaussian_2d":
        got = utils.unnormalized_2d_gaussian(data, xp.asarray(other), 0.2, 0.4, 0.5, 0.7, 0.1)
        inverse = np.linalg.inv(np.array([[0.25, 0.035], [0.035, 0.49]]))
        delta = np.stack([plain - 0.2, other - 0.4])
        C01.check_result(rec, sim, got, np.exp(-0.5 * np.einsum("in,ij,jn->n", delta, inverse, delta)), what)
    elif what == "von_mises":
        from scipy.special import i0

        got = utils.von_mises(data, 0.3, high)
        C01.check_result(rec, sim, got, np.exp(high * np.cos(plain - 0.3)) / (2 * np.pi * i0(high)), what)
    elif what == "to_numpy":
        got = utils.to_numpy(data)
        rec.check(type(got) is np.ndarray and got.dtype == np.float64 and np.array_equal(got, plain), "to_numpy",
                  lambda: f"{type(got)}")
    elif what == "from_numpy":
        # data that are still numpy arrays are fine with every backend
        got = utils.truncnorm(plain.copy(), index / 3, high, high, low)
        C01.check_result(rec, sim, got, ref.truncnorm(plain, index / 3, high, low, high), what)
    elif what == "plugin":
        use_plugin(rec, sim, plain)
    else:
        use_likelihood(rec, sim, op, xp)


def use_plugin(rec, sim, plain):
    """Plugins compute with what they were given."""
    for package in sim.installation.packages:
        for module in package["modules"]:
            if module["name"] not in sys.modules:
                continue
            mod = sys.modules[module["name"]]
            if module["xp"] and getattr(mod, "xp", None) is not None:
                C01.check_result(rec, sim, mod.xp.exp(mod.xp.asarray(plain)), np.exp(plain), module["name"] + ".xp")
            if "scipy.special.gammaln" in module["funcs"] and hasattr(mod, "gammaln"):
                from scipy.special import gammaln

                C01.check_result(rec, sim, mod.gammaln(plain), gammaln(plain), module["name"] + ".gammaln", rtol=1e-8)


def use_likelihood(rec, sim, op, xp):
    """A small likelihood with selection function made and evaluated with the active backend."""
    import pandas as pd
    from gwpopulation import hyperpe, vt
    from gwpopulation.models import spin
    from bilby.hyper.model import Model

    gen = world.np_gen(op["seed"])
    point = dict(mu_chi_eff=float(gen.uniform(-0.3, 0.3)), sigma_chi_eff=float(gen.uniform(0.2, 0.8)))
    events = [gen.uniform(-0.9, 0.9, 6) for _ in range(2)]
    injections = gen.uniform(-0.9, 0.9, 40)
    found = dict(chi_eff=xp.asarray(injections), prior=xp.asarray(np.full(40, 0.5)), total_generated=80,
                 analysis_time=1.0)
    # bilby's own cache of model outputs is off, as the package asks for with jax
    selection = vt.ResamplingVT(Model([spin.gaussian_chi_eff], cache=False), found, n_events=2,
                                enforce_convergence=False)
    like = hyperpe.HyperparameterLikelihood(
        [pd.DataFrame(dict(chi_eff=e, prior=np.full(6, 0.5))) for e in events], Model([spin.gaussian_chi_eff],
                                                                                     cache=False),
        selection_function=selection)
    got = float(like.log_likelihood_ratio(dict(point)))
    density = lambda x: ref.truncnorm(x, point["mu_chi_eff"], point["sigma_chi_eff"], -1, 1)  # noqa: E731
    expected = sum(np.log(np.mean(density(e) / 0.5)) for e in events)
    expected -= 2 * np.log(np.sum(density(injections) / 0.5) / 80)
    rec.check(abs(got - expected) <= 1e-9 * (1 + abs(expected)), "wrong-likelihood",
              lambda: f"{sim.active}: got {got}, expected {expected}")
    column = like.data["chi_eff"]
    if sim.active == "jax":
        import jax

        rec.check(isinstance(column, jax.Array) and column.dtype == np.float64, "wrong-library-or-precision",
                  lambda: f"data of a likelihood: {type(column)} {column.dtype}")
    else:
        rec.check(isinstance(column, np.ndarray), "wrong-library-or-precision", lambda: f"{type(column)}")


def cleanup():
    if "jax" in sys.modules:
        import jax

        jax.config.update("jax_enable_x64", True)


simplify = C01.simplify
