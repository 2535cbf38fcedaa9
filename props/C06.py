"""C06: every evaluation uses its own cosmology."""
import numpy as np

from sim import oracle, world
from sim import refmodel as ref

SPEC = dict(
    rule="a run is non-trivial if it evaluates at least two cosmologies and compares at least one result; runs are "
         "distinct if their scenarios differ",
    state_measure="tuples (object, cosmology, column set and order, operation, move since the previous call)",
    real=["gwpopulation.experimental.cosmo_models", "gwpopulation.models", "gwpopulation.hyperpe", "gwpopulation.vt",
          "wcosmo", "bilby.hyper.model.Model", "cached_interpolate", "numpy/jax"],
    stub=["user population functions (sim/userfuncs.py)"],
    assumptions=["wcosmo's distance and volume functions are right (the reference uses them with explicit arguments)"],
    quick=dict(runs=720), thorough=dict(runs=24000),
)
JAX_EVERY = 15
COSMOLOGIES = ["FlatLambdaCDM"] * 3 + ["FlatwCDM"] * 3 + ["Planck15", "Planck18"]
DETECTOR = ["mass_1_detector", "mass_2_detector", "chirp_mass_detector"]
OTHER = ["mass_ratio", "a_1", "chi_eff", "mass_2"]


def generate(rng, tier, idx):
    jax = idx % JAX_EVERY == JAX_EVERY - 1
    kinds = rng.choices(["mixin", "model", "redshift", "likelihood"], [2, 3, 1.5, 3], k=1 if jax else rng.randint(1, 3))
    objects = []
    for kind in kinds:
        cosmo = rng.choice(COSMOLOGIES)
        if kind == "mixin":
            specs, cols = [], []
        elif kind == "redshift":
            specs = [world.component(rng, rng.choice(world.GROUPS["redshift"]), cosmo=cosmo)]
            cols = ["redshift"]
        else:
            specs, cols = [], []
            if rng.random() < 0.8:
                mass = rng.choice(list(world.MASS_CLASSES) * 2 + ["InterpolatedPowerlaw", "InterpolatedPowerlaw",
                                  "power_law_primary_mass_ratio", "two_component_primary_mass_ratio"])
                specs.append(world.component(rng, mass, small=jax))
                cols += ["mass_1_detector", "mass_ratio"]
            if rng.random() < 0.4:
                specs.append(world.component(rng, rng.choice(["SplineSpinMagnitudeIdentical", "iid_spin_magnitude_beta"])))
                cols += ["a_1", "a_2"]
            if not specs or rng.random() < 0.7:
                specs.append(world.component(rng, rng.choice(world.GROUPS["redshift"]),
                                             cosmo=cosmo if rng.random() < 0.85 else rng.choice(COSMOLOGIES)))
            distance = rng.choice(["luminosity_distance"] * 4 + ["redshift", "both"])
            cols += ["luminosity_distance", "redshift"] if distance == "both" else [distance]
            rng.shuffle(cols)
        names = world.point_names(specs, world.cosmo_names(cosmo))
        objects.append(dict(kind=kind, cosmo=cosmo, specs=specs, cols=cols, names=names, seed=rng.getrandbits(32),
                            shape=[3, 8] if jax else rng.choice([[3, 8], [20], [1, 5]]), selection=rng.random() < 0.6,
                            enforce=rng.random() < 0.5, share=rng.random() < 0.3))
    points = [world.Points(rng, o["names"] or ["H0"]) for o in objects]
    ops = []
    for _ in range(rng.randint(2, 3) if jax else rng.randint(4, 18)):
        which = rng.randrange(len(objects))
        obj = objects[which]
        point, move = points[which].next()
        if rng.random() < 0.5:
            # move the cosmology on its own
            point = dict(points[which].history[-2])
            cosmological = world.cosmo_names(obj["cosmo"])
            if cosmological:
                name = rng.choice(cosmological)
                point[name] = world.draw(rng, name)
                move = "cosmology"
            points[which].history[-1] = point
        op = dict(op="call", which=which, point=point, move=move, seed=rng.getrandbits(32),
                  mode="plain" if jax else rng.choice(["plain", "plain", "np", "array"]),
                  extra=rng.random() < 0.3)
        if obj["kind"] == "mixin":
            cols = rng.sample(DETECTOR, rng.randint(0, 3)) + rng.sample(OTHER, rng.randint(0, 3))
            cols += rng.choice([["luminosity_distance"]] * 4 + [["redshift"], ["redshift", "luminosity_distance"], []])
            # a quantity is given in one frame only
            cols = [c for c in cols if c + "_detector" not in cols]
            rng.shuffle(cols)
            op["cols"] = cols
        elif obj["kind"] == "likelihood":
            op["op"] = rng.choice(["ratio", "ratio", "both", "stats", "selection", "volume"])
        elif obj["kind"] == "redshift":
            op["op"] = rng.choice(["call", "call", "norm"])
        elif rng.random() < 0.4:
            op["order"] = rng.getrandbits(16)
        if obj["kind"] in ("redshift", "model") and not jax:
            # the second data set has the shape of the first
            op["data"] = rng.choice([0, 0, 1, 1, 2])
            op["replaced"] = rng.random() < 0.3
        if rng.random() < 0.08 and world.cosmo_names(obj["cosmo"]) and op["op"] != "volume":
            op["fault"] = dict(kind="missing", name=rng.choice(world.cosmo_names(obj["cosmo"])))
        ops.append(op)
    return dict(jax=jax, objects=objects, ops=ops)


class Reference(world.RefLikelihood):
    """Reference with the conversion to the source frame in front of the densities."""

    def __init__(self, cfg, data, prior, cosmo, injections):
        super().__init__(dict(cfg, selection=dict(kind="none")), data, prior)
        self.cosmo = cosmo
        self.cfg = cfg
        if injections is not None:
            self.injections = injections
            self.settings = dict(n_events=cfg["n_events"], marginalize=False, enforce=cfg["enforce"])

    def _source(self, data, point):
        point = {k: float(v) for k, v in point.items()}
        data, jacobian = ref.to_source_frame(data, point, self.cosmo)
        return world.ref_product(self.cfg["specs"], data, point) / jacobian

    def weights(self, point):
        return self._source(self.data, point) / self.prior

    def injection_weights(self, point):
        data = {k: v for k, v in self.injections.items() if np.ndim(v)}
        prior = data.pop("prior")
        return self._source(data, point) / prior


def build_object(obj, jax):
    import pandas as pd
    from gwpopulation.experimental.cosmo_models import CosmoMixin, CosmoModel
    from gwpopulation.hyperpe import HyperparameterLikelihood
    from gwpopulation.vt import ResamplingVT

    gen = world.np_gen(obj["seed"])
    out = dict(spec=obj)
    if obj["kind"] == "mixin":
        out["object"] = CosmoMixin(cosmo_model=obj["cosmo"])
    elif obj["kind"] == "redshift":
        out["plain"] = [world.columns(gen, obj["cols"], tuple(shape)) for shape in (obj["shape"], obj["shape"], [2, 7])]
        out["data"] = [world.as_backend(p, jax) for p in out["plain"]]
        out["held"] = dict(out["data"][0])
        out["object"] = world.build(obj["specs"][0])
    elif obj["kind"] == "model":
        out["plain"] = [world.columns(gen, obj["cols"], tuple(shape)) for shape in (obj["shape"], obj["shape"], [2, 7])]
        out["data"] = [world.as_backend(p, jax) for p in out["plain"]]
        out["held"] = dict(out["data"][0])
        out["object"] = CosmoModel([world.build(s) for s in obj["specs"]], cosmo_model=obj["cosmo"])
    else:
        frames = []
        for _ in range(3):
            columns = world.columns(gen, obj["cols"], 8)
            columns["prior"] = gen.uniform(0.2, 2, 8)
            frames.append(pd.DataFrame(columns))
        models = [world.build(s) for s in obj["specs"]]
        selection, injections = None, None
        kwargs = {}
        if obj["selection"]:
            injections = world.columns(gen, obj["cols"], 60)
            injections["prior"] = gen.uniform(0.2, 2, 60)
            injections["total_generated"] = 150
            injections["analysis_time"] = 1.5
            inner = models if obj["share"] else [world.build(s) for s in obj["specs"]]
            given = {k: (world.as_backend({k: v}, jax)[k] if np.ndim(v) else v) for k, v in injections.items()}
            selection = ResamplingVT(CosmoModel(inner, cosmo_model=obj["cosmo"]), given, n_events=3,
                                     enforce_convergence=obj["enforce"])
            kwargs["selection_function"] = selection
        like = HyperparameterLikelihood(frames, CosmoModel(models, cosmo_model=obj["cosmo"]), **kwargs)
        cfg = dict(specs=obj["specs"], cls="Hyper", n_events=3, conversion="default", max_uncertainty=None,
                   selection=dict(kind="resampling", n=60) if obj["selection"] else dict(kind="none"),
                   enforce=obj["enforce"])
        out.update(object=like, selection=selection, cfg=cfg,
                   reference=Reference(cfg, like.data, like.sampling_prior, obj["cosmo"], injections))
    return out


def pick(item, op):
    """The data set for one call, possibly as new contents of a dictionary used before."""
    which = op.get("data", 0)
    if op.get("replaced"):
        item["held"].update(item["data"][which])
        return item["held"], item["plain"][which]
    return item["data"][which], item["plain"][which]


def execute(scn, rec):
    import gwpopulation

    jax = scn["jax"]
    gwpopulation.set_backend("jax" if jax else "numpy")
    rtol = 1e-6 if jax else 1e-8
    np.random.seed(7)
    built = [build_object(o, jax) for o in scn["objects"]]
    caller = world.Caller()
    for op in scn["ops"]:
        item, obj = built[op["which"]], scn["objects"][op["which"]]
        rec.step(op["op"], obj["kind"], obj["cosmo"], sorted(op["point"].items()), op.get("cols"), op.get("fault"))
        rec.state(obj["kind"], obj["cosmo"], tuple(obj["cols"]), tuple(op.get("cols", [])), op["op"], op["move"])
        values = {**world.fixed_values(obj["specs"]), **op["point"]}
        if op["extra"]:
            # a fixed cosmology ignores cosmological parameters meant for something else
            for name, value in (("H0", 33.0), ("Om0", 0.11), ("w0", -0.3)):
                values.setdefault(name, value)
        missing = op.get("fault", {}).get("name")
        if missing:
            values.pop(missing, None)
        point = caller.give(world.arrange(values, op["seed"] & 0xFFFF, op["mode"], jax=jax), op["seed"] % 3 == 0)
        plain_point = {k: float(v) for k, v in op["point"].items()}
        target = item["object"]

        def attempt(call):
            if not missing:
                return call()
            try:
                result = call()
            except KeyError:
                rec.fault("missing-cosmological-parameter")
                return None
            rec.check(False, "missing-parameter-accepted", f"{missing} was not needed: {result!r}")

        if obj["kind"] == "mixin":
            plain = world.columns(world.np_gen(op["seed"]), op["cols"], tuple(obj["shape"]))
            data = world.as_backend(plain, jax)
            if not {"luminosity_distance", "redshift"} & set(op["cols"]):
                try:
                    target.detector_frame_to_source_frame(data, **point)
                    rec.check(False, "no-distance-accepted", str(op["cols"]))
                except ValueError:
                    rec.checks += 1
                continue
            if "luminosity_distance" not in op["cols"]:
                missing = None
            result = attempt(lambda: target.detector_frame_to_source_frame(data, **point))
            if result is None:
                continue
            samples, jacobian = result
            expected, expected_jacobian = ref.to_source_frame(plain, plain_point, obj["cosmo"])
            rec.check(set(samples) == set(expected), "source-frame-columns",
                      lambda: f"{sorted(samples)} instead of {sorted(expected)}")
            for key, value in expected.items():
                exact = key in op["cols"] and not key.endswith("_detector")
                got = np.asarray(samples[key], float)
                rec.check(oracle.same(got, value, 0 if exact else rtol * np.abs(value)),
                          "pass-through" if exact else "source-frame",
                          lambda: f"{key}: got {got.ravel()[:3]}, expected {value.ravel()[:3]}")
            got = np.asarray(jacobian, float)
            rec.check(oracle.same(got, np.broadcast_to(expected_jacobian, got.shape), rtol * np.abs(expected_jacobian)),
                      "jacobian", lambda: f"got {got.ravel()[:3]}, expected {expected_jacobian.ravel()[:3]}")
        elif obj["kind"] == "redshift":
            spec = obj["specs"][0]
            if op["op"] == "norm":
                result = attempt(lambda: target.normalisation(point))
                if result is not None:
                    expected = ref.redshift_norm(spec["kind"], plain_point, spec["cfg"])
                    got = oracle.number(result)
                    rec.check(oracle.same(got, expected, rtol * expected), "normalisation",
                              lambda: f"got {got}, expected {expected}")
            else:
                given, plain = pick(item, op)
                result = attempt(lambda: target(given, **point))
                if result is not None:
                    compare(rec, result, world.ref_density(spec, plain, plain_point), rtol, "redshift-density")
        elif obj["kind"] == "model":
            given, plain = pick(item, op)
            keys = list(given)
            if op.get("order") is not None:
                import random

                random.Random(op["order"]).shuffle(keys)
            data = {k: given[k] for k in keys} if keys != list(given) else given
            if "luminosity_distance" not in obj["cols"] and not any(
                    missing in s["params"] for s in obj["specs"]):
                missing = None
            result = attempt(lambda: target.prob(data, **point))
            if result is None:
                continue
            source, jacobian = ref.to_source_frame(plain, plain_point, obj["cosmo"])
            expected = world.ref_product(obj["specs"], source, plain_point) / jacobian
            compare(rec, result, np.broadcast_to(expected, np.shape(jacobian)), rtol, "density")
        else:
            reference = item["reference"]
            if "luminosity_distance" not in obj["cols"] and not any(missing in s["params"] for s in obj["specs"]):
                missing = None
            if op["op"] in ("selection", "volume") and item["selection"] is None:
                continue
            if op["op"] == "volume":
                expected = reference_volume(obj, plain_point)
                got = oracle.number(item["selection"].surveyed_hypervolume(point))
                rec.check(oracle.same(got, expected, rtol * expected), "hypervolume",
                          lambda: f"got {got}, expected {expected}")
                continue
            if op["op"] == "selection":
                result = attempt(lambda: item["selection"].detection_efficiency(point))
                if result is not None:
                    mu, var = reference.efficiency(plain_point)
                    got = oracle.number(result[0])
                    rec.check(oracle.same(got, mu, rtol * abs(mu)), "efficiency", lambda: f"got {got}, expected {mu}")
                continue
            terms = reference.terms(plain_point)
            if op["op"] == "ratio":
                result = attempt(lambda: target.log_likelihood_ratio(point))
                if result is not None:
                    oracle.ratio(rec, result, loosened(terms, jax), jax)
            elif op["op"] == "both":
                result = attempt(lambda: target.ln_likelihood_and_variance(point))
                if result is not None:
                    oracle.ln_l_and_variance(rec, result, item["cfg"], loosened(terms, jax), jax)
            else:
                result = attempt(lambda: target.generate_extra_statistics(dict(point)))
                if result is not None:
                    oracle.statistics(rec, result, point, item["cfg"], loosened(terms, jax), jax)
    for item, obj in zip(built, scn["objects"]):
        if "plain" in item:
            for plain, given in zip(item["plain"], item["data"]):
                for key, value in plain.items():
                    rec.check(np.array_equal(np.asarray(given[key]), value), "data-changed", key)


def loosened(terms, jax):
    """Redshifts come from an interpolation table: allow for its rounding on jax."""
    if jax:
        terms = dict(terms, size=terms["size"] * 10, var_scale=terms["var_scale"] * 10)
    return terms


def reference_volume(obj, point):
    for spec in reversed(obj["specs"]):
        if spec["kind"] in world.GROUPS["redshift"]:
            return ref.redshift_norm(spec["kind"], point, spec["cfg"]) / 1e9 * 1.5
    return ref.four_volume(0, 1.5)


def compare(rec, result, expected, rtol, what):
    got = np.asarray(result, float)
    with np.errstate(all="ignore"):
        scale = rtol * (np.abs(expected) + 1e-6 * np.nanmax(np.abs(expected)))
    rec.check(oracle.same(got, expected, scale), what,
              lambda: f"got {got.ravel()[:4]}, expected {expected.ravel()[:4]}")
