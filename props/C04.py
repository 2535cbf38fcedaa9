"""C04: population models return the same density whatever they did before."""
import numpy as np

from props import C07
from sim import oracle, world
from sim import refmodel as ref

SPEC = dict(
    rule="a run is non-trivial if it makes at least two calls on model instances and compares at least one density; "
         "runs are distinct if their scenarios differ",
    state_measure="tuples (model, what the previous call on the instance used, what this call changed: data, shape, "
                  "nodes, parameters)",
    real=["gwpopulation.models", "gwpopulation.utils", "wcosmo", "cached_interpolate", "numpy/jax"],
    stub=["user-defined primary mass function (sim/userfuncs.py)"],
    assumptions=["arrays of a data set are replaced, not modified in place",
                 "node positions stay the same while the number of nodes stays the same; the number of nodes never "
                 "decreases"],
    quick=dict(runs=1440), thorough=dict(runs=40000),
)
JAX_EVERY = 9
LONG_EVERY = 30
KINDS = (list(world.MASS_CLASSES) * 3 + ["InterpolatedPowerlaw"] * 4 + ["SplineSpinMagnitudeIdentical"] * 3
         + ["SplineSpinTiltIdentical"] * 3 + ["InterpolatedNoBaseModelIdentical"] * 4
         + ["PowerLawRedshift", "MadauDickinsonRedshift", "GaussianChiEffChiP"] * 2
         + [k for k in world.FUNCTIONS if world.FUNCTIONS[k][0] != "user"] + list(world.MASS_FUNCTIONS))
SHAPES = [[1], [5], [5], [16], [3, 4], [3, 4], [2, 8], [4, 3]]


def make_spec(rng, kind, jax):
    if kind in world.MASS_FUNCTIONS:
        return dict(kind=kind, cfg={}, params=list(world.MASS_FUNCTIONS[kind]), fixed={}, cols=["mass"])
    return world.component(rng, kind, small=jax, cosmo="Planck15" if jax else None)


def generate(rng, tier, idx):
    jax = idx % JAX_EVERY == JAX_EVERY - 1
    n_models = 1 if jax else rng.choice([1, 1, 2, 3])
    specs = [make_spec(rng, rng.choice(KINDS), jax) for _ in range(n_models)]
    if n_models > 1 and rng.random() < 0.6:
        # several instances of one class, possibly with other settings
        specs = [make_spec(rng, specs[0]["kind"], jax) for _ in range(n_models)]
    points = [world.Points(rng, s["params"]) for s in specs]
    nodes = [s["cfg"].get("nodes") for s in specs]
    shapes = [rng.choice(SHAPES) for _ in range(3)]
    large = not jax and rng.random() < 0.04
    if large:
        shapes[rng.randrange(3)] = rng.choice([[1025], [10007], [69, 150]])
    ops = []
    long = not jax and idx % LONG_EVERY == LONG_EVERY - 2 and not any("shape" in s["cfg"] for s in specs)
    for _ in range(rng.randint(3, 6) if jax else rng.randint(150, 400) if long and not large else rng.randint(5, 12 if large else 30)):
        kind = rng.choices(["call", "renew", "scribble", "names", "part"], [10, 2.5, 1.5, 0.8, 1.5])[0]
        which = rng.randrange(n_models)
        spec = specs[which]
        if kind == "renew":
            ops.append(dict(op="renew", data=rng.randrange(3), seed=rng.getrandbits(32),
                            shape=rng.choice([None, None, None] + SHAPES) if not jax else None,
                            same_dict=rng.random() < 0.5, drop=rng.random() < 0.5))
            continue
        point, move = points[which].next()
        if (nodes[which] is not None and spec["kind"] != "InterpolatedPowerlaw" and rng.random() < 0.08
                and nodes[which] < 12 and not jax):
            nodes[which] += rng.randint(1, 2)
        ops.append(dict(op=kind, model=which, data=rng.randrange(3), point=point, move=move, nodes=nodes[which],
                        mode=rng.choice(["plain", "plain", "np", "array"]), seed=rng.getrandbits(24),
                        fresh_dict=rng.random() < 0.4))
    return dict(jax=jax, specs=specs, shapes=shapes, data_seed=rng.getrandbits(32), wide=rng.random() < 0.2, ops=ops)


def make_data(scn, seed, shape):
    cols = []
    for spec in scn["specs"]:
        cols += [c for c in spec["cols"] if c not in cols and c != "mass"]
    gen = world.np_gen(seed)
    if any("mass" in s["cols"] for s in scn["specs"]) and "mass_1" not in cols:
        cols.append("mass_1")
    data = world.columns(gen, cols, tuple(shape))
    if scn["wide"] and "mass_1" in data:
        data["mass_1"] = gen.uniform(1.5, 130, tuple(shape))
    if scn["wide"] and "redshift" in data:
        data["redshift"] = gen.uniform(0.001, 4, tuple(shape))
    return data


def execute(scn, rec):
    import gwpopulation
    from gwpopulation.models import mass

    jax = scn["jax"]
    gwpopulation.set_backend("jax" if jax else "numpy")
    rtol, _ = world.tolerances(jax)
    models = []
    for spec in scn["specs"]:
        if spec["kind"] in world.MASS_FUNCTIONS:
            models.append(getattr(mass, spec["kind"]))
        else:
            models.append(world.build(spec))
    names = [sorted(m.variable_names) if hasattr(m, "variable_names") else None for m in models]
    node_counts = [s["cfg"].get("nodes") for s in scn["specs"]]
    plain = [make_data(scn, scn["data_seed"] + i, shape) for i, shape in enumerate(scn["shapes"])]
    data = [world.as_backend(d, jax) for d in plain]
    plain = [{k: np.array(v) for k, v in d.items()} for d in plain]
    last = None
    before, earlier = {}, {}
    for op in scn["ops"]:
        kind = op["op"]
        if kind == "renew":
            j = op["data"]
            shape = op["shape"] or next(iter(plain[j].values())).shape
            if op["drop"]:
                # the old arrays are gone before the new ones exist, which may get their addresses
                data[j], plain[j] = dict.fromkeys(data[j]), None
            fresh = make_data(scn, op["seed"], shape)
            new = world.as_backend(fresh, jax)
            plain[j] = {k: np.array(v) for k, v in fresh.items()}
            if op["same_dict"]:
                for key in list(data[j]):
                    data[j][key] = None
                data[j].update(new)
            else:
                data[j] = new
            rec.step("renew", j, list(shape), op["seed"])
            continue
        i, j = op["model"], op["data"]
        spec, model = scn["specs"][i], models[i]
        point = C07.node_point(spec, op)
        rec.step(kind, spec["kind"], j, op["nodes"], sorted(op["point"].items()))
        dataset = dict(data[j]) if op["fresh_dict"] else data[j]
        if kind == "scribble":
            if isinstance(last, np.ndarray) and last.flags.writeable and last.ndim:
                last[...] = -7.0
                rec.fault("scribble-on-result")
            continue
        if kind == "names":
            if names[i] is not None and op["nodes"] == node_counts[i]:
                got = sorted(model.variable_names)
                rec.check(got == names[i], "variable_names", lambda: f"{got} instead of {names[i]}")
            continue
        given = world.arrange(point, op["seed"], op["mode"], jax=jax)
        if op["move"] == "swap" and op["mode"] != "array":
            given = world.in_value_order(given, earlier.setdefault(i, []))
        if op["mode"] != "array":
            earlier.setdefault(i, []).append(given)
        shape = next(iter(plain[j].values())).shape
        if kind == "part" and spec["kind"] in ref.PRIMARY:
            values = {k: given.get(k, 0) for k in ("beta", "mmin", "delta_m")}
            result = model.p_q(dataset, **values)
            p = {k: float(v) for k, v in point.items()}
            expected = ref.mass_ratio_density(plain[j], p, spec["cfg"], p.get("delta_m", 0))
        elif kind == "part" and spec["kind"] in world.GROUPS["redshift"]:
            result = model.normalisation(given)
            expected = ref.redshift_norm(spec["kind"], {k: float(v) for k, v in point.items()}, spec["cfg"])
            shape = ()
        elif spec["kind"] in world.MASS_FUNCTIONS:
            result = model(dataset["mass_1"], **given)
            expected = ref_mass_function(spec["kind"], plain[j]["mass_1"], point)
        else:
            if node_counts[i] is not None and op["nodes"] != node_counts[i]:
                node_counts[i] = op["nodes"]
                names[i] = None
                rec.probe("node-number-changed")
            result = model(dataset, **given)
            expected = world.ref_density(spec, plain[j], point, op["nodes"])
        changed = before.get(i)
        rec.state(spec["kind"], kind, changed and changed[0] == j, changed and changed[1] == list(shape),
                  changed and changed[2] == op["nodes"], op["move"], jax)
        before[i] = (j, list(shape), op["nodes"])
        expected = np.broadcast_to(expected, shape)
        got = np.asarray(result, dtype=float)
        rec.check(got.shape == expected.shape or got.size == expected.size == 1, "density-shape",
                  lambda: f"{spec['kind']}: {got.shape} instead of {expected.shape}")
        got = got.reshape(expected.shape)
        with np.errstate(all="ignore"):
            scale = rtol * (np.abs(expected) + 1e-6 * np.nanmax(np.abs(expected)))
        rec.check(oracle.same(got, expected, scale), "density",
                  lambda: f"{spec['kind']} {kind}: got {got.ravel()[:5]}, expected {expected.ravel()[:5]}, "
                          f"differences {np.nanmax(np.abs(got - expected))}")
        last = result
    for j in range(3):
        for key, value in plain[j].items():
            rec.check(np.array_equal(np.asarray(data[j][key]), value), "data-changed", key)


def ref_mass_function(kind, m, p):
    m = np.asarray(m, float)
    p = {k: float(v) for k, v in p.items()}
    top = p.get("gaussian_mass_maximum", 100)
    if kind == "power_law_mass":
        return ref.powerlaw(m, -p["alpha"], p["mmin"], p["mmax"])
    if kind == "two_component_single":
        return ref.primary_peak(m, p, top)
    if kind == "three_component_single":
        return ref.primary_two_peaks(m, p, top)
    if kind == "double_power_law_primary_mass":
        return ref.broken_powerlaw(m, p)
    return ref.primary_broken_peak(m, p, top)
