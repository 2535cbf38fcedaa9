"""C24: transformed evaluations agree with plain ones and leave nothing behind."""
import numpy as np

from props import C03, C05, C13
from sim import faults, oracle, world

SPEC = dict(
    rule="a run is non-trivial if it compares at least one transformed evaluation with the reference and makes at least "
         "one further evaluation of the same object; runs are distinct if their scenarios differ",
    state_measure="tuples (object, component kinds, previous operation, operation, compiled before or not)",
    real=["gwpopulation.models", "gwpopulation.vt", "gwpopulation.hyperpe", "gwpopulation.utils",
          "jax (tracing, compilation, batching and differentiation)", "bilby.hyper.model.Model", "cached_interpolate"],
    stub=["user population functions, selection and conversion callbacks (sim/userfuncs.py)",
          "interrupts (exceptions at seeded lines while a function is being traced)"],
    assumptions=["models with splines are evaluated once plainly first",
                 "bilby's own model cache is off for models the user wraps",
                 "gradients are compared with those of a new object, not with another method of differentiation"],
    quick=dict(runs=140), thorough=dict(runs=8000),
)
TRANSFORMS = ["jit", "jit", "vmap", "vmap", "jit-vmap", "grad", "jit-grad", "vmap-grad", "jvp"]


def generate(rng, tier, idx):
    kind = rng.choices(["model", "selection", "likelihood"], [5, 3, 4])[0]
    cheap = kind != "model" or rng.random() < 0.3
    cfg = world.likelihood_config(
        rng, jax=True, cosmo="Planck15", max_components=1 if kind == "model" else 2,
        groups=["toy", "magnitude", "tilt"] if cheap and rng.random() < 0.7 else None,
        selection=rng.choice(["resampling", "resampling", "grid"]) if kind == "selection" else None)
    if kind != "likelihood":
        cfg["conversion"] = "default"
    if cfg["selection"]["kind"] == "grid" and not world.usable_grid(cfg["selection"], cfg["specs"]):
        cfg["selection"] = dict(kind="constant")
        if kind == "selection":
            kind = "likelihood"
    if cfg["selection"]["kind"] == "resampling":
        cfg["selection"]["share"] = False
        if rng.random() < 0.5:
            cfg["selection"]["form"] = "list"
    if kind == "model":
        cfg["specs"] = cfg["specs"][:1]
        cfg["selection"], cfg["cls"] = dict(kind="none"), "Hyper"
    cfg["np_seed"] = rng.getrandbits(32)
    if kind != "likelihood" and cfg["cls"] == "Rate":
        cfg["cls"] = "Hyper"
    points = world.Points(rng, world.point_names(cfg["specs"], ["rate"] if cfg["cls"] == "Rate" else []))
    spline = any(s["kind"] in C13.SPLINES for s in cfg["specs"])
    ops = []
    for i in range(rng.randint(4, 8)):
        group = []
        for _ in range(rng.randint(1, 3)):
            if points.history and rng.random() < 0.3:
                group.append(rng.choice(points.history))
            else:
                group.append(points.next()[0])
        name = rng.choices(["transform", "plain", "abort", "missing", "inner", "closed"], [9, 4, 1.5, 0.8, 0.7, 2.5])[0]
        if name == "inner" and kind != "model":
            name = "transform"
        if spline and i == 0:
            name = "plain"
        ops.append(dict(op=name, points=[C03.to_sampled(cfg, p) for p in group], how=rng.choice(TRANSFORMS),
                        keep=rng.random() < 0.6, held=rng.random() < 0.5, seed=rng.getrandbits(24), frac=rng.random(), which=rng.random(),
                        data=kind == "model" and rng.random() < 0.3, columns=rng.getrandbits(24),
                        exc=rng.choice(sorted(faults.EXCEPTIONS))))
    return dict(kind=kind, cfg=cfg, ops=ops)


class Target:
    """An object with functions of one point (and of a data set) built on it."""

    def __init__(self, scn):
        self.scn, self.cfg = scn, scn["cfg"]
        cfg = self.cfg
        np.random.seed(cfg["np_seed"])
        self.fixed = world.fixed_values(cfg["specs"])
        if scn["kind"] == "likelihood":
            self.object = world.Built(cfg).like
            self.reference = world.RefLikelihood(cfg, self.object.data, self.object.sampling_prior)
        elif scn["kind"] == "selection":
            self.object, _ = world.build_selection(cfg["selection"], cfg["specs"], cfg["n_events"], True)
            self.reference = world.RefLikelihood(cfg, {}, 1.0)
        else:
            self.object = world.build(cfg["specs"][0])
            self.sets = {}
            self.plain = self.columns(cfg["data_seed"])
            self.data = world.as_backend(self.plain, True)
        self.compiled, self.held = {}, {}

    def columns(self, seed):
        spec = self.cfg["specs"][0]
        return world.columns(world.np_gen(seed), spec["cols"], (self.cfg["n_samples"],))

    def value(self, point, data=None):
        """All returned numbers of one evaluation as a tuple of arrays."""
        point = {**self.fixed, **point}
        if self.scn["kind"] == "likelihood":
            return (self.object.log_likelihood_ratio(point),)
        if self.scn["kind"] == "selection":
            result = self.object(point)
            return tuple(result) if isinstance(result, tuple) else (result,)
        return (self.object(self.data if data is None else data, **point),)

    def scalar(self, point, data=None):
        import jax.numpy as jnp

        return jnp.sum(jnp.ravel(self.value(point, data)[0]))

    def transformed(self, how, over_data, keep):
        import jax

        key = how, over_data
        if keep and key in self.compiled:
            return self.compiled[key]
        value = (lambda p, d: self.value(p, d)) if over_data else (lambda p: self.value(p))
        scalar = (lambda p, d: self.scalar(p, d)) if over_data else (lambda p: self.scalar(p))
        axes = (0, None) if over_data else 0
        if how == "jit":
            out = jax.jit(value)
        elif how == "vmap":
            out = jax.vmap(value, axes)
        elif how == "jit-vmap":
            out = jax.jit(jax.vmap(value, axes))
        elif how == "grad":
            out = jax.value_and_grad(scalar)
        elif how == "jit-grad":
            out = jax.jit(jax.value_and_grad(scalar))
        elif how == "vmap-grad":
            out = jax.vmap(jax.value_and_grad(scalar), axes)
        else:
            def out(p, *rest):
                ones = {k: 1.0 for k in p}
                return jax.jvp(lambda q: value(q, *rest), (p,), (ones,))
        self.compiled[key] = out
        return out

    def apply(self, op, keep=True):
        """Values (one tuple for each point) and gradients of an operation."""
        import jax.numpy as jnp

        how, points = op["how"], numbers(op["points"])
        function = self.transformed(how, op["data"], keep)
        extra = (world.as_backend(self.columns(op["columns"]), True),) if op["data"] else ()
        if "vmap" in how:
            stack = {k: jnp.asarray([p[k] for p in points]) for k in points[0]}
            result = function(stack, *extra)
            if how == "vmap-grad":
                return [(result[0][i],) for i in range(len(points))], result[1]
            return [tuple(v[i] for v in result) for i in range(len(points))], None
        result = function(points[0], *extra)
        if "grad" in how:
            return [(result[0],)], result[1]
        if how == "jvp":
            return [tuple(result[0])], dict(enumerate(result[1]))
        return [tuple(result)], None


def closed(target, op):
    """An evaluation inside a transformed function whose argument is not the point."""
    import jax
    import jax.numpy as jnp

    point = arrays(target, op["points"][0]) if op["held"] else numbers(op["points"])[0]

    def function(factor):
        return tuple(factor * v for v in target.value(point))

    if "grad" in op["how"] or op["how"] == "jvp":
        return tuple(jax.jvp(function, (1.0,), (1.0,))[0])
    if "vmap" in op["how"]:
        return tuple(v[1] for v in jax.vmap(function)(jnp.asarray([0.5, 1.0])))
    return jax.jit(function)(1.0)


def arrays(target, point):
    """The point with array values, the same objects whenever it is used again."""
    import jax.numpy as jnp

    key = tuple(sorted((k, repr(v)) for k, v in point.items()))
    if key not in target.held:
        target.held[key] = {k: jnp.asarray(float(v)) if isinstance(v, (int, float)) else v for k, v in point.items()}
    return dict(target.held[key])


def numbers(points):
    return [{k: float(v) if isinstance(v, (int, float)) else v for k, v in p.items()} for p in points]


def verify(rec, target, op, index, result, summed, what):
    """One tuple of returned numbers against the reference."""
    cfg, scn = target.cfg, target.scn
    rtol, _ = world.tolerances(True)
    point = op["points"][index]
    if scn["kind"] == "likelihood":
        oracle.ratio(rec, result[0], target.reference.terms(point), True, what=what)
    elif scn["kind"] == "selection":
        reference = target.reference
        expected, expected_var, ambiguous = reference.selection(point)
        if cfg["selection"]["kind"] == "grid":
            got = oracle.number(result[0])
            rec.check(got is not None and oracle.same(got, expected, rtol * abs(expected)), f"{what}-grid-integral",
                      lambda: f"got {got}, expected {expected}")
            return
        mu, var = reference.efficiency(point)
        weights, total = reference.injection_weights(point), reference.total_injections()
        with np.errstate(all="ignore"):
            var_scale = float(np.sum(weights**2) / total**2 + mu**2 / total)
        if ambiguous or C05.tiny(mu, var, var_scale):
            rec.probe("ambiguous")
            return
        if reference.settings["marginalize"]:
            got = oracle.number(result[0])
            scale = rtol * abs(np.nan_to_num(expected, posinf=0)) * (
                1 + C05.amplification(reference.settings, mu, var_scale))
            rec.check(got is not None and oracle.same(got, expected, scale), f"{what}-marginalised",
                      lambda: f"got {got}, expected {expected}")
        elif len(result) == 2:
            C05.check_pair(rec, result, expected, expected_var, var_scale, rtol, f"{what}-selection")
        else:
            got = oracle.number(result[0])
            rec.check(got is not None and oracle.same(got, expected, rtol * abs(np.nan_to_num(expected, posinf=0))),
                      f"{what}-selection", lambda: f"got {got}, expected {expected}")
    else:
        spec = cfg["specs"][0]
        plain = target.columns(op["columns"]) if op["data"] else target.plain
        shape = np.shape(plain[spec["cols"][0]])
        expected = np.broadcast_to(world.ref_density(spec, plain, point), shape)
        got = np.asarray(result[0], float)
        with np.errstate(all="ignore"):
            scale = rtol * (np.abs(expected) + 1e-6 * np.nanmax(np.abs(expected)))
        if summed:
            expected, scale = np.sum(expected), np.sum(scale)
        else:
            got = np.broadcast_to(got, shape)
        rec.check(oracle.same(got, expected, scale), f"{what}-density",
                  lambda: f"{spec['kind']}: got {np.ravel(got)[:4]}, expected {np.ravel(expected)[:4]}")


def gradients(rec, target, op, got):
    """The derivatives are those that a new object gives."""
    twin = Target(target.scn)
    first = target.scn["ops"][0]
    if any(s["kind"] in C13.SPLINES for s in target.cfg["specs"]):
        twin.value(numbers(first["points"])[0])
    _, expected = twin.apply(op, keep=False)
    rec.check(set(got) == set(expected), "derivative-names", lambda: f"{sorted(got)} instead of {sorted(expected)}")
    for key, value in expected.items():
        value, have = np.asarray(value, float), np.asarray(got[key], float)
        with np.errstate(all="ignore"):
            finite = np.abs(value[np.isfinite(value)])
            scale = 1e-6 * (np.abs(value) + (np.max(finite) if finite.size else 0))
        rec.check(oracle.same(have, value, np.nan_to_num(scale, posinf=0)), "derivative",
                  lambda: f"{op['how']} {key}: got {np.ravel(have)[:4]}, a new object gives {np.ravel(value)[:4]}")


def execute(scn, rec):
    import gwpopulation

    gwpopulation.set_backend("jax")
    target = Target(scn)
    label = scn["kind"], tuple(s["kind"] for s in scn["cfg"]["specs"]), scn["cfg"]["selection"]["kind"]
    previous = "new"
    for op in scn["ops"]:
        kind = op["op"]
        rec.step(kind, op["how"], op["data"], [sorted(p.items()) for p in op["points"]])
        rec.state(label, previous, kind, op["how"], op["keep"] and (op["how"], op["data"]) in target.compiled)
        plain = dict(op, data=False)
        if kind == "plain":
            point = arrays(target, op["points"][0]) if op["held"] else op["points"][0]
            verify(rec, target, plain, 0, target.value(point), False, "plain")
        elif kind == "closed":
            verify(rec, target, plain, 0, closed(target, op), False, "closed")
            if op["keep"]:
                point = arrays(target, op["points"][0]) if op["held"] else op["points"][0]
                verify(rec, target, plain, 0, target.value(point), False, "plain-after-closed")
        elif kind == "transform":
            values, derivatives = target.apply(op, op["keep"])
            for index, value in enumerate(values):
                verify(rec, target, op, index, value, "grad" in op["how"], op["how"])
            if derivatives is not None:
                gradients(rec, target, op, derivatives)
        elif kind == "inner":
            # a transformation that is entered while another one is being traced
            import jax

            point = numbers(op["points"])[0]
            first = dict(op, data=False)

            def nested(p):
                inner = jax.jit(lambda q: target.value(q))(p)[0]
                return inner, target.value(p)[0]

            for result in jax.jit(nested)(point):
                verify(rec, target, first, 0, (result,), False, "nested")
        elif kind == "missing":
            names = sorted(set(op["points"][0]) - {"delta_m"})
            name = names[int(op["which"] * len(names))]
            short = dict(op, points=[{k: v for k, v in p.items() if k != name} for p in op["points"]])
            try:
                target.apply(short, op["keep"])
            except Exception:
                rec.fault("missing-parameter")
        else:
            counter = faults.Interrupt()
            with counter:
                target.value(op["points"][0])
            cut = faults.Interrupt(1 + int(op["frac"] * counter.count), op["exc"])
            try:
                with cut:
                    values, derivatives = target.apply(op, op["keep"])
            except BaseException:
                if cut.fired is None:
                    raise
                rec.fault("aborted-trace")
            else:
                for index, value in enumerate(values):
                    verify(rec, target, op, index, value, "grad" in op["how"], "not-aborted")
        previous = kind, op["how"]
    # nothing of the transformations is left in the object
    for op in scn["ops"]:
        if op is scn["ops"][0] or op is scn["ops"][-1] or op["op"] == "closed":
            point = arrays(target, op["points"][0]) if op["held"] else op["points"][0]
            verify(rec, target, dict(op, data=False), 0, target.value(point), False, "plain-at-the-end")


def simplify(scn):
    if scn["kind"] == "likelihood":
        yield from C03.simplify(scn)
