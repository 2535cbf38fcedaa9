"""C11: posterior samples are never mixed, invented or lost."""
import numpy as np

from sim import oracle, userfuncs, world
from sim import rng as rngs

SPEC = dict(
    rule="a run is non-trivial if it ingests posteriors of at least one event and checks the identity of every ingested "
         "or resampled row; runs are distinct if their scenarios differ",
    state_measure="tuples (operation, backend, generator pattern, number of events, equal or unequal sizes, limit on the "
                  "samples, shape of the weights, form of the population samples)",
    real=["gwpopulation.hyperpe", "gwpopulation.utils", "bilby.hyper.model.Model", "pandas sampling", "numpy/jax"],
    stub=["random numbers (numpy's global generator is seeded or made to return chosen words)",
          "population model (table of scripted weights)"],
    assumptions=["events of which no sample has weight are not resampled"],
    level="exploration",
    quick=dict(runs=2400), thorough=dict(runs=120000),
)
JAX_EVERY = 11


def generate(rng, tier, idx):
    jax = idx % JAX_EVERY == JAX_EVERY - 1
    events = rng.choice([2, 3]) if jax else rng.choice([1, 2, 2, 3, 4, 6])
    base = rng.choice([4, 8]) if jax else rng.choice([1, 2, 3, 5, 12, 40])
    if not jax and rng.random() < 0.03:
        base = rng.choice([1025, 4100])
    sizes = [base] * events if jax or rng.random() < 0.4 else [base + rng.randint(0, 6) for _ in range(events)]
    if rng.random() < 0.2:
        sizes[rng.randrange(events)] = base + 50
    cols = ["c%d" % i for i in range(rng.randint(1, 4))]
    limit = rng.choice([None, None, None, 1, max(1, base - 1), base, base + 3, 10**6])
    cfg = dict(jax=jax, sizes=sizes, cols=cols, prior=rng.random() < 0.75, limit=limit, seed=rng.getrandbits(32),
               cls=rng.choice(["Hyper", "Hyper", "Hyper", "Rate", "Null"]), generator=rngs.draw_spec(rng),
               index=rng.choice(["range", "shuffled", "duplicated", "strings"]),
               dtype=rng.choice(["float64", "float64", "int64", "float32"]) if not jax else "float64",
               ties=rng.random() < 0.25, reorder=rng.random() < 0.3, extra=rng.random() < 0.2,
               wrap=rng.choice(["custom", "model-nocache", "model"]) if not jax else "custom")
    ops = []
    for _ in range(2 if jax else rng.randint(1, 6)):
        kind = rng.choices(["ppd", "ingest", "again", "evaluate"], [6, 1.5, 1, 1])[0]
        ops.append(dict(op=kind, generator=rngs.draw_spec(rng), cases=[rng.randrange(4) for _ in range(rng.randint(1, 4))],
                        form=rng.choice(["list", "frame", "dict"]), weights=rng.random() < 0.7, seed=rng.getrandbits(32),
                        shape=rng.choice(["flat", "wild", "sparse", "sparse", "single", "ends", "tiny", "row"])))
    return dict(cfg=cfg, ops=ops)


def make_frames(cfg):
    import pandas as pd

    gen = world.np_gen(cfg["seed"])
    frames = []
    for event, size in enumerate(cfg["sizes"]):
        # every value identifies event, row and column
        row = np.arange(size)
        if cfg["ties"]:
            row = row // 2
        data = {c: (event * 1000 + row * 7 + (i + 1) * 100003).astype(cfg["dtype"]) for i, c in enumerate(cfg["cols"])}
        if cfg["ties"]:
            data[cfg["cols"][0]] = (event * 1000 + np.arange(size) * 7 + 100003).astype(cfg["dtype"])
        if cfg["prior"]:
            data["prior"] = 0.5 + event + (np.arange(size) + 1) / 1024.0
        keys = list(data)
        if cfg["reorder"] and event:
            keys = [keys[i] for i in gen.permutation(len(keys))]
        frame = pd.DataFrame({k: data[k] for k in keys})
        if cfg["extra"] and event:
            frame["only_here"] = -1.0
        if cfg["index"] == "shuffled":
            frame.index = gen.permutation(size)
        elif cfg["index"] == "duplicated":
            frame.index = np.zeros(size, dtype=int)
        elif cfg["index"] == "strings":
            frame.index = [f"row{i % 3}" for i in range(size)]
        frames.append(frame)
    return frames


def check_ingested(rec, cfg, frames, data, prior, what):
    limit = cfg["limit"] if cfg["limit"] is not None else 1e100
    expected = int(min([len(f) for f in frames] + [limit]))
    columns = {c: np.asarray(data[c]) for c in data}
    wanted = set(frames[0].columns) - {"prior"}
    rec.check(set(columns) == wanted, f"{what}-columns", lambda: f"{sorted(columns)} instead of {sorted(wanted)}")
    shape = (len(frames), expected)
    for c, v in columns.items():
        rec.check(v.shape == shape, f"{what}-shape", lambda: f"{c}: {v.shape} instead of {shape}")
    if cfg["prior"]:
        columns["prior"] = np.asarray(prior)
        rec.check(columns["prior"].shape == shape, f"{what}-prior-shape", lambda: f"{columns['prior'].shape}")
    else:
        rec.check(np.ndim(prior) == 0 and float(prior) == 1, f"{what}-prior", lambda: f"{prior!r}")
    for event, frame in enumerate(frames):
        match = np.ones((expected, len(frame)), dtype=bool)
        for c, v in columns.items():
            match &= v[event][:, None] == frame[c].to_numpy()[None, :]
        rec.check(bool(match.any(axis=1).all()), f"{what}-rows",
                  lambda: f"event {event}: an ingested row is not a row of its posterior")
        used = match.argmax(axis=1)
        rec.check(len(set(used.tolist())) == expected, f"{what}-repeated",
                  lambda: f"event {event}: rows {used.tolist()} are not distinct")
        rec.log(what, event, used.tolist()[:12])
    return columns


def scripted_weights(shape, gen, sizes):
    """Positive or zero weights for every event and sample, never all zero for an event."""
    n_events, n = sizes
    weights = gen.uniform(0.5, 1.5, sizes)
    if shape == "wild":
        weights = np.exp(gen.normal(0, 8, sizes))
    elif shape == "sparse":
        weights = weights * (gen.uniform(size=sizes) < 0.4)
    elif shape == "single":
        mask = np.zeros(sizes)
        mask[np.arange(n_events), gen.integers(0, n, n_events)] = 1
        weights = weights * mask
    elif shape == "ends":
        weights[:, 0] = 0
        weights[:, -1] = 0
    elif shape == "tiny":
        weights = weights * 1e-120
    elif shape == "row":
        weights[gen.integers(0, n_events)] *= 1e6
    for event in range(n_events):
        if not weights[event].sum() > 0:
            weights[event, int(gen.integers(0, n))] = 1.0
    return weights


def execute(scn, rec):
    import gwpopulation
    import pandas as pd
    from bilby.hyper.model import Model
    from gwpopulation import hyperpe

    cfg = scn["cfg"]
    jax = cfg["jax"]
    gwpopulation.set_backend("jax" if jax else "numpy")
    frames = make_frames(cfg)
    table = {}
    prior = userfuncs.TablePrior(table)
    if cfg["wrap"] != "custom":
        prior = Model([userfuncs.TableFunction(table)], cache=False)
    cls = dict(Hyper=hyperpe.HyperparameterLikelihood, Rate=hyperpe.RateLikelihood,
               Null=hyperpe.NullHyperparameterLikelihood)[cfg["cls"]]
    kwargs = {} if cfg["limit"] is None else dict(max_samples=cfg["limit"])

    def ingest(generator):
        rngs.set_generator(generator)
        rec.fault("generator-" + generator.get("pattern", "seeded"))
        return cls(frames, prior, **kwargs)

    rec.step("construct", cfg["sizes"], cfg["limit"], cfg["generator"])
    like = ingest(cfg["generator"])
    columns = check_ingested(rec, cfg, frames, like.data, like.sampling_prior, "ingested")
    rec.check(like.n_posteriors == len(frames), "n_posteriors", lambda: str(like.n_posteriors))
    first = next(iter(columns.values()))
    rec.check(like.samples_per_posterior == first.shape[1], "samples_per_posterior",
              lambda: f"{like.samples_per_posterior} instead of {first.shape[1]}")
    for op in scn["ops"]:
        kind = op["op"]
        rec.step(kind, op["generator"], op["cases"], op["shape"], op["form"])
        rec.state(kind, jax, op["generator"].get("pattern"), len(frames), len(set(cfg["sizes"])) > 1, cfg["limit"] is None,
                  op["shape"], op["form"])
        gen = world.np_gen(op["seed"])
        if kind == "ingest":
            other = ingest(op["generator"])
            check_ingested(rec, cfg, frames, other.data, other.sampling_prior, "ingested")
        elif kind == "again":
            # the public method, with the same posteriors
            rngs.set_generator(op["generator"])
            again = dict(like.resample_posteriors(frames, **kwargs))
            got = again.pop("prior") if cfg["prior"] else 1
            check_ingested(rec, cfg, frames, again, got, "resample_posteriors")
        elif kind == "evaluate":
            table["case"] = None
            table[0] = np.ones(first.shape)
            like.log_likelihood_ratio(dict(case=0, rate=2.0))
        else:
            cases = op["cases"] if op["form"] != "dict" else op["cases"][:1]
            total = 0
            with np.errstate(all="ignore"):
                for case in set(cases):
                    wanted = scripted_weights(op["shape"], world.np_gen(op["seed"] + case), first.shape)
                    table[case] = wanted
                    if jax:
                        import jax.numpy as jnp

                        table[case] = jnp.asarray(wanted)
                sampling = columns.get("prior", 1.0)
                for case in cases:
                    one = np.asarray(table[case]) / sampling
                    total = total + one / one.sum(axis=-1, keepdims=True)
            weights = total / total.sum(axis=-1, keepdims=True)
            given = [dict(case=case, other=1.5) for case in cases]
            if op["form"] == "dict":
                given = given[0]
            elif op["form"] == "frame":
                given = pd.DataFrame(given)
                given["other"] = given["other"].astype(object)
                given["case"] = given["case"].astype(object)
            rngs.set_generator(op["generator"])
            rec.fault("generator-" + op["generator"].get("pattern", "seeded"))
            if op["weights"]:
                new, got = like.posterior_predictive_resample(given, return_weights=True)
                got = np.asarray(got, float)
                rec.check(got.shape == weights.shape, "weights-shape", lambda: f"{got.shape}")
                rec.check(oracle.same(got, weights, 1e-9), "weights",
                          lambda: f"largest difference {np.max(np.abs(got - weights))}")
                rec.check(oracle.same(got.sum(axis=-1), np.ones(len(frames)), 1e-9), "weights-sum",
                          lambda: f"{got.sum(axis=-1)}")
            else:
                new = like.posterior_predictive_resample(given)
            data = {k: v for k, v in columns.items() if k != "prior"}
            used = oracle.rows_of(rec, new, data, weights, what="resampled")
            rec.log("rows", [u.tolist()[:10] for u in used])
        for key, value in columns.items():
            now = np.asarray(like.sampling_prior if key == "prior" else like.data[key])
            rec.check(np.array_equal(now, value), "data-changed", lambda: f"{key} after {kind}")
