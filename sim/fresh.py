"""Runs in a new interpreter: restores objects from bytes and evaluates points."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def main(path):
    from sim import core

    core.prepare_sut()
    import pickle

    import dill
    import gwpopulation
    import numpy as np

    from sim import userfuncs

    with open(path, "rb") as ff:
        job = pickle.load(ff)
    gwpopulation.set_backend(job["backend"])
    userfuncs.UserSmoothed(mmin=2, mmax=100, normalization_shape=(5, 5))
    out = []
    for item in job["items"]:
        loads = dict(dill=dill.loads, pickle=pickle.loads)[item["method"]]
        try:
            obj = loads(item["bytes"])
            values = []
            for kind, point in item["calls"]:
                if kind == "model":
                    data = {k: np.asarray(v) for k, v in point["data"].items()}
                    if job["backend"] == "jax":
                        import jax.numpy as jnp

                        data = {k: jnp.asarray(v) for k, v in data.items()}
                    values.append(np.asarray(obj(data, **point["point"]), float).tolist())
                elif kind == "both":
                    values.append([float(v) for v in obj.ln_likelihood_and_variance(point)])
                elif kind == "call":
                    result = obj(point)
                    values.append([float(v) for v in result] if isinstance(result, tuple) else float(result))
                else:
                    values.append(float(obj.log_likelihood_ratio(point)))
            out.append(dict(values=values))
        except Exception as exc:
            out.append(dict(error=f"{type(exc).__name__}: {exc}"[:600]))
    print("RESULT " + json.dumps(out))


if __name__ == "__main__":
    main(sys.argv[1])
