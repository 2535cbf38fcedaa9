#!/opt/venv/bin/python
"""Entry point of every check: see DESIGN.md and sim/core.py."""
import os
import sys

os.environ.update(
    PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED=os.environ.get("VERIF_HASHSEED", "0"),
    BILBY_ALLOW_PARAMETERS_AS_STATE="FALSE",
    JAX_PLATFORMS="cpu",
    OMP_NUM_THREADS="1",
    OPENBLAS_NUM_THREADS="1",
    MKL_NUM_THREADS="1",
    XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    MPLBACKEND="Agg",
    TQDM_DISABLE="1",
)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
