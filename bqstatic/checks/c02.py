from .gates import run
from .. import ref

RULE = ("Abstract interpretation of blueqat.backends._numba_backend_impl as for C01; in addition every loop over amplitudes is analysed as one "
        "generic iteration whose accessed index patterns must enumerate disjoint amplitudes for different iterations (no write/write or "
        "write/read overlap between iterations) and cover the register.")
ASSUME = ["numba compiles the functions with the semantics of the Python source (its integer types do not overflow: fewer than 63 qubits)",
          "floating-point rounding is not modelled; parameters are real numbers"]
HISTORY = True
MIN_OBLIGATIONS = 100


def check(ck):
    run(ck, "numba", set(ref.GATES) - ref.PHASE_FREE)
