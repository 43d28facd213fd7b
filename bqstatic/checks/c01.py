from .gates import run
from .. import ref

RULE = ("Abstract interpretation of blueqat.circuit, blueqat.gate and blueqat.backends.numpy_backend: every gate of the gate set is built "
        "through Circuit and run from a generic state (one symbol per assignment of the operand bits) at generic distinct qubit positions of a "
        "register of generic width with symbolic parameters; the resulting amplitudes must equal, as normal forms, the oracle's unitary applied "
        "to the generic state.")
ASSUME = ["numpy functions behave as their documented exact-arithmetic counterparts (bqstatic/npmodel.py)",
          "floating-point rounding is not modelled; parameters are real numbers"]
HISTORY = True
MIN_OBLIGATIONS = 100


def check(ck):
    run(ck, "numpy", set(ref.GATES) - ref.PHASE_FREE)
