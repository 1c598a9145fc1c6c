"""Backends that implement only some gates and write down what reaches them."""
from qv import *

NEEDED = ("x", "y", "z", "h", "rx", "ry", "rz", "u3", "cx", "cz", "ccz", "measure", "reset")
NATIVE = sorted({g for g in ONEQ + TWOQ + THREEQ} - {"cnot", "r", "cr", "toffoli"}) + ["ccz", "measure", "reset"]


def recorder(gates):
    """Backend class with actions for exactly `gates`; run returns (flat list, args, kwargs)."""
    from blueqat.backends.backendbase import Backend

    def action(self, gate, ctx):
        ctx["flat"].append(gate)
        return ctx

    class Rec(Backend):
        def _preprocess_run(self, gates, n_qubits, args, kwargs):
            return gates, {"flat": [], "n": n_qubits, "args": args, "kwargs": kwargs}

        def _postprocess_run(self, ctx):
            return ctx
    for g in gates:
        setattr(Rec, "gate_" + g, action)
    return Rec


def flat_ops(gates, enc, n):
    """specification operations of recorded gates (angles as combinations of the program's)"""
    class E:
        @staticmethod
        def enc(x):
            if isinstance(x, Lin):
                return enc.enc(x) if all(f.denominator == 1 and f.numerator % 2 == 0 for f in x.q) and x.c.denominator == 1 \
                    else enc.enc_deep(float(x))
            return enc.enc_deep(x)
    return gate_ops(gates, E, n)
