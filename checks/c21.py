"""C21: the compiled simulator (its kernels interpreted, see harness/stubs.py) against the
specification: the programs, measured programs, histories and target expressions of the
checks of C01, C02, C04, C05 and C06, run through the numba backend."""
from qv import *
from unitary import *
from stochastic import measured_program, systematic_measured
import stubs, history
import checks.c01 as c01, checks.c02 as c02, checks.c05 as c05, checks.c06 as c06

MODES = tuple(m for m in c02.MODES) + ("nocache", "nocache", "c64", "B1c64", "B2nocache")


class Replay(history.Replay):
    def do_run(self, c, mode):
        if mode == "nocache":
            return "sv", c.run(backend=self.name, enable_cache=False)
        if mode == "B2nocache":
            return "sv", c.run(backend=self.B[2], enable_cache=False)
        if mode in ("c64", "B1c64"):
            v = c.run(backend=self.name if mode == "c64" else self.B[1], dtype=np.complex64)
            if v.dtype != np.complex64:
                return "sv", v
            if abs(np.linalg.norm(v) - 1) > 1e-4:
                return "sv", v
            return ("none",)            # reduced precision; the runs after it have to be exact again
        return super().do_run(c, mode)


def run(chk):
    rng = chk.rng
    import blueqat
    NumbaBackend = stubs.install_numba()
    from blueqat import Circuit
    v, err = guarded(lambda: Circuit().x[1].run(backend="numba"))
    if err is not None:
        chk.violation(f"the numba backend doesn't run: {err!r}", "x[1]")
        return
    k = 5 if THOROUGH else 1
    # state vectors
    progs = []
    for n in (1, 2, 3):
        progs += systematic(n, gates=ALLG + ["ccz"])
    progs += multi_targets(3)
    progs += systematic(4, gates=["cx", "cz", "crx", "cphase", "cu3", "swap", "ccx", "h", "u3"], prefix_ops=lambda n: prefix(n)[:6])[::3]
    progs += random_programs(rng, 110 * k, ns=(1, 2, 2, 3, 3, 4), length=(1, 12))
    progs += random_programs(rng, 60 * k, ns=(1, 2, 3, 4), length=(5, 20), p_sym=0.0, max_split=12, consts=tuple(range(-17, 18)))
    progs += random_programs(rng, 12 * k, ns=(5, 6, 7), length=(6, 14), max_split=3)
    progs += long_programs(rng, 20 * k, ns=(1, 2, 3, 4))
    progs += [{"n": 0, "ops": []}, {"n": 3, "ops": []}]
    terms, r = tlc_programs(progs)
    chk.tlc_stats(r)
    chk.count("programs", len(progs))
    c01.compare(chk, progs, terms, rng, 2, backend="numba")
    # measurement, reset, shots
    mp = systematic_measured()[:: (1 if THOROUGH else 3)]
    mp += [measured_program(rng, rng.choice((1, 2, 2, 3, 3, 4)), maxm=5) for _ in range(40 * k)]
    c05.decide(chk, mp, rng, 1, 40, 1000 if THOROUGH else 200, backend="numba")
    c05.decide(chk, c05.classical(rng, 40 * k), rng, 1, 20, 20, exact=True, backend="numba")
    c05.decide(chk, c05.nearly(rng, 40 * k), rng, 2, 20, 40, near=True, backend="numba")
    sp = c06.cases(rng)
    c06.decide(chk, sp if THOROUGH else sp[::4], rng, 1, 500, 60, backend="numba")
    c06.options(chk, backend="numba")
    # histories
    hs = history.histories(rng, 20 if THOROUGH else 6, 80 if THOROUGH else 30, depth=18, modes=MODES, maxops=7, chk=chk)
    ex = history.evaluate(hs, chk=chk)
    for tab, h in hs:
        rp = Replay(tab, h, ex, rng, backend_factory=NumbaBackend, name="numba")
        ok = rp.run()
        chk.trace()
        chk.count("steps", len(h))
        if not ok:
            chk.violation(*rp.err)
    for p in progs[-30::6]:
        chk.sample(short_prog(p))
    chk.assumptions += ["the kernels are interpreted: numba's compilation itself is not exercised (numba is not installed here)",
                        "numpy/libm evaluate sin, cos and exp to about 1e-12"]
