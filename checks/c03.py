"""C03: circuits as values.  Histories of CircuitSM.tla (append, failing append, +, +=,
copy, dagger, new) replayed on real circuits, all circuits compared after every step."""
from qv import *
from unitary import *
from history import *

BAD = [(n, f) for n, f in {
    'h["a"]': lambda c: c.h["a"], "h[1.5]": lambda c: c.h[1.5], "h[None]": lambda c: c.h[None],
    "h[7, 'a']": lambda c: c.h[7, "a"], "cx[0]": lambda c: c.cx[0], "cx[0,0]": lambda c: c.cx[0, 0],
    "cx[0,1,2]": lambda c: c.cx[0, 1, 2], "cx[6,'b']": lambda c: c.cx[6, "b"], "ccx[0,1]": lambda c: c.ccx[0, 1],
    "ccx[0,1,1]": lambda c: c.ccx[0, 1, 1], "cswap[0,1,'x']": lambda c: c.cswap[0, 1, "x"],
    "rx[9] without angle": lambda c: c.rx[9], "u3(1)[8]": lambda c: c.u3(1.0)[8], "rx(1,2)[8]": lambda c: c.rx(1.0, 2.0, 3.0)[8],
    "h[{}]": lambda c: c.h[{}], "x[0,[1]]": lambda c: c.x[0, [1]], "measure['x']": lambda c: c.measure["x"],
    "nosuchgate": lambda c: c.nosuchgate[0], "cx[(0,1),2]": lambda c: c.cx[(0, 1), 2], "crz[5,2]": lambda c: c.crz[5, 2],
    "h['0':3]": lambda c: c.h["0":3], "h[1j]": lambda c: c.h[1j], "cu3(1,2)[4,5]": lambda c: c.cu3(1.0, 2.0)[4, 5],
    "cx[np.array]": lambda c: c.cx[np.array([0.5, 1.5]), 4], "h[-9]": lambda c: c.h[-9], "cz[-9,0]": lambda c: c.cz[-9, 0]}.items()]


def run(chk):
    from blueqat import Circuit
    rng = chk.rng
    hs = histories(rng, 30 if THOROUGH else 10, 120 if THOROUGH else 60, depth=16, modes=("run", "shots", "cache", "B1"), bad=BAD, chk=chk, slots=4)
    hs += histories(rng, 12 if THOROUGH else 4, 120 if THOROUGH else 60, depth=14, modes=("run",), bad=BAD, chk=chk, slots=2, maxn=4, maxops=9, meas=False)
    hs += histories(rng, 6 if THOROUGH else 2, 60 if THOROUGH else 20, depth=32, modes=("run",), chk=chk, slots=3, maxops=90, maxn=2, tablesize=9, gates=CLIFFORD, meas=False, long=True)
    ex = evaluate(hs, chk=chk)
    replay_all(chk, hs, ex, rng, bad=BAD)
    # operands of other types are refused and leave the circuit alone
    for other in (1, "x", None, [], 2.5, object()):
        c = Circuit(2).h[0]
        fp = fingerprint(c)
        for f in (lambda: c + other, lambda: other + c, lambda: c.__iadd__(other)):
            r, err = guarded(f)
            chk.trace()
            if not (isinstance(err, TypeError) or r is NotImplemented) or fingerprint(c) != fp:
                chk.violation(f"adding {other!r} to a circuit gives {r!r} {err!r}", repr(other))
    chk.sample([" ".join(str(v) for k, v in e.items() if k != "post") for e in hs[0][1]])
