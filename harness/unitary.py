"""Cases for the unitary gate set: programs of the specification and their real runs."""
import math, random, itertools
import numpy as np
import qv
from qv import *

GENERIC = Vals((1.2345127836451932, -2.3457913465182947, 0.7651184273910283))


def prefix(n, rng=None):
    """Operations that bring |0..0> to a state with 2^n distinct amplitudes (symbolic)."""
    ops = []
    for i in range(n):
        q = [0] * NSYM
        q[i % NSYM] = 4
        ops.append({"g": "u3", "p": [((0, 0, 0), (1, 3, 5)[i % 3]), (tuple(q), 0), ((0, 0, 0), i + 1)], "t": T_int(i)})
    for i in range(n - 1):
        ops.append({"g": "cx", "p": [], "t": T_tup(T_int(i), T_int(i + 1))})
    for i in range(min(n, 2)):
        q = [0] * NSYM
        q[(i + 1) % NSYM] = 4
        ops.append({"g": "rx", "p": [(tuple(q), 1)], "t": T_int(i)})
    return ops


def placements(n, k):
    return list(itertools.permutations(range(n), k))


def place_t(qs):
    return T_int(qs[0]) if len(qs) == 1 else T_tup(*[T_int(x) for x in qs])


def sym_params(g, consts=False, rng=None):
    out = []
    for j in range(NPARAM[g]):
        q = [0] * NSYM
        q[j] = 4
        out.append((tuple(q), 0))
    return out


def systematic(n, gates=ALLG + ["ccz"], rng=None, prefix_ops=None):
    """each gate on each placement of n qubits after a generic prefix"""
    out = []
    for g in gates:
        for qs in placements(n, Gen.arity(g)) if Gen.arity(g) <= n else []:
            out.append({"n": n, "ops": (prefix(n) if prefix_ops is None else prefix_ops(n)) +
                        [{"g": g, "p": sym_params(g), "t": place_t(qs)}]})
    return out


MULTI1 = ([0, 0], [0, 1, 0], [1, 0], [1, 1, 1], [0, 0, 1, 1])
MULTI2 = ([(0, 1), (0, 1)], [(0, 1), (1, 0)], [(0, 1), (1, 2)], [(1, 2), (0, 1)], [(0, 2), (1, 2)], [(2, 0), (2, 1)],
          [(0, 1), (1, 2), (2, 0)], [(0, 1), (0, 1), (0, 1)], [(2, 1), (0, 2), (1, 2)])


def multi_targets(n, gates=ALLG, prefix_ops=None, every=1):
    """gates called on lists of targets that repeat or share qubits"""
    out = []
    for g in gates:
        for k, xs in enumerate(MULTI1 if Gen.arity(g) == 1 else MULTI2 if Gen.arity(g) == 2 else ()):
            if max(v for x in xs for v in (x if isinstance(x, tuple) else (x,))) >= n:
                continue
            if (k + len(out)) % every:
                continue
            t = T_tup(*[T_int(x) for x in xs]) if Gen.arity(g) == 1 else \
                T_tup(T_tup(*[T_int(a) for a, _ in xs]), T_tup(*[T_int(b) for _, b in xs]))
            out.append({"n": n, "ops": (prefix(n) if prefix_ops is None else prefix_ops(n)) + [{"g": g, "p": sym_params(g), "t": t}]})
    return out


def wide_programs(rng, ns):
    """few-term states on large registers: index arithmetic up to the highest qubit"""
    out = []
    for n in ns:
        hi = [n - 1, n - 2, n // 2, 0, rng.randrange(n)]
        ops = [{"g": "h", "p": [], "t": T_int(n - 1)}, {"g": "x", "p": [], "t": T_int(n - 2)}]
        q = lambda k: rng.sample(sorted(set(hi)), k) if rng.random() < 0.7 else rng.sample(range(n), k)
        gs = [g for g in ALLG if SPLIT.get(g, 0) == 0 or g in ("ch", "rx")]
        rng.shuffle(gs)
        for g in gs[:14] + ["s", "cx", "ccx"] + rng.sample(["u3", "ry", "cry", "rxx", "ryy", "crx", "cu3", "u2"], 2):
            ops.append({"g": g, "p": [((0, 0, 0), rng.choice((1, 2, 3, 5, -1))) if rng.random() < 0.5 else (tuple(4 * (j == k) for j in range(3)), 0)
                                      for k in range(NPARAM[g])], "t": place_t(q(Gen.arity(g)))})
        ops.append({"g": "x", "p": [], "t": T_slice(n - 3, None)})
        out.append({"n": n, "ops": ops})
    return out


FAMILIES = (("z", "s", "sdg", "t", "tdg", "rz", "phase", "u1", "cz", "crz", "cphase", "cu1", "rzz"),
            ("x", "cx", "cnot", "swap", "ccx", "cswap", "i"), ("x", "y", "z", "h", "s", "sdg", "cx", "cz", "cy", "swap"),
            ("rx", "rxx", "x", "crx", "cx"), ("ry", "ryy", "y", "cry", "cy"), ("u1", "u2", "u3", "cu1", "cu2", "cu3"),
            ("h",), ("swap", "z", "s", "rz", "cz", "phase"), ("t", "tdg", "s", "sdg"), ("rz", "rx", "ry", "cx"))


def subfamily(rng, gates):
    """a few kinds of gates: programs all of whose gates have something in common"""
    r = rng.random()
    if r < 0.35:
        f = [g for g in rng.choice(FAMILIES) if g in gates]
    elif r < 0.6:
        f = rng.sample(list(gates), min(len(gates), rng.choice((1, 2, 3, 4))))
    else:
        return gates
    return f if any(Gen.arity(g) == 1 for g in f) else f + [g for g in ("x",) if g in gates]


def random_programs(rng, count, ns=(1, 2, 3, 4), length=(1, 12), gates=ALLG, forms=True, max_split=8, **kw):
    out = []
    for _ in range(count):
        n = rng.choice(ns)
        f = subfamily(rng, gates)
        g = Gen(rng, n, gates=f, forms=forms, max_split=max_split if f is gates else min(max_split, 9), **kw)
        out.append({"n": n, "ops": g.ops(rng.randint(*length))})
    return out


CLIFFORD = ["x", "y", "z", "h", "s", "sdg", "i", "cx", "cy", "cz", "cnot", "swap", "ccx", "cswap"]


def long_programs(rng, count, ns=(1, 2, 3), length=(66, 150), forms=True, syms=4, gates=ALLG, **kw):
    """long circuits: mostly Clifford gates and permutations (exact amplitudes stay small), with a
    few arbitrary gates in between"""
    out = []
    for _ in range(count):
        n = rng.choice(ns)
        a = Gen(rng, n, gates=[g for g in CLIFFORD if g in gates], forms=forms, max_split=10 ** 6, p_sym=0.0)
        b = Gen(rng, n, gates=gates, forms=False, max_split=3, **kw)
        if rng.random() < 0.5:      # grown from repeated pieces, whose gate objects are shared
            m = rng.randint(*length)
            parts = []
            while sum(k * len(o) for k, o in parts) < m:
                parts.append([rng.choice((1, 2, 3, 5)), a.ops(rng.randint(3, 25))])
            for _ in range(rng.randint(1, syms)):
                parts.insert(rng.choice((0, len(parts), rng.randint(0, len(parts)))), [1, [b.op()]])
            out.append({"n": n, "ops": [o for k, ops in parts for _ in range(k) for o in ops], "parts": parts})
            continue
        ops = a.ops(rng.randint(*length))
        for _ in range(rng.randint(1, syms)):
            ops.insert(rng.choice((0, len(ops), rng.randint(0, len(ops)))), b.op())
        out.append({"n": n, "ops": ops})
    return out


WIDE = (9, 11, 12, 17, 33, 40, 65, 101, 130, 257, 1001)


def far(prog, rng, sizes=WIDE):
    """The same circuit on scattered wires of a large register (plain index targets only):
    the wide program, and the wire of each of its indices."""
    N = rng.choice([N for N in sizes if N >= prog["n"]])
    edge = [q for q in (N - 1, N - 2, 9, 10, 32, 64, 100, 0) if 0 <= q < N]
    w = []
    while len(w) < prog["n"]:
        q = rng.choice(edge) if rng.random() < 0.6 else rng.randrange(N)
        if q not in w:
            w.append(q)

    def mv(t):
        if t["k"] == "i":
            q = w[t["v"] % prog["n"]]
            return T_int(q - N if rng.random() < 0.15 else q)
        assert t["k"] == "t", t
        return T_tup(*[mv(x) for x in t["v"]])
    return {"n": N, "ops": [{**o, "t": mv(o["t"])} for o in prog["ops"]]}, {r: i for i, q in enumerate(w) for r in (q, q - N)}


def back(ops, wire, key="t"):
    """operations (or statements) of a wide register on the wires again"""
    def mv(t):
        if isinstance(t, int):
            return wire[t]
        if isinstance(t, list):
            return [mv(x) for x in t]
        return T_int(wire[t["v"]]) if t["k"] == "i" else T_tup(*[mv(x) for x in t["v"]])
    return [{**o, key: mv(o[key])} for o in ops]


def has_gate(prog, names):
    return any(o["g"] in names for o in prog["ops"])


def phase_free(prog):
    """programs whose real global phase is only fixed up to a common factor (cu1)"""
    return has_gate(prog, ("cu1",))


def dist(a, b):
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    d = np.max(np.abs(a - b))
    return float(d) if d == d else float("inf")


def dist_phase(a, b):
    """distance up to one unit factor on a"""
    a = np.asarray(a, dtype=complex); b = np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        return float("inf")
    k = np.argmax(np.abs(b))
    z = np.vdot(a.ravel(), b.ravel())
    if abs(z) < 1e-9:
        return float("inf")
    return dist(a * (z / abs(z)), b)


def fmt_ops(ops):
    return short_prog({"n": 0, "ops": ops})["ops"]
