"""Circuits with measurements and resets: exact branches from spec/Programs.tla against
the outcomes, vectors and frequencies of the real simulator."""
import os, multiprocessing
from collections import Counter
from qv import *
from unitary import *

MEAS = ("measure", "m", "reset")


def measured_program(rng, n, maxm=5, length=(3, 12), p_meas=0.35, max_split=6, end=False, gates=ALLG, nsplit_const=False):
    """gates interleaved with measurements/resets, at most maxm measured targets"""
    g = Gen(rng, n, gates=gates, max_split=max_split, p_sym=0.5)
    ops, m = [], 0
    r = rng.random()
    if max_split and r < 0.45:
        ops += entangler(n)
        g.split = min(4, max_split)
    elif max_split and r < 0.75:
        ops.append({"g": "h", "p": [], "t": T_slice() if n <= 4 else T_int(rng.randrange(n))})
    for _ in range(rng.randint(*length)):
        if rng.random() < p_meas and m < maxm:
            for _ in range(20):
                t, q = g.one_target(n) if rng.random() < 0.5 else (lambda v: (T_int(v), [v]))(rng.randrange(n))
                if m + len(q) <= maxm:
                    m += len(q)
                    ops.append({"g": rng.choice(("measure", "m", "reset") if not end else ("measure", "m")), "p": [], "t": t})
                    break
        elif m and rng.random() < 0.15 and m < maxm:
            # the same operation again: measured twice
            o = rng.choice([o for o in ops if o["g"] in MEAS])
            k = len(resolve_py(o["t"], n))
            if m + k <= maxm:
                m += k
                ops.append(o)
        else:
            ops.append(g.op())
    if end and m + n <= max(maxm, n):
        ops.append({"g": "m", "p": [], "t": T_slice()})
    return {"n": n, "ops": ops}


def wide_measured(rng, ns, maxm=5):
    """few-term states on large registers, measured and reset on low and high qubits, several times"""
    out = []
    for n in ns:
        hi = sorted({n - 1, n - 2, 8, n // 2, 0, rng.randrange(n)})
        q = lambda k: rng.sample(hi if rng.random() < 0.8 else range(n), k)
        ops = [{"g": "x", "p": [], "t": place_t([a])} for a in q(2)] + [{"g": rng.choice(("h", "h", "ry")), "p": [], "t": place_t(q(1))} for _ in range(rng.choice((0, 1, 2)))]
        for o in ops:
            if o["g"] == "ry":
                o["p"] = [((4, 0, 0), 0)]
        m = 0
        while m < maxm:
            if rng.random() < 0.5:
                qs = q(rng.choice((1, 1, 1, 2)))[:maxm - m]
                t = T_int(qs[0]) if len(qs) == 1 else T_tup(*[T_int(x) for x in qs])
                o = {"g": rng.choice(("m", "m", "measure", "reset")), "p": [], "t": t}
                ops.append(o)
                m += len(qs)
                if rng.random() < 0.4 and m + len(qs) <= maxm:
                    ops.append(dict(o))
                    m += len(qs)
            else:
                g = rng.choice(("x", "x", "cx", "cx", "swap", "cz", "ccx", "cswap", "s", "y", "z"))
                ops.append({"g": g, "p": [], "t": place_t(q(Gen.arity(g)))})
        out.append({"n": n, "ops": ops})
    return out


def resolve_py(t, n):
    if t["k"] == "i":
        return [t["v"] % n]
    if t["k"] == "s":
        return list(range(n))[t_obj(t)]
    return [q for x in t["v"] for q in resolve_py(x, n)]


def entangler(n):
    """a generic entangled state with few terms"""
    ops = [{"g": "ry", "p": [((4, 0, 0), 0)], "t": T_int(0)}]
    ops += [{"g": "cx", "p": [], "t": T_tup(T_int(i), T_int(i + 1))} for i in range(n - 1)]
    ops += [{"g": "rx", "p": [((0, 4, 0), 0)], "t": T_int(n - 1)}]
    ops += [{"g": "h", "p": [], "t": T_int(0)}, {"g": "t", "p": [], "t": T_int(0)}]
    return ops


def systematic_measured():
    out = []
    for n in (1, 2, 3):
        for q in range(n):
            for g in ("measure", "reset"):
                out.append({"n": n, "ops": entangler(n) + [{"g": g, "p": [], "t": T_int(q)}]})
                out.append({"n": n, "ops": entangler(n) + [{"g": g, "p": [], "t": T_int(q)}, {"g": "h", "p": [], "t": T_slice()}, {"g": "m", "p": [], "t": T_slice()}]})
        for a in range(n):
            for b in range(n):
                out.append({"n": n, "ops": entangler(n) + [{"g": "reset", "p": [], "t": T_tup(T_int(a), T_int(b))}, {"g": "measure", "p": [], "t": T_slice()}]})
                out.append({"n": n, "ops": entangler(n) + [{"g": "measure", "p": [], "t": T_tup(T_int(a), T_int(b))}, {"g": "x", "p": [], "t": T_int(a)}, {"g": "measure", "p": [], "t": T_int(a)}]})
    return out


def branches(terms, vals, n, phase):
    """[(key, normalised vector, probability)] with equal ones merged"""
    out = []
    for t in terms:
        w = state_eval(t, vals, 2 ** n)
        p = float(np.vdot(w, w).real)
        if p < 1e-13:
            continue
        u = w / math.sqrt(p)
        key = "".join(map(str, t["c"]))
        for i, (k2, u2, p2) in enumerate(out):
            if k2 == key and (dist_phase if phase else dist)(u, u2) < 1e-9:
                out[i] = (k2, u2, p2 + p)
                break
        else:
            out.append((key, u, p))
    tot = sum(p for _, _, p in out)
    if abs(tot - 1) > 1e-9:
        raise MachineryError(f"branch probabilities add up to {tot}")
    return out


def find(brs, key, v, phase, tol=1e-7):
    best = None
    for i, (k, u, p) in enumerate(brs):
        if key is not None and k != key:
            continue
        d = (dist_phase if phase else dist)(v, u)
        if best is None or d < best[0]:
            best = (d, i)
    return best[1] if best and best[0] < tol else None


def log_tail(k, n, p):
    """log of the probability of a deviation from n*p at least as large as k (one side)"""
    from scipy.stats import binom
    if p <= 0:
        return 0.0 if k == 0 else -math.inf
    if p >= 1:
        return 0.0 if k == n else -math.inf
    return float(binom.logsf(k - 1, n, p)) if k > n * p else float(binom.logcdf(k, n, p))


LIMIT = math.log(1e-12)


def bad_counts(counts, probs, n):
    """first key whose count is impossibly far from its probability"""
    for k in set(counts) | set(probs):
        p = min(1.0, probs.get(k, 0.0))
        c = counts.get(k, 0)
        if p < 1e-12 and c:
            return f"{k!r} has probability 0 but occurs {c} times of {n}"
        if log_tail(c, n, p) < LIMIT:
            return f"{k!r} occurs {c} times of {n}, probability {p:.5f}"
    return None


class Scripted:
    """steers the usual sources of uniform random numbers"""

    def __init__(self, seq):
        self.seq, self.i = seq, 0

    def nxt(self):
        v = self.seq[self.i % len(self.seq)]
        self.i += 1
        return v

    def __enter__(self):
        def arr(size=None, *more):
            if size is None:
                return self.nxt()
            s = (size,) + more if not isinstance(size, tuple) else size
            return np.array([self.nxt() for _ in range(int(np.prod(s)))]).reshape(s)
        self.saved = [(random, "random", random.random)] + [(np.random, k, getattr(np.random, k)) for k in ("random", "rand", "random_sample", "uniform")]
        random.random = self.nxt
        np.random.random = np.random.random_sample = lambda size=None: arr(size)
        np.random.rand = lambda *s: arr(*s) if s else self.nxt()
        np.random.uniform = lambda low=0.0, high=1.0, size=None: low + (high - low) * arr(size)
        return self

    def __exit__(self, *a):
        for o, k, v in self.saved:
            setattr(o, k, v)
        return False


def seed_all(s):
    random.seed(s)
    np.random.seed(s % (2 ** 32))
