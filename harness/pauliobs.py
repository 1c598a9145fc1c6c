"""Reading Pauli objects of the library as operators, independently of its own algebra,
and writing specification operators as library objects in many forms."""
from fractions import Fraction
from numbers import Number
from qv import *
import numpy as np

L = "IXYZ"
_PH = {}
for a in range(4):
    for b in range(4):
        if a == 0 or b == 0 or a == b:
            _PH[a, b] = (1, b if a == 0 else a if b == 0 else 0)
        else:
            _PH[a, b] = (1j if (b - a) % 3 == 1 else -1j, 6 - a - b)


def obs_ops(ops):
    """(phase, {qubit: letter}) of a product of operators, left to right"""
    ph, s = 1, {}
    for op in ops:
        l = L.index(op.op)
        if l == 0:
            continue
        n = int(op.n)
        f, r = _PH[s.get(n, 0), l]
        ph *= f
        if r:
            s[n] = r
        else:
            s.pop(n, None)
    return ph, frozenset(s.items())


def observe(v):
    """library object or number -> {frozenset of (qubit, letter): coefficient}"""
    from blueqat.pauli import Term, Expr, _PauliImpl
    out = {}
    if isinstance(v, Number):
        items = [((), v)]
    elif isinstance(v, _PauliImpl):
        items = [((v,), 1)]
    elif isinstance(v, Term):
        items = [(v.ops, v.coeff)]
    elif isinstance(v, Expr):
        items = [(t.ops, t.coeff) for t in v.terms]
    else:
        raise TypeError(f"not an operator: {v!r}")
    for ops, c in items:
        ph, s = obs_ops(ops)
        out[s] = out.get(s, 0) + complex(c) * ph
    return {s: c for s, c in out.items() if c != 0}


def spec_map(v, qmap):
    """{frozenset: complex} of an operator written by the specification (exact in binary)"""
    return {frozenset((qmap[q], l) for q, l in enumerate(s) if l): complex(re, im) / 2 ** v["e"] for s, re, im in v["m"]}


def kind(v):
    from blueqat.pauli import Term, Expr, _PauliImpl
    return "num" if isinstance(v, Number) else "pauli" if isinstance(v, _PauliImpl) else "term" if isinstance(v, Term) else "expr" if isinstance(v, Expr) else "?"


def structure(v):
    """exact structure, to see whether an object was modified"""
    k = kind(v)
    if k == "num":
        return ("num", complex(v))
    if k == "pauli":
        return ("pauli", v.op, None if v.op == "I" else v.n)
    if k == "term":
        return ("term", tuple(structure(o) for o in v.ops), complex(v.coeff))
    if k == "expr":
        return ("expr", tuple(structure(t) for t in v.terms))
    return ("?", repr(v))


def pnum(rng, re, im, e, types=None):
    """the number (re + i im)/2^e in a random Python/NumPy type"""
    c = complex(re, im) / 2 ** e
    opts = [complex, np.complex128, lambda c: np.complex64(c)]
    if c.imag == 0:
        opts = [lambda c: c.real, lambda c: c.real, lambda c: np.float64(c.real), complex, np.complex128, lambda c: np.float32(c.real)]
        if c.real == int(c.real):
            opts += [lambda c: int(c.real), lambda c: int(c.real), lambda c: np.int64(c.real), lambda c: Fraction(int(c.real))]
        else:
            opts += [lambda c: Fraction(c.real)]
    return rng.choice(opts)(c)


def pauli(l, q):
    from blueqat.pauli import X, Y, Z, I
    return I if l == 0 else (X, Y, Z)[l - 1][q]


def scrambled_ops(rng, s, nmax=4):
    """operators (in an order) whose product is phase * string s, with redundant factors"""
    seq = [pauli(l, q) for q, l in s]
    rng.shuffle(seq)
    qs = [q for q, _ in s] + [rng.randrange(nmax)]
    for _ in range(rng.choice((0, 0, 1, 2))):
        q, l = rng.choice(qs), rng.randint(1, 3)
        i = rng.randint(0, len(seq))
        seq.insert(i, pauli(l, q))
        j = rng.randint(0, len(seq))
        seq.insert(j, pauli(l, q))
    if rng.random() < 0.12:     # a long word: many factors (that don't commute) on the same qubits
        qs = qs if rng.random() < 0.5 else qs[:1]
        for _ in range(rng.randint(6, 18)):
            w = [pauli(rng.randint(1, 3), rng.choice(qs)) for _ in range(rng.randint(1, 3))]
            i = rng.randint(0, len(seq))
            seq[i:i] = w + w[::-1]
    return seq


def alt_term(rng, s, c, nmax=4):
    """a Term equal to c * s in an unsimplified form"""
    from blueqat.pauli import Term
    seq = scrambled_ops(rng, s, nmax)
    ph, s2 = obs_ops(seq)
    assert s2 == s
    c = c / ph
    if c.imag == 0 and rng.random() < 0.7:
        c = c.real
    return Term(tuple(seq), c)


def alt_expr(rng, m, nmax=4):
    """an Expr of unsimplified, split and cancelling terms equal to the operator m"""
    from blueqat.pauli import Term, Expr
    terms = []
    for s, c in m.items():
        for part in ([c] if rng.random() < 0.5 else [c / 2, c / 2] if rng.random() < 0.5 else [2 * c, -c]):
            terms.append(alt_term(rng, s, part, nmax))
    if rng.random() < 0.4:
        s = frozenset((q, rng.randint(1, 3)) for q in rng.sample(range(nmax), rng.randint(0, min(nmax, 2))))
        d = m.get(s) or 0.5 + 0j        # of a similar magnitude: the sum stays exact
        terms += [alt_term(rng, s, d, nmax), alt_term(rng, s, -d, nmax)]
    rng.shuffle(terms)
    return Expr(tuple(terms))
