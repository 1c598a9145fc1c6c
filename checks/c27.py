"""C27: printed, pickled and copied Pauli values.  PauliForm.tla is a reader for the text
(grammar of Python expressions restricted to sums of products of Pauli operators) and
compares the operator it denotes with the value printed; Python itself has to accept the
text as well, and pickled and deep-copied values have to be equal values."""
import copy, io, operator, pickle, tokenize
import numpy as np
from qv import *

CFG = "SPECIFICATION Spec\nINVARIANT Inside\nPROPERTY Forward\nCHECK_DEADLOCK FALSE\n"
SIZES = (0, 1, 2, 9, 10, 11, 31, 32, 64, 99, 100, 1000, 10 ** 6, 2 * 10 ** 9)
BASE = (1, 0.1, 2, 0.5, 0.25, 3, 1.5, 1e-5, 1e-17, 1e22, 1e300, 2 / 3, 0.30000000000000004, 123456789.125, 1e16, 12345678901234567890)


class Table:
    """magnitudes of numbers: 0 is 0, 1 is 1"""

    def __init__(self):
        self.ix = {1.0: 1}

    def code(self, v, add=True):
        v = v if isinstance(v, int) and float(v) != v else float(v)
        if v == 0:
            return 0
        if add:
            self.ix.setdefault(abs(v), len(self.ix) + 1)
        k = self.ix.get(abs(v), 10 ** 6)
        return k if v > 0 else -k


def coeff(rng):
    def real():
        v = rng.choice(BASE) if rng.random() < 0.7 else rng.uniform(-3, 3)
        v = -v if rng.random() < 0.4 else v
        return v
    r = rng.random()
    if r < 0.5:
        v = real()
        q = rng.random()
        return np.float64(v) if q < 0.15 else np.int64(v) if q < 0.3 and isinstance(v, int) and abs(v) < 2 ** 60 else v
    if r < 0.6:
        return rng.choice((-1, -1.0, 1, 1.0, 0, 0.0, -0.0, True))
    re, im = (float(rng.choice((real(), real(), 0, -0.0, 1, -1))) for _ in range(2))
    return (complex if rng.random() < 0.8 else np.complex128)(complex(re, im))


def values(rng):
    """an operator, a term or an expression, made in one of many ways"""
    from blueqat.pauli import X, Y, Z, I, Term, Expr
    P = (X, Y, Z)
    qs = rng.sample(SIZES, 3) if rng.random() < 0.4 else [0, 1, 2]

    def op():
        return rng.choice(P)[rng.choice(qs)] if rng.random() < 0.93 else I

    def term(simple=False):
        k = rng.choice((0, 1, 1, 2, 3, 4, 7))
        r = rng.random()
        if r < 0.25:
            return Term.from_ops_iter([o for o in (op() for _ in range(k)) if o is not I], coeff(rng))
        t = coeff(rng) * op() if r < 0.6 else op() * op()
        for _ in range(k):
            t = t * op() if rng.random() < 0.7 else op() * t
        r = rng.random()
        if r < 0.15:
            t = -t
        elif r < 0.2:
            t = t ** rng.choice((0, 1, 2, 3))
        elif r < 0.25:
            t = t / rng.choice((2, 4.0, -3, 1j))
        elif r < 0.35:
            t = t.simplify()
        return t
    r = rng.random()
    if r < 0.08:
        return op()
    if r < 0.4:
        return term()
    if r < 0.46:
        return Term.from_chars("".join(rng.choice("IXYZ") for _ in range(rng.choice((1, 3, 6, 12)))))
    e = Expr.from_terms_iter([term() for _ in range(rng.choice((0, 1, 2, 3)))]) if rng.random() < 0.3 else term().to_expr()
    for _ in range(rng.choice((0, 1, 2, 3, 5))):
        f = rng.choice((operator.add, operator.sub))
        x = rng.choice((term, term, term, op, lambda: coeff(rng)))()
        e = f(e, x) if rng.random() < 0.8 else f(x, e)
    r = rng.random()
    if r < 0.15:
        e = coeff(rng) * e
    elif r < 0.25:
        e = -e
    elif r < 0.35:
        e = e.simplify()
    elif r < 0.42 and len(e.terms) < 4:
        e = e * e
    elif r < 0.47:
        e = e - e
    return e


def stored(v):
    """what a value consists of, through its public face"""
    from blueqat.pauli import Term, Expr
    if isinstance(v, Expr):
        return [(tuple((o.op, o.n) for o in t.ops if o.op != "I"), t.coeff) for t in v]
    t = v if isinstance(v, Term) else None
    if t is None:
        return [(() if v.is_identity else ((v.op, v.n),), 1)]
    return [(tuple((o.op, o.n) for o in t.ops if o.op != "I"), t.coeff)]


def parts(c):
    if isinstance(c, (complex, np.complexfloating)):
        return c.real, c.imag
    return (int(c) if isinstance(c, (bool, np.integer, int)) else c), 0


def toks(text, tab):
    out = []
    for t in tokenize.generate_tokens(io.StringIO(text).readline):
        if t.type in (tokenize.NEWLINE, tokenize.NL, tokenize.ENDMARKER):
            continue
        r = {"k": "op", "s": t.string, "i": [], "f": 0, "c": False}
        if t.type == tokenize.NAME:
            r["k"] = "name"
        elif t.type == tokenize.NUMBER:
            r["k"] = "num"
            s = t.string
            if s[-1] in "jJ":
                r["c"], s = True, s[:-1]
            if s.isdigit():
                r["i"] = [int(s)] if int(s) < 2 ** 31 and not r["c"] else []
                r["f"] = tab.code(int(s) if not r["c"] else float(s), False)
            else:
                r["f"] = tab.code(float(s), False)
        elif t.type != tokenize.OP:
            return None
        out.append(r)
    return out


def run(chk):
    from blueqat import pauli
    rng = chk.rng
    warnings.simplefilter("ignore")
    names = {"X": pauli.X, "Y": pauli.Y, "Z": pauli.Z, "I": pauli.I, "__builtins__": {}}
    data, texts, what = [], [], []
    for _ in range(12000 if THOROUGH else 2500):
        chk.trace()
        v, err = guarded(values, rng)
        if err is not None:
            if isinstance(err, OverflowError):
                continue
            chk.violation(f"building a Pauli value raised {err!r}", repr(err))
            continue
        ts = stored(v)
        if any(not np.isfinite(complex(c)) for _, c in ts):
            continue
        here = f"{type(v).__name__} {ts}"
        text, err = guarded(repr, v)
        if err is not None or not isinstance(text, str):
            chk.violation(f"printing {here} gives {text!r} {err!r}", here)
            continue
        if str(v) != text and str(v) != repr(v) or stored(v) != ts:
            chk.violation(f"{here} is printed as {text!r} and {str(v)!r}, and now consists of {stored(v)}", here)
        # pickled and copied values
        for f in (lambda: pickle.loads(pickle.dumps(v, rng.choice((0, 2, pickle.HIGHEST_PROTOCOL)))), lambda: copy.deepcopy(v), lambda: copy.copy(v)):
            w, err = guarded(f)
            ok, err = (None, err) if err is not None else guarded(lambda: type(w) is type(v) and stored(w) == ts and w == v and not w != v and repr(w) == text)
            if not ok:
                chk.violation(f"a pickled or copied {here} is another value {err!r}", here)
                break
        back, err = guarded(eval, text, dict(names))
        if err is not None:
            chk.violation(f"{here} is printed as {text!r}, which is not an expression: {err!r}", here)
            continue
        tab = Table()
        terms = [{"ops": [["XYZ".index(l) + 1, int(n)] for l, n in ops], **dict(zip(("re", "im"), (tab.code(x) for x in parts(c))))} for ops, c in ts]
        tk, err = guarded(toks, text, tab)
        if not tk:
            chk.violation(f"{here} is printed as {text!r}", here)
            continue
        simple = [tuple(sorted(o)) for o, _ in ts]
        if all(len({n for _, n in o}) == len(o) for o in simple) and len(set(simple)) == len(simple):
            # no arithmetic on the way: exactly the same value for Python
            if not (back == v):
                chk.violation(f"{here} is printed as {text!r}, which is another value for Python", here)
        data.append({"terms": terms, "toks": tk})
        texts.append(text)
        what.append(here)
    r = tlc("PauliForm", CFG, data, timeout=600)
    chk.tlc_stats(r)
    if len(r.records) != len(data):
        raise MachineryError("missing verdicts")
    for x in r.records:
        i = x["id"] - 1
        if x["v"] != "same":
            chk.violation(f"{what[i]} is printed as {texts[i]!r}: {x['v']}", what[i])
    chk.count("texts", len(texts))
    for t in texts[3:6]:
        chk.sample(t)
