"""C12: time evolution of Pauli terms.  The appended gates are translated back and compared
with exp(i c t P) in Equiv.tla for every t; generated evolutions in context are run on the
simulator against Programs.tla.  Unsimplified terms are multiplied out by PauliMat.tla."""
import itertools
from qv import *
from unitary import *
from pauliobs import *
from record import flat_ops

MAT = "SPECIFICATION Spec\nCONSTANT NQ = %d\nINVARIANT HermOK\nCHECK_DEADLOCK FALSE\n"
COEF = [Fraction(1), Fraction(-1), Fraction(1, 2), Fraction(-1, 2), Fraction(2), Fraction(-3, 2), Fraction(3), Fraction(1, 4), Fraction(-5, 4)]


def term_cases(rng):
    """unsimplified terms [c, ops] on 4 qubits"""
    out = []
    for k in (1, 2, 3):
        for s in itertools.product(range(4), repeat=k):
            ops = [[l, q] for q, l in enumerate(s) if l]
            if ops:
                out.append(([1, 0, 0], ops))
    for _ in range(400 if THOROUGH else 70):
        qs = rng.sample(range(4), rng.randint(1, 4))
        ops = [[rng.randint(1, 3), q] for q in qs]
        c = rng.choice(COEF)
        out.append(([c.numerator, 0, {1: 0, 2: 1, 4: 2}[c.denominator]], ops))
    # redundant factors: product real, imaginary or identity
    for _ in range(600 if THOROUGH else 120):
        ops = [[rng.randint(1, 3), rng.randrange(rng.choice((1, 2, 4)))] for _ in range(rng.randint(0, 7))]
        out.append((list(rng.choice(((1, 0, 0), (0, 1, 0), (-1, 0, 1), (0, -1, 1), (3, 0, 0), (1, 1, 0), (0, 0, 0)))), ops))
    return out


def num(rng, c):
    v = complex(c[0], c[1]) / 2 ** c[2]
    if v.imag:
        return v
    v = v.real
    return rng.choice((v, v, v, np.float64(v), complex(v), int(v) if v == int(v) else v))


def string(rec):
    """specified simplified term: (coefficient, [(letter, qubit)])"""
    if not rec["m"]:
        return 0j, []
    (s, re, im), = rec["m"]
    return complex(re, im) / 2 ** rec["e"], [(L[l], q) for q, l in enumerate(s) if l]


def pop(g, w, qmap, p=None):
    return {"g": g, "p": [] if p is None else [p], "t": {"k": "pauli", "v": [[l, qmap[q]] for l, q in w]}}


def run(chk):
    from blueqat import Circuit
    from blueqat.pauli import Term
    rng = chk.rng
    tcs = term_cases(rng)
    r = tlc("PauliMat", MAT % 4, [{"t": [{"c": c, "ops": ops}]} for c, ops in tcs])
    chk.tlc_stats(r)
    recs = {x["id"]: x for x in r.records}
    # strings on more qubits
    big = []
    for _ in range(40 if THOROUGH else 10):
        m = rng.choice((5, 6, 6, 7))
        ops = [[rng.randint(1, 3) if m < 7 else rng.choice((3, 3, 3, 1, 2)), q] for q in rng.sample(range(7), m)]
        k = rng.choice(COEF)
        big.append(([k.numerator, 0, {1: 0, 2: 1, 4: 2}[k.denominator]], ops + [[rng.randint(1, 3), rng.randrange(7)]] * rng.choice((0, 0, 1, 2))))
    r = tlc("PauliMat", MAT % 7, [{"t": [{"c": c, "ops": ops}]} for c, ops in big])
    chk.tlc_stats(r)
    recs.update({x["id"] + len(tcs): x for x in r.records})
    small = len(tcs)
    tcs = tcs + big
    vals = GENERIC
    cases, what = [], []
    runnable, forced = [], []
    for i, (c, ops) in enumerate(tcs):
        coeff, w = string(recs[i + 1])
        k = 4 if i < small else 7
        qmap = list(range(k)) if i % 3 else rng.sample(range(k), k)
        wide = i % 5 == 1
        if wide:        # scattered wires of a large register
            qmap = rng.sample((9, 10, 11, 31, 32, 33, 63, 64, 65, 100, 300, rng.randrange(66, 99)), k)
        home = {v: q for q, v in enumerate(qmap)}
        ident = list(range(k))
        t = Term(tuple(pauli(l, qmap[q]) for l, q in ops), num(rng, c))
        qs = {qmap[q] for _, q in w}
        st = structure(t)
        name = repr(t)
        chk.trace()
        # --- append_to_circuit: the operator up to its scalar
        for simp in (True, False, None):
            circ = Circuit()
            _, err = guarded(lambda: t.append_to_circuit(circ) if simp is None else t.append_to_circuit(circ, simplify=simp))
            if err is not None:
                chk.violation(f"({name}).append_to_circuit(simplify={simp}) raised {err!r}", tcs[i])
                continue
            if coeff == 0:
                continue
            fl = gate_ops(circ.ops, Encoder(vals), max(circ.n_qubits, 1))
            if simp is not False and {q for g in fl for q in tq(g)} - qs:
                chk.violation(f"({name}).append_to_circuit touches other qubits: {fmt_ops(fl)}", tcs[i])
            n = max(4 if len(fl) > 6 else max(qs, default=0) + 1, circ.n_qubits)
            if wide:
                fl, err = guarded(back, fl, home)
                if err is not None:
                    chk.violation(f"({name}).append_to_circuit(simplify={simp}) touches other qubits: {circ!r}", tcs[i])
                    continue
                n = k
            cases.append({"n": n, "phase": True, "l": {"k": "ops", "ops": fl}, "r": {"k": "ops", "ops": [pop("pauli", w, ident if wide else qmap)]}})
            what.append((f"({name}).append_to_circuit(simplify={simp}) appends {fmt_ops(fl)}", tcs[i]))
        # --- time evolution
        f, err = guarded(t.get_time_evolution)
        if coeff.imag:
            if not isinstance(err, ValueError):
                chk.violation(f"time evolution of {name} with a complex coefficient: {err!r} instead of ValueError", tcs[i])
            continue
        if err is not None:
            chk.violation(f"({name}).get_time_evolution() raised {err!r}", tcs[i])
            continue
        theta = lambda tq, tc: (tuple(int(-2 * coeff.real * x) for x in tq), -2 * coeff.real * tc)
        for tq_, tc_ in (((4, 0, 0), 0), ((4, 8, 0), 2))[: 2 if abs(coeff) <= 1.5 else 1]:
            n0 = rng.choice((0, 0, 1, 3))
            circ = Circuit(n0)
            nops = len(circ.ops)
            _, err = guarded(f, circ, Lin(tq_, tc_, vals))
            if err is not None:
                chk.violation(f"time evolution of {name} raised {err!r}", tcs[i])
                break
            if not w or coeff == 0:
                if coeff != 0 and (len(circ.ops) or circ.n_qubits != n0):
                    chk.violation(f"time evolution of the scalar {name} appends {circ!r}", tcs[i])
                continue
            if circ.n_qubits != max(n0, max(qs) + 1):
                chk.violation(f"time evolution of {name} on {n0} qubits makes {circ.n_qubits} qubits", tcs[i])
            fl, err = guarded(flat_ops, circ.ops, Encoder(vals), circ.n_qubits)
            if err is not None:
                # angles computed in another way: left to the simulator runs below
                chk.count("untranslated")
                if not wide and k == 4:
                    forced.append((t, f, coeff, w, qmap))
                break
            if {q for g in fl for q in tq(g)} - qs:
                wide = False
                chk.violation(f"time evolution of {name} touches other qubits: {fmt_ops(fl)}", tcs[i])
            q_, c_ = theta(tq_, tc_)
            if c_ != int(c_):
                continue
            if wide:
                fl = back(fl, home)
            cases.append({"n": k if wide else circ.n_qubits, "phase": True, "l": {"k": "ops", "ops": fl},
                          "r": {"k": "ops", "ops": [pop("pexp", w, ident if wide else qmap, (q_, int(c_)))]}})
            what.append((f"time evolution of {name} appends {fmt_ops(fl)}", tcs[i]))
        if structure(t) != st:
            chk.violation(f"time evolution changed {st} to {structure(t)}", tcs[i])
        if w and coeff != 0 and not wide and k == 4:
            runnable.append((t, f, coeff, w, qmap))
    chk.sample(what[5][0])
    chk.sample(what[-1][0])
    # a case on few qubits and few terms stays cheap: the evolution has one or two angles
    verdicts, r = tlc_equiv(cases, timeout=700)
    chk.tlc_stats(r)
    chk.count("validated_appends", len(cases))
    for v, (s, t) in zip(verdicts, what):
        chk.trace()
        if v != "same":
            chk.violation(f"{s}: {v}", t)
    # --- in context, on the simulator
    progs, meta = [], []
    forced = forced[:200]
    for k in range(len(forced) + (400 if THOROUGH else 110)):
        n = 4 if k < len(forced) else rng.choice((2, 3, 4, 4))
        g = Gen(rng, n, max_split=3, qstep=4)
        ops = g.ops(rng.randint(0, 4)) if rng.random() < 0.7 else entangle_small(n)
        evs = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            t = forced[k] if k < len(forced) else rng.choice([x for x in runnable if max(x[4][q] for _, q in x[3]) < n])
            j = rng.randrange(NSYM)
            q = [0] * NSYM
            q[j] = rng.choice((4, -4, 8))
            evs.append((t, tuple(q)))
        tail = g.ops(rng.randint(0, 2))
        spec = ops + [pop("pexp", t[3], t[4], (tuple(int(-2 * t[2].real * x) for x in q), 0)) for t, q in evs] + tail
        progs.append({"n": n, "ops": spec})
        meta.append((ops, evs, tail))
    terms, r = tlc_programs(progs, timeout=600)
    chk.tlc_stats(r)
    for p, rec, (ops, evs, tail) in zip(progs, terms, meta):
        for vals in val_sets(rng, 3):
            def go():
                c = Circuit(p["n"])
                for op in ops:
                    append_op(c, op, vals)
                for (t, f, *_), q in evs:
                    tm = sum(x * a / 4 for x, a in zip(q, vals))
                    tm = rng.choice((float, np.float64, lambda v: int(v) if v == int(v) else v))(tm)
                    (f if rng.random() < 0.5 else t.get_time_evolution())(c, tm)
                for op in tail:
                    append_op(c, op, vals)
                return c.run()
            got, err = guarded(go)
            chk.trace()
            want = state_eval(rec[0], vals, 2 ** p["n"])
            if err is not None or dist_phase(got, want) > 1e-8:
                chk.violation(f"circuit {fmt_ops(ops)} + evolutions {[(repr(t[0]), q) for t, q in evs]} + {fmt_ops(tail)} at {vals.v}: {err!r}, wrong state", {"prog": p, "vals": vals.v})
                break
    chk.assumptions.append("coefficients and times are dyadic multiples of symbols in the translation validation")


def entangle_small(n):
    return [{"g": "h", "p": [], "t": T_slice()}, {"g": "ry", "p": [((4, 0, 0), 0)], "t": T_int(0)}] + \
        [{"g": "cx", "p": [], "t": T_tup(T_int(i), T_int(i + 1))} for i in range(n - 1)] + [{"g": "s", "p": [], "t": T_slice()}]


def tq(g):
    """qubits in the (resolved) target expression of a translated gate"""
    def f(t):
        return [t["v"]] if t["k"] == "i" else [q for x in t["v"] for q in f(x)]
    return f(g["t"])
