"""C10: Pauli expression arithmetic.  PauliAlg.tla is the operator algebra over Z[i]/2^e
(PauliLaws.tla: it is the matrix algebra); PauliSM.tla generates histories of immutable
values; each step is replayed on the library and every slot is compared exactly."""
import pickle, copy
from qv import *
from pauliobs import *

CFG = "SPECIFICATION Spec\nCONSTANTS NQ = %d Depth = %d NSlots = %d\nINVARIANT Canonical NumberKinds\nPROPERTY OneSlot\nCHECK_DEADLOCK FALSE\n"
LAWS = "SPECIFICATION Spec\nCONSTANT NQ = %d\nINVARIANT ProductIsMatrixProduct CommuteIsCommutator Involution Distributive Associative\nCHECK_DEADLOCK FALSE\n"


def step_real(e, slots, rng, qmap):
    from blueqat import pauli as P
    from blueqat.pauli import Term, Expr, X, Y, Z, I, commutator, term_from_chars, pauli_from_char, to_term, to_expr, qubo_bit
    a = e["a"]
    x = slots[e["x"] - 1] if "x" in e else None
    y = slots[e["y"] - 1] if "y" in e else None
    if a == "leaf":
        l, q = e["l"], qmap[e["q"]]
        if l == 0:
            return rng.choice((I, I(), pauli_from_char("I"), pauli_from_char("i", 3)))
        ctor = (X, Y, Z)[l - 1]
        i = rng.choice((q, q, np.int64(q)))
        return rng.choice((lambda: ctor[i], lambda: ctor(i), lambda: pauli_from_char(L[l], i), lambda: pauli_from_char(L[l].lower(), i)))()
    if a == "num":
        return pnum(rng, *e["n"])
    if a == "chars":
        s = e["s"][::-1] if e["rev"] else e["s"]
        chars = ["I"] * (max(qmap) + 1)
        for q, l in enumerate(s):
            chars[qmap[q]] = L[l]
        chars = "".join(chars) if rng.random() < 0.3 else "".join(chars).rstrip("I")
        return term_from_chars(chars[::-1]) if e["rev"] else Term.from_chars(chars)
    if a == "add":
        if rng.random() < 0.2:
            x += y
            return x
        return x + y
    if a == "sub":
        if rng.random() < 0.2:
            x -= y
            return x
        return x - y
    if a == "mul":
        if rng.random() < 0.2:
            x *= y
            return x
        return x * y
    if a == "div":
        return x / pnum(rng, *e["n"])
    if a == "neg":
        return -x
    if a == "pow":
        n = rng.choice((int, np.int64))(e["n"])
        return x ** n if rng.random() < 0.7 else pow(x, n)
    if a == "simplify":
        return x.simplify()
    if a == "conv":
        if e["to"] == "term":
            return x.to_term() if rng.random() < 0.5 else to_term(x)
        return x.to_expr() if rng.random() < 0.5 else to_expr(x)
    if a == "commutator":
        if kind(x) != "pauli" and rng.random() < 0.4:
            return x.commutator(y)
        return commutator(x, y)
    if a == "qubo_bit":
        return qubo_bit(qmap[e["q"]])
    if a == "copy":
        return rng.choice((lambda v: v, lambda v: pickle.loads(pickle.dumps(v)), copy.copy, copy.deepcopy))(x)
    raise MachineryError(a)


def check_value(v, want, knd, rng, what):
    """the object represents the specified operator, in all views of it"""
    try:
        got = observe(v)
    except TypeError as ex:
        return f"{what} is {v!r}: {ex}"
    if got != want:
        return f"{what} is {v!r}, which is {fmt(got)}; specified {fmt(want)}"
    if kind(v) != knd:
        return f"{what} is {v!r} of kind {kind(v)}; specified {knd}"
    if knd in ("term", "expr"):
        s = v.simplify()
        if observe(s) != want:
            return f"{what}: {v!r}.simplify() is {s!r}; specified {fmt(want)}"
        terms = [s] if kind(s) == "term" else list(s.terms)
        seen = set()
        for t in terms:
            qs = [o.n for o in t.ops if o.op != "I"]
            if len(qs) != len(t.ops) or qs != sorted(set(qs)) or t.ops in seen or (kind(s) == "expr" and t.coeff == 0):
                return f"{what}: {v!r}.simplify() is {s!r}, which isn't simplified"
            seen.add(t.ops)
        if kind(s) == "term" and want == {} and s.coeff != 0:
            return f"{what}: simplify() gives {s!r} for zero"
        nq = max([q + 1 for m in want for q, _ in m], default=0)
        if kind(s) == "expr" and s.n_qubits != nq:
            return f"{what}: {s!r}.n_qubits is {s.n_qubits}, specified {nq}"
        if kind(s) == "expr" and (s.max_n() != nq - 1 or sorted(map(complex, s.coeffs()), key=repr) != sorted(want.values(), key=repr)):
            return f"{what}: max_n or coeffs of {s!r}"
    if knd in ("pauli", "term"):
        if observe(v.to_term()) != want:
            return f"{what}: {v!r}.to_term() is {v.to_term()!r}"
    if knd != "num" and observe(v.to_expr()) != want:
        return f"{what}: {v!r}.to_expr() is {v.to_expr()!r}"
    if knd == "num":
        return None
    # the textual form is Python for the same operator (which Python reads up to a certain length)
    if kind(v) == "expr" and len(v.terms) > 600:
        return None
    from blueqat import pauli as P
    try:
        back = eval(repr(v), {"X": P.X, "Y": P.Y, "Z": P.Z, "I": P.I, "__builtins__": {}})
        if observe(back) != want:
            return f"{what}: the text {v!r} reads as {fmt(observe(back))}; specified {fmt(want)}"
    except Exception as ex:
        return f"{what}: the text {v!r} can't be read back: {ex!r}"
    if knd == "term" and sorted(v.n_iter()) != sorted(o.n for o in v.ops):
        return f"{what}: n_iter of {v!r} is {list(v.n_iter())}"
    # equality with other objects of the same operator, in every type that can hold it
    alts = [alt_expr(rng, want)]
    if len(want) <= 1:
        (s, c) = next(iter(want.items()), (frozenset(), 0j))
        alts.append(alt_term(rng, s, c))
        if c == 1 and len(s) <= 1:
            alts.append(pauli(*next(((l, q) for q, l in s), (0, 0))))
    for w in alts:
        if not (v == w) or not (w == v) or v != w or w != v:
            return f"{what}: {v!r} and {w!r} represent the same operator, but == says otherwise"
        if kind(v) == "pauli" == kind(w) and hash(v) != hash(w):
            return f"{what}: equal objects {v!r}, {w!r} have different hashes"
        try:
            hv, hw = hash(v), hash(w)
        except TypeError:
            pass
        else:
            if hv != hw:
                return f"{what}: equal objects {v!r}, {w!r} have different hashes"
    other = dict(want)
    r = rng.random()
    if other and r < 0.5:
        s = rng.choice(sorted(other, key=sorted))
        other[s] *= rng.choice((-1, 2, 1j, 0, 0.5))
        other = {k: c for k, c in other.items() if c}
    else:
        s = frozenset((q, rng.randint(1, 3)) for q in rng.sample(range(5), rng.randint(0, 2)))
        other[s] = 1.25 * other[s] if s in other else 0.25
        other = {k: c for k, c in other.items() if c}
    ws = [alt_expr(rng, other)]
    if len(other) <= 1:
        s, c = next(iter(other.items()), (frozenset(), 0j))
        ws.append(alt_term(rng, s, c))
    for w in ws:
        if v == w or w == v or not (v != w) or not (w != v):
            return f"{what}: {v!r} and {w!r} represent different operators, but == says they are equal"
    return None


def fmt(m):
    return " + ".join(f"({c})" + "".join(f"*{L[l]}[{q}]" for q, l in sorted(s)) for s, c in m.items()) or "0"


def replay(hist, rng, nq, nslots):
    qmap = rng.sample(range(6), nq) if rng.random() < 0.5 else list(range(nq))
    slots = [pauli(s, qmap[(s - 1) % nq]) if s <= 3 else 2 for s in range(1, nslots + 1)]
    spec = [{"k": kind(v), "m": observe(v)} for v in slots]
    log = []
    for e in hist:
        a = e["a"]
        log.append(a + "".join(f" {k}={e[k]}" for k in ("x", "y", "n", "l", "q", "s", "to", "z") if k in e))
        where = lambda: f"after {'; '.join(log[-8:])} (slots {slots!r})"
        before = [structure(v) for v in slots]
        try:
            if a in ("eq", "commutes", "termscommute"):
                x = slots[e["x"] - 1]
                y = slots[e["y"] - 1] if "y" in e else None
                if a == "eq":
                    r = [x == y, y == x, not (x != y), not (y != x)]
                elif a == "commutes":
                    from blueqat.pauli import is_commutable
                    if not e["r"]:
                        # the library's tolerance
                        mx, my = spec[e["x"] - 1]["m"], spec[e["y"] - 1]["m"]
                        if min([abs(c) for c in mx.values()]) * min([abs(c) for c in my.values()]) < 1e-2:
                            continue
                    r = [is_commutable(x, y), is_commutable(y, x)] + ([x.is_commutable_with(y)] if kind(x) != "pauli" else [])
                else:
                    s = x.to_expr().simplify()
                    r = [s.is_all_terms_commutable()]
                if any(bool(v) != e["r"] for v in r):
                    return f"{a}({x!r}{', ' + repr(y) if y is not None else ''}) gives {r}, specified {e['r']}, {where()}"
            else:
                v = step_real(e, slots, rng, qmap)
                want = spec_map(e["v"], qmap)
                err = check_value(v, want, e["v"]["k"], rng, f"result of {log[-1]}")
                if err:
                    return f"{err}, {where()}"
            after = [structure(v) for v in slots]
            if after != before:
                return f"operands changed: {before} -> {after}, {where()}"
            if "v" in e:
                slots[e["z"] - 1] = v
                spec[e["z"] - 1] = {"k": e["v"]["k"], "m": want}
                # == and != of the new value with every slot
                for i, (o, so) in enumerate(zip(slots, spec)):
                    if so["k"] == "num" or e["v"]["k"] == "num":
                        continue
                    same = so["m"] == want
                    if (v == o) != same or (o == v) != same or (v != o) == same or (o != v) == same:
                        return f"{v!r} == {o!r} should be {same}, {where()}"
        except MachineryError:
            raise
        except Exception as ex:
            return f"{log[-1]} raised {ex!r}, {where()}"
    return None


def errors(chk):
    from blueqat.pauli import X, Y, Z, I, Term, term_from_chars, pauli_from_char
    for name, f, ex in (("from_chars 'XQ'", lambda: Term.from_chars("XQ"), ValueError), ("term_from_chars 'A'", lambda: term_from_chars("A"), ValueError),
                        ("pauli_from_char 'W'", lambda: pauli_from_char("W", 1), ValueError), ("Term ** -1", lambda: (2 * X[0]) ** -1, ValueError),
                        ("Expr ** -2", lambda: (X[0] + 1) ** -2, ValueError), ("X/0", lambda: X[0] / 0, ZeroDivisionError), ("Term/0", lambda: (X[0] * Y[1]) / 0, ZeroDivisionError),
                        ("Expr/0", lambda: (X[0] + Y[1]) / 0.0, ZeroDivisionError)):
        v, err = guarded(f)
        chk.trace()
        if not isinstance(err, ex):
            chk.violation(f"{name} gives {v!r}/{err!r} instead of {ex.__name__}", name)
    for s in ("", "I", "III"):
        for f in (Term.from_chars, term_from_chars):
            v, err = guarded(f, s)
            if err is not None or observe(v) != {frozenset(): 1}:
                chk.violation(f"from_chars({s!r}) gives {v!r}/{err!r}", s)


def work(a):
    h, seed, nq, ns = a
    return replay(h, random.Random(seed), nq, ns)


WCFG = "SPECIFICATION Spec\nCONSTANT NQ = %d\nINVARIANT Canonical Bounded\nCHECK_DEADLOCK FALSE\n"
CO = [(1, 0, 0), (-1, 0, 0), (3, 0, 1), (0, 1, 0), (1, -2, 1), (-5, 0, 2), (2, 3, 0), (1, 0, 3), (7, 0, 0), (0, -3, 2)]


def wide_cases(rng, nq, count):
    out = []
    for _ in range(count):
        shape = rng.choice(((70,), (150,), (300,), (12, 12), (20, 9), (1, 90), (90, 1), (5, 4, 5), (2, 2, 2, 2, 2), (35, 4)))
        pool = [[[rng.randint(1, 3), q] for q in rng.sample(range(nq), rng.randint(0, nq))] for _ in range(rng.choice((40, 90, 400)))]
        style = rng.choice((0, 0, 1))
        f = []
        for m in shape:
            terms = []
            for _ in range(m):
                r = rng.random()
                if r < 0.25 and len(terms) > 3:
                    t = rng.choice(terms)       # equal or cancelling, from long before
                    c = t["c"]
                    o = t["ops"][:]
                    rng.shuffle(o)
                    same = len({q for _, q in o}) == len(o)
                    terms.append({"c": [-c[0], -c[1], c[2]] if rng.random() < 0.6 else c, "ops": o if same else t["ops"]})
                    continue
                o = [x[:] for x in rng.choice(pool)]
                if style and rng.random() < 0.5:
                    o = [[3, q] for _, q in o]
                rng.shuffle(o)
                if rng.random() < 0.2:
                    o += [[rng.randint(1, 3), rng.randrange(nq)] for _ in range(rng.randint(1, 6))]
                c = rng.choice(CO[:2] + CO if len(shape) < 4 else CO[:4])
                terms.append({"c": list(c), "ops": o})
            f.append(terms)
        out.append({"f": f})
    # powers with larger exponents
    for _ in range(count // 2):
        n = rng.choice((4, 5, 6, 7, 8, 9))
        m = rng.choice((1, 1, 2, 2, 3) if n < 6 else (1, 2) if n < 8 else (1,))
        terms = []
        for _ in range(m):
            o = [[rng.randint(1, 3), q] for q in rng.sample(range(nq), rng.randint(0, min(nq, 3)))]
            rng.shuffle(o)
            if rng.random() < 0.3:
                o += [[rng.randint(1, 3), rng.randrange(nq)]]
            terms.append({"c": list(rng.choice(((1, 0, 0), (-1, 0, 0), (0, 1, 0), (1, 0, 1), (2, 0, 0), (0, -1, 1)))), "ops": o})
        out.append({"f": [terms] * n, "pow": n})
    return out


def wide(a):
    from blueqat.pauli import Term, Expr
    case, rec, seed, nq = a
    rng = random.Random(seed)
    qmap = sorted(rng.sample(range(3 * nq), nq)) if rng.random() < 0.4 else list(range(nq))
    num = lambda c: complex(c[0], c[1]) / 2 ** c[2] if c[1] or rng.random() < 0.2 else c[0] / 2 ** c[2]
    want = spec_map(rec, qmap)
    # scaling by powers of two is exact: every string of a sum, or every factor of a product,
    # gets a magnitude of its own
    scales = {}
    def scale(key):
        if spread:
            scales.setdefault(key, 2.0 ** rng.choice((0, 0, -30, 30, -43, -60, 60, -60)))
        return scales.get(key, 1.0)
    spread = "pow" not in case and rng.random() < 0.5
    def string(ops):
        d = {}
        for l, q in ops:
            d[qmap[q]] = d.get(qmap[q], 0) ^ l
        return frozenset((q, l) for q, l in d.items() if l)
    try:
        fs = []
        if len(case["f"]) == 1:
            want = {k: v * scale(k) for k, v in want.items()}
        else:
            m = 1.0
            for i in range(len(case["f"])):
                m *= scale(i)
            want = {k: v * m for k, v in want.items()}
        for i, f in enumerate(case["f"]):
            ts = [Term(tuple(pauli(l, qmap[q]) for l, q in t["ops"]), num(t["c"]) * (scale(string(t["ops"])) if len(case["f"]) == 1 else scale(i))) for t in f]
            r = rng.random()
            if r < 0.3:
                v = Expr(tuple(ts))
            elif r < 0.6:
                v = sum(ts[1:], ts[0].to_expr())
            elif r < 0.8:
                h = len(ts) // 2
                v = sum(ts[:h], 0 * ts[0]) + sum(ts[h:], 0 * ts[0])
            else:
                v = ts[0].to_expr()
                for t in ts[1:]:
                    v -= -t
            fs.append(v)
        st = [structure(v) for v in fs]
        r = rng.random()
        if "pow" in case:
            b = fs[0] if len(case["f"][0]) > 1 or rng.random() < 0.5 else Term(tuple(pauli(l, qmap[q]) for l, q in case["f"][0][0]["ops"]), num(case["f"][0][0]["c"]))
            v = b ** case["pow"] if rng.random() < 0.6 else b.simplify() ** case["pow"] if rng.random() < 0.5 else pow(b, case["pow"])
        elif r < 0.5:
            v = fs[0]
            for w in fs[1:]:
                v = v * w
        else:
            v = fs[-1]
            for w in fs[-2::-1]:
                v = w * v
        if len(fs) > 1 and "pow" not in case and rng.random() < 0.3:
            v = fs[0].simplify()
            for w in fs[1:]:
                v = (v * w.simplify()).simplify()
        what = f"power {case['pow']} of {fs[0]!r:.200}" if "pow" in case else f"product of {len(fs)} sums of {[len(f) for f in case['f']]} terms"
        got = observe(v)
        if got != want:
            bad = [k for k in set(got) | set(want) if got.get(k, 0) != want.get(k, 0)]
            return f"{what} is wrong for {sorted(bad[0])}: {got.get(bad[0], 0)}, specified {want.get(bad[0], 0)} ({len(bad)} wrong coefficients)"
        err = check_value(v.to_expr() if kind(v) == "term" else v, want, "expr", rng, what)
        if err:
            return err[:700] + " ... " + err[-800:] if len(err) > 1500 else err
        if [structure(v) for v in fs] != st:
            return f"{what}: operands changed"
        s = v.to_expr().simplify()
        if not spread and s.is_all_terms_commutable() != rec["tc"]:   # it neglects small commutators, as documented
            return f"{what}: is_all_terms_commutable() is {s.is_all_terms_commutable()}, specified {rec['tc']}"
        z = v - v.to_expr().simplify()
        if observe(z) or z != Expr.zero() or z.simplify().terms:
            return f"{what}: the difference from its simplified form is {z!r:.300}"
    except Exception as ex:
        import traceback
        return f"arithmetic on sums of {[len(f) for f in case['f']]} terms raised {ex!r}: {traceback.format_exc()[-400:]}"
    return None


def run(chk):
    import blueqat.pauli
    rng = chk.rng
    r = tlc("PauliLaws", LAWS % 2)
    chk.tlc_stats(r)
    errors(chk)
    for g in range(24 if THOROUGH else 6):
        nq, depth, ns = [(1, 30, 6), (2, 30, 6), (3, 30, 6), (3, 40, 7), (2, 40, 7), (4, 30, 6)][g % 6]
        r = tlc("PauliSM", CFG % (nq, depth, ns), simulate=500 if THOROUGH else 110, depth=4 * depth + 4, seed=rng.randrange(1, 10 ** 6), workers=1)
        chk.tlc_stats(r)
        errs = pmap(work, [(h, rng.randrange(2 ** 31), nq, ns) for h in r.records])
        for h, err in zip(r.records, errs):
            chk.trace()
            chk.count("steps", len(h))
            for e in h:
                chk.count("step_" + e["a"])
            if err:
                chk.violation(err, h)
    chk.sample(r.records[0][:6])
    for nq, count in ((3, 10), (6, 24), (11, 24), (40, 10)):
        cs = wide_cases(rng, nq, count * (6 if THOROUGH else 1))
        r = tlc("PauliWide", WCFG % nq, cs, timeout=600)
        chk.tlc_stats(r)
        recs = {x["id"]: x for x in r.records}
        if len(recs) != len(cs):
            raise MachineryError("missing results")
        items = [(c, recs[i + 1], rng.randrange(2 ** 31), nq) for i, c in enumerate(cs)]
        for it, err in zip(items, pmap(wide, items)):
            chk.trace()
            chk.count("large_operators")
            if err:
                chk.violation(err, it[0])
