"""C15: QUBO builders and conversions.  Qubo.tla gives the energy of every assignment for
histories of additions (and shows that the Ising and Pauli forms have these energies);
Separation.tla judges recorded n-body separations on every assignment."""
from qv import *
import numpy as np

CFG = "SPECIFICATION Spec\nINVARIANT QuadraticOK IsingOK PauliOK\nCHECK_DEADLOCK FALSE\n"
SEP = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def xs(n):
    return [[x >> i & 1 for i in range(n)] for x in range(2 ** n)]


def energies(q, bits):
    q = np.array(q, dtype=float)
    m = len(q)
    if q.shape != (m, m) or m > len(bits[0]):
        return None
    return [float(np.array(b[:m]) @ q @ np.array(b[:m])) for b in bits]


def rnum(rng):
    return rng.choice((0, 0, 4, -4, 8, -12, 2, -2, 1, -3, 20, 40, -6))


def gen_poly(rng, n, deg=2):
    """terms of the polynomial as [4*c, [vars...]] and a text for it"""
    style = rng.random()
    if style < 0.4:           # product of linear forms / square
        def lin():
            vs = rng.sample(range(n), rng.randint(1, min(3, n)))
            return [(rng.choice((1, 1, -1, 2, 3)), v) for v in vs], rng.choice((0, 0, 1, -1, -2))

        def show(l):
            return " + ".join([f"{c}*q{v}" for c, v in l[0]] + ([str(l[1])] if l[1] else []))
        a = lin()
        b = a if rng.random() < 0.6 else lin()
        terms = []
        la = [(c, [v]) for c, v in a[0]] + [(a[1], [])]
        lb = [(c, [v]) for c, v in b[0]] + [(b[1], [])]
        for c, v in la:
            for d, w in lb:
                if c * d:
                    terms.append([4 * c * d, v + w])
        text = f"({show(a)})" + (rng.choice(("**2", "^2", f"*({show(a)})")) if b is a else f"*({show(b)})")
        if rng.random() < 0.5:
            e = [rnum(rng) or 4, [rng.randrange(n)]]
            terms.append(e)
            text += f" + {e[0] / 4!r}*q{e[1][0]}"
        return terms, text
    terms, parts = [], []
    for _ in range(rng.randint(1, 6)):
        vs = [rng.randrange(n) for _ in range(rng.choice((0, 1, 1, 2, 2, 2)))]
        c = rnum(rng) or 4
        terms.append([c, vs])
        num = str(c // 4) if c % 4 == 0 else repr(c / 4)
        if c == 4 and vs and rng.random() < 0.7:
            num = ""
        parts.append("*".join(([num] if num else []) + [f"q{v}" for v in vs]))
    return terms, " + ".join(f"({p})" if p.startswith("-") else p for p in parts)


def has_vars(terms, text):
    """the polynomial depends on some variable after collecting"""
    acc = {}
    for c, v in terms:
        acc[tuple(sorted(set(v)))] = acc.get(tuple(sorted(set(v))), 0) + c
    return any(c for v, c in acc.items() if v), sorted({i for v, c in acc.items() if c for i in v})


KINDS = ("matrix", "poly", "sel", "sqr", "mul", "net", "diag", "zeros", "dbm")


def gen_op(rng, n, kinds=("matrix",) * 3 + ("poly",) * 3 + KINDS):
    k = rng.choice(kinds)
    o = {"k": k, "m": rng.choice((2, 2, 2, 4, -2, 1, -3, 20, 0))}
    if k == "matrix":
        m = rng.randint(1, n)
        tri = rng.random() < 0.6
        o["q"] = [[0 if tri and i > j else rnum(rng) for j in range(m)] for i in range(m)]
    elif k == "poly":
        for _ in range(50):
            o["t"], o["text"] = gen_poly(rng, n)
            if has_vars(o["t"], o["text"])[0]:
                break
        else:
            o["t"], o["text"] = [[4, [0]]], "q0"
    elif k == "sel":
        o["n"] = rng.randint(1, n)
        o["c"] = rng.randint(0, o["n"] + 1)
        o["l"] = [rng.randrange(o["n"]) for _ in range(rng.choice((0, 0, 1, 2, 4)))]
    elif k in ("sqr", "mul"):
        m = rng.randint(1, n)
        o["a"] = [rng.choice((0, 1, -1, 2, 3, -5, 7)) for _ in range(m)]
        o["b"] = [rng.choice((0, 1, -1, 2, 3, -5, 7)) for _ in range(m)]
    elif k == "net":
        o["n"] = rng.randint(1, n)
        o["e"] = [rng.sample(range(o["n"]), 2) for _ in range(rng.randint(0, 5))] if o["n"] > 1 else []
    elif k == "diag":
        o["a"] = [rnum(rng) for _ in range(rng.randint(1, n))]
    elif k == "zeros":
        o["n"] = rng.randint(1, n)
    elif k == "dbm":
        o["l"] = rng.choice([l for l in ([1], [2], [1, 1], [2, 1], [1, 2], [2, 2], [1, 1, 1], [1, 2, 1], [2, 1, 1], [3, 2], [1, 1, 1, 1], [2, 1, 2]) if sum(l) <= n])
        o["w"] = rng.choice((4, -4, 2, 6))
    return o


def nums(rng, v):
    """the numbers v/4 in some numeric type"""
    f = [x / 4 for x in v]
    if all(x == int(x) for x in f) and rng.random() < 0.6:
        f = [int(x) for x in f]
    return rng.choice((list, tuple, np.array))(f)


def build_matrix(rng, o, n):
    """(what, matrix the library builds, matrix without reference to what it was given)"""
    from blueqat import wq
    k = o["k"]
    if k == "matrix":
        q = [[x / 4 for x in r] for r in o["q"]]
        if all(x % 4 == 0 for r in o["q"] for x in r) and rng.random() < 0.5:
            q = [[x // 4 for x in r] for r in o["q"]]
        return f"{q}", rng.choice((lambda x: x, lambda x: np.array(x), lambda x: tuple(map(tuple, x))))(q)
    if k == "sel":
        arr = rng.choice((list, tuple, np.array))(o["l"]) if o["l"] else []
        if not o["l"] and rng.random() < 0.5:
            return f"sel({o['n']}, {o['c']})", wq.sel(o["n"], o["c"])
        return f"sel({o['n']}, {o['c']}, {o['l']})", wq.sel(o["n"], o["c"], arr)
    if k == "sqr":
        return f"sqr({o['a']})", wq.sqr(rng.choice((list, tuple, np.array))(o["a"]))
    if k == "mul":
        return f"mul({o['a']}, {o['b']})", wq.mul(rng.choice((list, tuple, np.array))(o["a"]), rng.choice((list, tuple, np.array))(o["b"]))
    if k == "net":
        e = [list(x) for x in o["e"]]
        e2 = rng.choice((lambda x: x, lambda x: [tuple(y) for y in x], lambda x: np.array(x) if x else x))(e)
        keep = [list(x) for x in e2]
        m = wq.net(e2, o["n"])
        assert [list(x) for x in e2] == keep, f"net changed its edges {keep} to {e2}"
        return f"net({o['e']}, {o['n']})", m
    if k == "diag":
        return f"diag({o['a']}/4)", wq.diag(list(nums(rng, o["a"])))
    if k == "zeros":
        return f"zeros({o['n']})", wq.zeros(o["n"])
    if k == "dbm":
        return f"dbms({o['l']}, {o['w'] / 4})", wq.dbms(o["l"], o["w"] / 4)
    text = o["text"]
    hv, vs = has_vars(o["t"], text)
    w = rng.choice(("add", "add", "optm", "qn", "optm_s", "qn_x"))
    if w == "add":
        return repr(text), text
    import sympy
    top = max(int(s[1:]) for s in map(str, sympy.sympify(text).free_symbols)) + 1
    if w == "optm":
        k = rng.randint(top, n)
        return f"optm({text!r}, {k})", wq.optm(text, k)
    qs = wq.make_qs(n)
    e = eval(text.replace("^", "**"), {f"q{i}": s for i, s in enumerate(qs)})
    if w == "optm_s":
        return f"optm({e}, {top})", wq.optm(e, top)
    if w == "qn":
        return f"qn_to_qubo({e})", wq.qn_to_qubo(e)
    x = wq.optx(text)
    p = sympy.Poly(x)
    if any(d > 1 for m in p.monoms() for d in m):
        raise AssertionError(f"optx({text!r}) = {x} still contains powers")
    return f"qn_to_qubo(optx({text!r}))", wq.qn_to_qubo(x)


def close(a, b, scale):
    return a is not None and len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1, scale) for x, y in zip(a, b))


def work(a):
    case, tabs, seed = a
    from blueqat import wq
    from blueqat.pauli import Expr
    warnings.simplefilter("ignore")
    rng = random.Random(seed)
    np.random.seed(seed & 0x7fffffff)
    n = case["n"]
    bits = case.get("xs") or xs(n)
    done = 0
    hist = []
    opt = wq.Opt()
    size = 0
    try:
        for j, o in enumerate(case["ops"]):
            what, m = build_matrix(rng, o, n)
            before = np.array(m, dtype=float).copy() if not isinstance(m, str) else m
            hist.append(f"{o['m'] / 2}*{what}")
            if not isinstance(m, str):
                # the contribution on its own
                one = [((t - (tabs[j - 1][x] if j else 0)) / 8) for x, t in enumerate(tabs[j])]
                if o["m"]:
                    one = [e / (o["m"] / 2) for e in one]
                    one = [e - one[0] for e in one]
                    done += 1
                    en = energies(m, bits)
                    if not close(en, one, max(map(abs, one))):
                        return f"{what} is {np.array(m).tolist()} with energies {en}, specified {one}", done
            M = o["m"] / 2
            M = int(M) if M == int(M) and rng.random() < 0.6 else M
            r = opt.add(m) if M == 1 and rng.random() < 0.7 else opt.add(m, M)
            if r is not opt:
                return f"add returns {r!r} and cannot be chained", done
            want = [t / 8 for t in tabs[j]]
            want = [t - want[0] for t in want]
            scale = max(map(abs, want))
            en = energies(opt.qubo, bits)
            done += 1
            if not close(en, want, scale):
                return f"Opt after adding {hist} has QUBO {np.array(opt.qubo).tolist()} with energies {en}, specified {want}", done
            if not isinstance(m, str) and not np.array_equal(np.array(m, dtype=float), before):
                return f"add({what}) changed its argument", done
            Q = np.array(opt.qubo, dtype=float)
            k = len(Q)
            if n > 40 and j + 1 < len(case["ops"]):
                continue
            # the Pauli Hamiltonian
            form = rng.choice((lambda q: q, lambda q: q.tolist(), lambda q: np.triu(q) + np.triu(q.T, 1)))
            given = form(Q.copy())
            keep = np.array(given).copy()
            if k <= 70:         # quadratically slow in the number of terms
                h = wq.pauli(given)
                done += 1
                if not isinstance(h, Expr) and k:
                    h = h.to_expr()
                vals = []
                for b in bits:
                    v = 0
                    for t in h.terms:
                        s = 1
                        for op in t.ops:
                            if op.op not in "IZ":
                                return f"pauli({Q.tolist()}) = {h!r} is not diagonal", done
                            if op.op == "Z" and b[op.n]:
                                s = -s
                        v += s * t.coeff
                    vals.append(v)
                if not close(vals, want, scale):
                    return f"pauli({np.array(given).tolist()}) = {h!r} has eigenvalues {vals}, specified {want}", done
            # the Ising form of an upper-triangular matrix
            tri = np.triu(Q) + np.triu(Q.T, 1)
            o2 = wq.Opt()
            o2.qubo = rng.choice((lambda q: q, lambda q: q.tolist()))(tri.copy())
            o2.qi()
            done += 1
            sp = [[2 * v - 1 for v in b[:k]] for b in bits]
            ing = [float(wq.Ei(np.array(s), o2.J) + o2.ep) for s in sp]
            if not close(ing, want, scale):
                return f"the Ising form of {tri.tolist()} (J = {np.array(o2.J).tolist()}, offset {o2.ep}) has energies {ing}, specified {want}", done
            J2 = o2.reJ()
            ing = [float(sum(J2[i][i] * s[i] for i in range(k)) + sum(J2[i][l] * s[i] * s[l] for i in range(k) for l in range(k) if i != l) / 2 + o2.ep) for s in sp]
            if not close(ing, want, scale):
                return f"reJ() of {tri.tolist()} is {J2.tolist()}: not the symmetric Ising matrix", done
            if not np.array_equal(np.array(o2.qubo), tri) or not np.array_equal(np.array(given), keep):
                return f"a conversion changed the QUBO {tri.tolist()}", done
    except AssertionError as ex:
        return f"{ex} in {hist}", done
    except MachineryError:
        raise
    except Exception as ex:
        import traceback
        return f"{ex!r} at {traceback.extract_tb(ex.__traceback__)[-1][:3]} after {hist} then {case['ops'][min(len(case['ops']) - 1, len(hist))]}", done
    return None, done


def separation(chk, rng):
    import sympy
    from blueqat import wq
    data, what = [], []
    for k in range(600 if THOROUGH else 130):
        nx = rng.randint(2, 5)
        terms = {}
        if k % 2:       # products that share pairs, so that replacements are used again
            nx = rng.randint(4, 6)
            a, b, *rest = rng.sample(range(nx), nx)
            for _ in range(rng.randint(2, 3)):
                terms[tuple(sorted([a, b] + rng.sample(rest, rng.randint(1, 2))))] = rng.choice((1, -1, 2, -3, 5))
        for _ in range(rng.randint(2, 5) if k % 2 == 0 else rng.randint(0, 2)):
            vs = tuple(sorted(rng.sample(range(nx), rng.randint(0, nx if k % 2 == 0 else 2) if rng.random() < 0.8 else min(nx, 4))))
            terms[vs] = terms.get(vs, 0) + rng.choice((1, 1, -1, 2, -3, 5))
        terms = {v: c for v, c in terms.items() if c}
        if len(terms) < 2 or sum(max(0, len(v) - 2) for v in terms) > 7:
            continue
        qs = wq.make_qs(nx)
        aux = wq.make_qs(nx, nx + 9)
        if [str(s) for s in qs + aux] != [f"q{i}" for i in range(nx + 9)]:
            chk.violation(f"make_qs gives {qs} and {aux}", [nx])
            return
        e = sum(c * sympy.Mul(*[qs[i] for i in v]) for v, c in terms.items())
        if type(e) != sympy.Add:
            continue
        res, err = guarded(wq.nbody_separation, e, aux)
        chk.trace()
        if err is not None:
            chk.violation(f"nbody_separation({e}) raised {err!r}", str(e))
            continue
        new, con, mapping = res
        index = lambda s: int(str(s)[1:])
        na = len(mapping)
        used = sorted(index(v) for v in mapping.values())
        if used != list(range(nx, nx + na)):
            chk.violation(f"nbody_separation({e}) uses the supplementary variables {used}", str(e))
            continue
        mp = {index(v): [index(a), index(b)] for (a, b), v in mapping.items()}

        index_of = {s for s in qs + aux} | {1}

        def poly(x):
            x = sympy.expand(x)
            out = []
            for t in sympy.Add.make_args(x):
                c, r = t.as_coeff_Mul()
                if not c or not t:
                    continue
                vs = []
                for b, p in r.as_powers_dict().items():
                    if b not in index_of:
                        raise MachineryError(f'{b!r} in {x}')
                    if b != 1:
                        vs.append(index(b))
                out.append([int(c), vs])
            return out
        data.append({"nx": nx, "na": na, "e": poly(e), "s": poly(new), "c": poly(con), "map": [mp[i] for i in range(nx, nx + na)]})
        what.append(f"nbody_separation({e}) = {new}, {con}, {mapping}")
    r = tlc("Separation", SEP, data, timeout=600)
    chk.tlc_stats(r)
    if len(r.records) != len(data):
        raise MachineryError("missing separation verdicts")
    for x in r.records:
        if x["bad"]:
            chk.violation(f"{what[x['id'] - 1]}: {x['bad']} at assignment {x['x']:b}", data[x["id"] - 1])
    chk.count("separations", len(data))
    chk.sample(what[0])


def misc(chk, rng):
    from blueqat import wq
    for n in range(1, 6):
        if [str(s) for s in wq.make_qs(n)] != [f"q{i}" for i in range(n)] or not isinstance(wq.make_qs(n), tuple):
            chk.violation(f"make_qs({n}) is {wq.make_qs(n)!r}", [n])
        for m in range(n + 1, 7):
            if [str(s) for s in wq.make_qs(n, m)] != [f"q{i}" for i in range(n, m)] or not isinstance(wq.make_qs(n, m), tuple):
                chk.violation(f"make_qs({n}, {m}) is {wq.make_qs(n, m)!r}", [n, m])
        r = wq.rands(n)
        if np.shape(r) != (n, n) or np.any(np.tril(r, -1)) or np.any(r < 0) or np.any(r > 1):
            chk.violation(f"rands({n}) is {r}", [n])
    chk.trace(25)


def big_cases(rng, count):
    """large problems, judged on some assignments"""
    out = []
    for k in range(count):
        n = (9, 17, 33, 70, 129, 150)[k % 6] if k % 6 < 4 or k % 12 == 4 else rng.randint(65, 128)
        ops = []
        for _ in range(rng.choice((1, 2, 3))):
            o = gen_op(rng, rng.choice((3, 4, 5)), KINDS + ("sel",))
            if o["k"] in ("sel", "net", "zeros"):
                o["n"] = rng.choice((n, n - 1, n // 2 + 1))
            if o["k"] == "sel":
                o["c"] = rng.choice((1, 2, o["n"] // 2, o["n"], o["n"] - 1, 64, 65, 70, 100, 128))
                o["l"] = [rng.randrange(o["n"]) for _ in range(rng.choice((0, 1, 3, o["n"] // 2)))]
            if o["k"] == "net":
                o["e"] = [rng.sample(range(o["n"]), 2) for _ in range(rng.choice((3, 20, 60)))]
            if o["k"] in ("sqr", "mul"):
                m = rng.choice((n, n - 2))
                o["a"] = [rng.choice((0, 1, -1, 2, 3, -5, 7)) for _ in range(m)]
                o["b"] = [rng.choice((0, 1, -1, 2, 3, -5, 7)) for _ in range(m)]
            if o["k"] == "diag":
                o["a"] = [rnum(rng) for _ in range(n)]
            if o["k"] == "matrix":
                m = rng.choice((n, n, n - 3))
                o["q"] = [[rnum(rng) if i <= j and rng.random() < 0.2 else 0 for j in range(m)] for i in range(m)]
            if o["k"] == "dbm":
                o["l"] = rng.choice(([n - 4, 4], [n // 3, n // 3, n // 3], [1] * n if n < 40 else [n - 3, 1, 2], [4, n - 8, 2]))
            if o["k"] == "poly":
                hi = [0, n - 1, n - 2, n // 2, 9, 8]
                o["t"] = [[rnum(rng) or 4, rng.sample(sorted({q for q in hi if q < n}), rng.choice((1, 2)))] for _ in range(5)]
                o["text"] = " + ".join(f"({c / 4!r})*" + "*".join(f"q{v}" for v in vs) for c, vs in o["t"])
                if not has_vars(o["t"], o["text"])[0]:
                    continue
            ops.append(o)
        if not ops:
            continue
        e = lambda *on: [int(i in on) for i in range(n)]
        bits = [[0] * n, [1] * n, e(0), e(n - 1), e(0, n - 1), e(n - 2, n // 2)] + [[int(rng.random() < p) for _ in range(n)] for p in (0.05, 0.1, 0.3, 0.5, 0.5, 0.8, 0.95)]
        out.append({"n": n, "ops": ops, "xs": bits})
    return out


def run(chk):
    rng = chk.rng
    cases = []
    for _ in range(1500 if THOROUGH else 260):
        n = rng.choice((1, 2, 3, 3, 4, 4, 5))
        cases.append({"n": n, "ops": [gen_op(rng, n) for _ in range(rng.choice((1, 1, 2, 3, 4)))]})
    small = len(cases)
    cases += big_cases(rng, 240 if THOROUGH else 30)
    data = [{**{k: c[k] for k in ("n", "xs") if k in c}, "ops": [{k: v for k, v in o.items() if k != "text"} for o in c["ops"]]} for c in cases]
    tabs = {}
    for part, off, big in ((data[:small], 0, "0"), (data[small:], small, "1")):
        r = tlc("Qubo", CFG, part, timeout=700, env={"BIG": big})
        chk.tlc_stats(r)
        for x in r.records:
            tabs[off + x["id"], x["j"]] = x["tab"]
    items = []
    for i, c in enumerate(cases):
        for rep in range(1 if c["n"] > 9 else 3):
            items.append((c, [tabs[i + 1, j + 1] for j in range(len(c["ops"]))], rng.randrange(2 ** 31)))
    for it, (err, done) in zip(items, pmap(work, items)):
        chk.trace(done)
        if err:
            chk.violation(err, it[0])
    separation(chk, rng)
    misc(chk, rng)
    chk.count("histories", len(cases))
    for c in cases[:4]:
        chk.sample(c)
