"""C11: Pauli matrices.  PauliMat.tla multiplies out written-out (unsimplified) terms and
writes the exact matrix; the library's matrix in every format has to be the same."""
import scipy.sparse
from qv import *
from pauliobs import *

FMTS = (None, "bsr", "coo", "csc", "csr", "dia", "dok", "lil")
CFG = "SPECIFICATION Spec\nCONSTANT NQ = %d\nINVARIANT HermOK\nCHECK_DEADLOCK FALSE\n"
COEFFS = [(1, 0, 0), (-1, 0, 0), (3, 0, 1), (0, 1, 0), (1, -2, 1), (-5, 0, 2), (2, 3, 0), (0, -3, 2), (1, 0, 3)]


def cases(rng, nq, count, small=False):
    import itertools
    out = []
    if small:
        for s in itertools.product(range(4), repeat=nq):
            ops = [[l, q] for q, l in enumerate(s) if l]
            rng.shuffle(ops)
            out.append({"t": [{"c": list(rng.choice(COEFFS)), "ops": ops}]})
        out.append({"t": []})
        out.append({"t": [{"c": [0, 0, 0], "ops": [[1, 0]]}]})
    for _ in range(count):
        terms = []
        for _ in range(rng.choice((1, 1, 2, 3, 4, 6, 9))):
            k = rng.choice((0, 1, 2, 2, 3, 4, 5))
            ops = [[rng.randint(1, 3), rng.randrange(nq)] for _ in range(k)]
            terms.append({"c": list(rng.choice(COEFFS)), "ops": ops})
            if rng.random() < 0.15:
                # a cancelling or equal term written differently
                c = terms[-1]["c"]
                terms.append({"c": [-c[0], -c[1], c[2]] if rng.random() < 0.6 else c, "ops": ops[:]})
        rng.shuffle(terms)
        out.append({"t": terms})
    return out


def objects(rng, case, m):
    """library objects for the case: as written, through the operators, simplified"""
    from blueqat.pauli import Term, Expr
    num = lambda c: complex(c[0], c[1]) / 2 ** c[2] if c[1] or rng.random() < 0.2 else c[0] / 2 ** c[2]
    terms = [Term(tuple(pauli(l, q) for l, q in t["ops"]), num(t["c"])) for t in case["t"]]
    out = [("Expr", Expr(tuple(terms)))]
    if terms:
        v = None
        for t in terms:
            v = t if v is None else v + t
        out.append(("sum", v))
        out.append(("simplified", v.simplify()))
    if len(terms) == 1:
        out.append(("Term", terms[0]))
        out.append(("to_expr", terms[0].to_expr()))
        ops = case["t"][0]["ops"]
        if len(ops) == 1 and num(case["t"][0]["c"]) == 1:
            out.append(("pauli", pauli(*ops[0])))
        if not ops and num(case["t"][0]["c"]) == 1:
            out.append(("pauli", pauli(0, 0)))
    return out


def work(a):
    case, rec, nq, seed, allf = a
    rng = random.Random(seed)
    dim = 2 ** nq
    big = np.zeros((dim, dim), dtype=complex)
    for r, row in enumerate(rec["rows"]):
        for c, re, im in row:
            big[r, c] = complex(re, im) / 2 ** rec["e"]
    need = max([q + 1 for s, _, _ in rec["m"] for q, l in enumerate(s) if l], default=0)
    done = 0
    try:
        for name, v in objects(rng, case, rec):
            st = structure(v)
            nat = v.n_qubits
            if nat < need:
                return f"{name} {v!r}.n_qubits is {nat}", done
            ns = [-1] + ([n for n in range(max(need, 1), nq + 1)] if allf else [rng.randint(max(need, 1), nq)]) + ([nq + 2] if rng.random() < 0.3 else []) + ([0] if need == 0 else [])
            for n in ns:
                for fmt_ in (FMTS if allf or rng.random() < 0.3 else rng.sample(FMTS, 3)):
                    if n == -1 and rng.random() < 0.3:
                        m = v.to_matrix(sparse=fmt_)
                    else:
                        m = v.to_matrix(n, sparse=fmt_) if rng.random() < 0.5 else v.to_matrix(n_qubits=n, sparse=fmt_)
                    done += 1
                    k = nat if n == -1 else n
                    what = f"{name} {v!r}.to_matrix({n}, sparse={fmt_!r})"
                    if fmt_ is None:
                        if not isinstance(m, np.ndarray):
                            return f"{what} is a {type(m)}", done
                        arr = m
                    else:
                        if not scipy.sparse.issparse(m) or m.format != fmt_:
                            return f"{what} is a {type(m)}", done
                        arr = m.toarray()
                    if arr.shape != (2 ** k, 2 ** k):
                        return f"{what} has shape {arr.shape}", done
                    want = big[:2 ** k, :2 ** k] if k <= nq else np.kron(np.eye(2 ** (k - nq)), big)
                    if np.max(np.abs(arr - want)) > 1e-12:
                        return f"{what} is wrong:\n{arr}\nspecified\n{want}", done
                    if fmt_ is None:
                        arr[:] = 7
                    elif hasattr(m, "data") and isinstance(m.data, np.ndarray) and m.data.dtype != object:
                        m.data[:] = 7
            if structure(v) != st:
                return f"to_matrix changed {st} to {structure(v)}", done
    except Exception as ex:
        return f"to_matrix of {case} raised {ex!r}", done
    return None, done


def tall(a):
    """a matrix on many qubits, compared in the rows of the specification"""
    case, rec, nq, n, seed = a
    rng = random.Random(seed)
    try:
        for name, v in objects(rng, case, rec):
            st = structure(v)
            for fmt_ in rng.sample(("csr", "csc", "coo", "bsr", "lil", "dok", "dia") if n < 12 and len(case["t"]) < 4 else ("csr", "csc", "coo"), 2):
                m = v.to_matrix(n, sparse=fmt_)
                what = f"{name} {v!r:.300}.to_matrix({n}, sparse={fmt_!r})"
                if m.format != fmt_ or m.shape != (2 ** n, 2 ** n):
                    return f"{what} is {m.format} of shape {m.shape}"
                m = m.tocsr()
                total = sum(abs(complex(re, im)) ** 2 for _, re, im in rec["m"]) / 4 ** rec["e"] * 2 ** n
                if abs(abs(m.multiply(m.conj()).sum()) - total) > 1e-9 * max(1, total):
                    return f"{what}: the squared entries add up to {abs(m.multiply(m.conj()).sum())}, specified {total}"
                for r, row in zip(case["rows"], rec["rows"]):
                    for hi in ({0, (2 ** (n - nq) - 1) << nq} if n > nq else {0}):
                        got = m.getrow(r + hi)
                        g = {int(c): x for c, x in zip(got.indices, got.data) if x != 0}
                        w = {c + hi: complex(re, im) / 2 ** rec["e"] for c, re, im in row}
                        if set(g) != set(w) or any(abs(g[c] - w[c]) > 1e-12 for c in w):
                            return f"{what}: row {r + hi} is {g}, specified {w}"
            if structure(v) != st:
                return f"to_matrix changed {st} to {structure(v)}"
    except Exception as ex:
        return f"to_matrix of {case} on {n} qubits raised {ex!r}"
    return None


def tall_part(chk, rng):
    for nq, ns, count in ((10, (10, 11, 12), 8), (14, (14, 15, 16, 17), 12), (17, (17, 18), 3)):
        cs = cases(rng, nq, count * (5 if THOROUGH else 1))
        # one term for each qubit
        own = [{"t": [{"c": list(rng.choice(COEFFS)), "ops": [[rng.choice(ls), q]] + [[3, p] for p in rng.sample(range(nq), rng.choice((0, 0, 2))) if p != q]} for q in rng.sample(range(nq), nq)]}
               for ls in ((1,), (2,), (1, 2, 3))]
        for c in cs:
            for t in c["t"]:
                if rng.random() < 0.6:
                    t["ops"] += [[rng.randint(1, 3), q] for q in rng.sample(range(nq), rng.randint(1, nq))]
        cs += own
        for c in cs:
            c["rows"] = sorted({0, 2 ** nq - 1, *(rng.randrange(2 ** nq) for _ in range(5))})
        r = tlc("PauliMat", CFG % nq, cs)
        chk.tlc_stats(r)
        recs = {x["id"]: x for x in r.records}
        items = [(c, recs[i + 1], nq, rng.choice(ns), rng.randrange(2 ** 31)) for i, c in enumerate(cs)]
        for it, err in zip(items, pmap(tall, items)):
            chk.trace()
            chk.count("many_qubits")
            if err:
                chk.violation(err, it[0])


def run(chk):
    rng = chk.rng
    from blueqat.pauli import X, Y, Z, I
    for P, m in ((X, [[0, 1], [1, 0]]), (Y, [[0, -1j], [1j, 0]]), (Z, [[1, 0], [0, -1]])):
        for v in (P, P[0], P[3], P):
            a = np.array(v.matrix)
            if not np.array_equal(a, m):
                chk.violation(f"{v!r}.matrix is {a}", repr(v))
            b = v.matrix
            b[:] = 5
            chk.trace()
    if not np.array_equal(I.matrix, np.eye(2)) or not np.array_equal(I.to_matrix(), [[1]]):
        chk.violation(f"matrix of I is {I.matrix}", "I")
    for bad in ("dense", "CSR", "", 1, "array"):
        for v in (X[0], X[0] * Y[1], X[0] + 1):
            r, err = guarded(lambda: v.to_matrix(sparse=bad))
            if not isinstance(err, ValueError):
                chk.violation(f"{v!r}.to_matrix(sparse={bad!r}) gives {r!r}/{err!r} instead of ValueError", bad)
    tall_part(chk, rng)
    k = 8 if THOROUGH else 1
    # many terms, more qubits
    def many(rng, nq, count):
        out = cases(rng, nq, count)
        for c in out:
            for _ in range(rng.choice((5, 25, 60))):
                c["t"].append({"c": list(rng.choice(COEFFS)), "ops": [[rng.randint(1, 3), q] for q in rng.sample(range(nq), rng.randint(0, nq))]})
            rng.shuffle(c["t"])
        return out
    for nq, count, small in ((1, 30, True), (2, 90 * k, True), (3, 110 * k, True), (4, 60 * k, False), (6, 30 * k, False), (7, 8 * k, False), (3, -12 * k, False), (5, -8 * k, False), (9, 4 * k, False)):
        cs = cases(rng, nq, count, small) if count > 0 else many(rng, nq, -count)
        r = tlc("PauliMat", CFG % nq, cs)
        chk.tlc_stats(r)
        recs = {x["id"]: x for x in r.records}
        if len(recs) != len(cs):
            raise MachineryError("missing results")
        items = [(c, recs[i + 1], nq, rng.randrange(2 ** 31), small or i % 5 == 0) for i, c in enumerate(cs)]
        for it, (err, done) in zip(items, pmap(work, items)):
            chk.trace(done)
            if err:
                chk.violation(err, it[0])
        chk.sample(cs[-1])
        chk.count("operators", len(cs))
