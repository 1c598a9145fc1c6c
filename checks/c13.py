"""C13: expectation values.  Expect.tla computes <P> and marginal distributions of
symbolic circuits exactly (and proves the sampling scheme for each of them); the
library's energies, marginals and samplers have to agree."""
from qv import *
from unitary import *
from pauliobs import *
from stochastic import *
from history import fingerprint

CFG = "SPECIFICATION Spec\nINVARIANT RealOK MargOK SamplingOK\nCHECK_DEADLOCK FALSE\n"
COEF = [1, -1, 0.5, -2.25, 3, 1.5, -0.75, 2 - 1j, 0.5j, -1 + 0.25j]


def cases(rng):
    out = []
    for _ in range(500 if THOROUGH else 110):
        n = rng.choice((1, 2, 2, 3, 3, 4))
        g = Gen(rng, n, max_split=5)
        g.budget = [44] * NSYM
        r = rng.random()
        if r < 0.5:
            ops = [{"g": "u3", "p": [((4 if i == 0 else 0, 0, 0), 1 + i), ((0, 4 if i == 0 else 0, 0), i), ((0, 0, 0), 2 * i + 1)], "t": T_int(i)} for i in range(n)]
            g.split = 2 * n
            g.budget = [24] * NSYM
            ops += [{"g": "cx", "p": [], "t": T_tup(T_int(i), T_int(i + 1))} for i in range(n - 1)] + g.ops(rng.randint(0, 3))
        else:
            ops = g.ops(rng.randint(1, 9))
        ops.append({"g": "i", "p": [], "t": T_int(n - 1)})
        strings = []
        for _ in range(rng.randint(1, 5)):
            qs = rng.sample(range(n), rng.randint(0, n))
            s = sorted((q, rng.randint(1, 3)) for q in qs)
            if s not in strings:
                strings.append(s)
        if all(not s or s[-1][0] < n - 1 for s in strings):
            strings.append([(n - 1, rng.randint(1, 3))])
        meas = [rng.sample(range(n), rng.randint(0, n)) for _ in range(3)]
        meas.append(list(range(n)))
        meas.append(list(range(n))[::-1])
        if rng.random() < 0.3:
            meas[0] = [rng.randrange(n) for _ in range(2)]
        out.append({"n": n, "ops": ops, "strings": strings, "coef": [rng.choice(COEF) for _ in strings], "meas": meas})
    return out


def make(vals, a):
    from blueqat.vqe import AnsatzBase

    class A(AnsatzBase):
        def __init__(self, h, circ):
            super().__init__(h, 1)
            self.circ = circ

        def get_circuit(self, params):
            return self.circ.copy()
    return A(*a)


def work(a):
    case, rec, vals, seed = a
    from blueqat import Circuit, vqe
    from blueqat.pauli import Expr
    warnings.simplefilter("ignore")
    seed_all(seed)
    rng = random.Random(seed)
    n = case["n"]
    f = 2.0 ** -rec["s"]
    exps = [poly_eval(p, vals).real * f for p in rec["ex"]]
    E = sum(complex(c) * e for c, e in zip(case["coef"], exps)).real
    h = alt_expr(rng, {frozenset(s): complex(c) for s, c in zip(case["strings"], case["coef"])}, n)
    if rng.random() < 0.3:
        h = h.simplify()
    name = f"{short_prog(case)} at {vals.v}, H = {h!r}"
    done = 0
    try:
        c = build(case, vals)
        st, fp = structure(h), fingerprint(c)
        tol = 1e-8 * max(1, sum(map(abs, case["coef"])))
        an = make(vals, (h, c))

        def energy(what, v):
            nonlocal done
            done += 1
            if isinstance(v, complex) or not np.isscalar(v) or abs(v - E) > tol:
                return f"{what} is {v!r}, specified {E!r}, for {name}"
            if fingerprint(c) != fp or structure(h) != st:
                return f"{what} changed the circuit or the Hamiltonian, for {name}"
        e = energy("get_energy(non_sampling_sampler)", an.get_energy(c, vqe.non_sampling_sampler))
        if e:
            return e, done
        e = energy("objective with sampler", an.get_objective(vqe.non_sampling_sampler)([0.1]))
        if e:
            return e, done
        if an.n_qubits == c.n_qubits:
            ways = [(fmt, lambda fmt=fmt: an.make_sparse(fmt)) for fmt in rng.sample(("csc", "csr", "coo", "bsr", "dia", "lil", "dok"), 2)]
            ways.append(("default", an.make_sparse))
            ways.append(("make_method", lambda: an.make_sparse(make_method=lambda H: H.to_matrix(an.n_qubits, sparse="csr"))))
            for w, mk in ways:
                mk()
                e = energy(f"get_energy_sparse ({w})", an.get_energy_sparse(c))
                if e:
                    return e, done
            e = energy("objective", make(vals, (h, c)).get_objective()([0.3])) or energy("objective after make_sparse", an.get_objective()([0.3]))
            if e:
                return e, done
            v = c.run()
            m = h.to_matrix(sparse="csr")
            if m.shape[0] == len(v):
                e = energy("sparse_expectation", vqe.sparse_expectation(m, v))
                if e:
                    return e, done
        # marginals
        N = 2000
        for ms, mg in zip(case["meas"], rec["mg"]):
            want = {tuple(k): poly_eval(p, vals).real * f for k, p in mg} if ms else {(): 1.0}
            want = {k: p for k, p in want.items() if p > 1e-13}
            arg = lambda: rng.choice((list, tuple, iter, lambda m: (q for q in m)))(ms)
            for what, got in (("expect", vqe.expect(c.run(), arg())), ("non_sampling_sampler", vqe.non_sampling_sampler(c, arg()))):
                done += 1
                got = dict(got)
                if any(not isinstance(k, tuple) or len(k) != len(ms) for k in got) or \
                        any(abs(got.get(k, 0) - want.get(k, 0)) > 1e-9 for k in set(got) | set(want)):
                    return f"{what}({ms}) is {got}, specified {want}, for {name}", done
            if len(set(ms)) < len(ms):
                continue
            opts = rng.choice((None, None, {"backend": "numpy"}))
            for what, s in (("get_measurement_sampler", vqe.get_measurement_sampler(N) if opts is None else vqe.get_measurement_sampler(N, opts)), ("get_state_vector_sampler", vqe.get_state_vector_sampler(N))):
                if what[4] == "m" and rng.random() < 0.6:
                    continue
                got = dict(s(c, arg()))
                done += 1
                if abs(sum(got.values()) - 1) > 1e-9 or any(not isinstance(k, tuple) or len(k) != len(ms) for k in got):
                    return f"{what}({N})(c, {ms}) is {got}: frequencies don't sum to one, for {name}", done
                cnt = {k: int(round(v * N)) for k, v in got.items()}
                if any(abs(v * N - cnt[k]) > 1e-6 for k, v in got.items()):
                    return f"{what}({N})(c, {ms}) is {got}: not frequencies of {N} samples, for {name}", done
                e = bad_counts(cnt, want, N)
                if e:
                    return f"{what}({N})(c, {ms}): {e}; distribution {want}, for {name}", done
                if fingerprint(c) != fp:
                    return f"{what} changed the circuit, for {name}", done
            if dist(c.run(), c.copy(copy_backends=False).run()) > 1e-12:
                return f"a sampler changed the results of the circuit, for {name}", done
        # a sampled energy lies where the exact distribution puts it
        if rng.random() < 0.3:
            ns = 400
            v = an.get_energy(c, vqe.get_measurement_sampler(ns) if rng.random() < 0.3 else vqe.get_state_vector_sampler(ns))
            hs = h.simplify()
            sd = math.sqrt(sum(abs(t.coeff.real) ** 2 for t in hs.terms) / ns)
            done += 1
            if abs(v - E) > 8 * sd * math.sqrt(max(1, len(hs.terms))) + 1e-9:
                return f"sampled energy {v} is far from {E} (sd {sd}) for {name}", done
    except MachineryError:
        raise
    except Exception as ex:
        return f"{ex!r} for {name}", done
    return None, done


def qiskit_part(chk, items, rng, limit):
    try:
        from qiskit_aer import AerSimulator
        backend = AerSimulator()
    except Exception:
        try:
            from qiskit import Aer
            backend = Aer.get_backend("qasm_simulator")
        except Exception:
            chk.assumptions.append("qiskit is not available; its sampler was not exercised")
            return
    from blueqat import vqe
    for case, rec, vals, seed in items:
        if limit <= 0:
            break
        if has_gate(case, ("cu2", "cu3", "ccz")):
            continue
        limit -= 1
        f = 2.0 ** -rec["s"]
        c = build(case, vals)
        fp = fingerprint(c)
        N = 1500
        sampler = vqe.get_qiskit_sampler(backend, shots=N)
        for ms, mg in list(zip(case["meas"], rec["mg"]))[:3]:
            if len(set(ms)) < len(ms):
                continue
            want = {tuple(k): poly_eval(p, vals).real * f for k, p in mg} if ms else {(): 1.0}
            want = {k: p for k, p in want.items() if p > 1e-13}
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got, err = guarded(lambda: dict(sampler(c, iter(ms))))
            chk.trace()
            if err is not None or abs(sum(got.values()) - 1) > 1e-9 or bad_counts({k: int(round(v * N)) for k, v in got.items()}, want, N) or fingerprint(c) != fp:
                chk.violation(f"qiskit sampler of {ms}: {got} {err!r}, specified {want}, for {short_prog(case)} at {vals.v}", case)


MCFG = "SPECIFICATION Spec\nINVARIANT Total\nCHECK_DEADLOCK FALSE\n"


def marg_cases(rng):
    out = []
    for _ in range(160 if THOROUGH else 40):
        n = rng.choice((1, 3, 5, 6, 7, 8))
        xs = range(2 ** n) if rng.random() < 0.5 else rng.sample(range(2 ** n), rng.randint(1, 2 ** n))
        amps = [[x, rng.randint(-9, 9), rng.randint(-9, 9)] for x in xs]
        if rng.random() < 0.3:      # one rare outcome
            amps[0][1:] = [1, 0]
            amps[-1][1:] = [300, 100]
        if not any(a or b for _, a, b in amps):
            amps[0][1] = 1
        rng.shuffle(amps)
        meas = [rng.sample(range(n), rng.randint(0, n)) for _ in range(3)] + [list(range(n)), [rng.randrange(n) for _ in range(rng.randint(1, n + 2))]]
        out.append({"n": n, "amps": amps, "meas": meas})
    return out


def marg_work(a):
    from blueqat import vqe, Circuit
    import scipy.sparse
    case, rec, seed = a
    rng = random.Random(seed)
    seed_all(seed)
    n = case["n"]
    v = np.zeros(2 ** n, dtype=complex)
    for x, re, im in case["amps"]:
        v[x] = complex(re, im)
    v /= math.sqrt(rec["total"])
    if rng.random() < 0.2:
        v = np.ascontiguousarray(v[::-1])[::-1]     # a view
    keep = v.copy()
    try:
        for ms, mg in zip(case["meas"], rec["mg"]):
            want = {tuple(k): w / rec["total"] for k, w in mg if w}
            got = dict(vqe.expect(v, rng.choice((list, tuple, iter))(ms)))
            if set(k for k, p in got.items() if p) != set(want) or any(abs(got[k] - p) > 1e-12 + 1e-9 * p for k, p in want.items()):
                return f"expect of a {n}-qubit vector for {ms} is {got!s:.400}, specified {want!s:.400}"
            if len(ms) == len(set(ms)):
                N = 3000
                # the vector as the initial state of a circuit
                c = Circuit(n).i[n - 1]
                cnt = {}
                s = vqe.get_state_vector_sampler(N)(Vec(c, v), iter(ms))
                cnt = {k: int(round(p * N)) for k, p in s.items()}
                e = bad_counts({k: x for k, x in cnt.items() if x}, want, N)
                if e or abs(sum(s.values()) - 1) > 1e-9:
                    return f"state vector sampler of a {n}-qubit vector for {ms}: {e}"
        if not np.array_equal(v, keep):
            return f"expect changed the vector it was given ({n} qubits)"
    except Exception as ex:
        return f"marginals of a {n}-qubit vector: {ex!r}"
    return None


class Vec:
    """a circuit whose run yields a given vector"""
    def __init__(self, c, v):
        self.c, self.v, self.n_qubits = c, v, c.n_qubits

    def run(self, *a, **kw):
        return self.v.copy()

    def copy(self, *a, **kw):
        return self


def marginals(chk, rng):
    cs = marg_cases(rng)
    r = tlc("MargTable", MCFG, cs, timeout=300)
    chk.tlc_stats(r)
    recs = {x["id"]: x for x in r.records}
    if len(recs) != len(cs):
        raise MachineryError("missing results")
    items = [(c, recs[i + 1], rng.randrange(2 ** 31)) for i, c in enumerate(cs)]
    for it, err in zip(items, pmap(marg_work, items)):
        chk.trace()
        chk.count("large_marginals")
        if err:
            chk.violation(err, it[0])


def run(chk):
    rng = chk.rng
    import blueqat.vqe
    cs = cases(rng)
    data = [{"n": c["n"], "ops": [op_json(o) for o in c["ops"]], "h": [[[L[l], q] for q, l in s] for s in c["strings"]], "meas": c["meas"]} for c in cs]
    r = tlc("Expect", CFG, data, timeout=700)
    chk.tlc_stats(r)
    recs = {x["id"]: x for x in r.records}
    if len(recs) != len(cs):
        raise MachineryError("missing results")
    items = [(c, recs[i + 1], vals, rng.randrange(2 ** 31)) for i, c in enumerate(cs) for vals in val_sets(rng, 2)]
    for it, (err, done) in zip(items, pmap(work, items)):
        chk.trace(done)
        if err:
            chk.violation(err, {"case": it[0], "vals": it[2].v})
    marginals(chk, rng)
    qiskit_part(chk, items[::2], rng, 40 if THOROUGH else 8)
    chk.count("states_and_hamiltonians", len(cs))
    for c in cs[:4]:
        chk.sample({**short_prog(c), "H": str(list(zip(c["coef"], c["strings"]))), "meas": c["meas"]})
    chk.assumptions.append("frequencies are compared with a false alarm probability below 1e-12 per key")
