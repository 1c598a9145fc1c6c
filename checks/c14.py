"""C14: QAOA circuits and VQE results.  Qaoa.tla is the QAOA circuit as a transition system
whose cost layer may be evolved in any order; its terminal states are compared with the
circuits, energies and probabilities the library produces."""
import re
from qv import *
from qv import _st
from unitary import *
from pauliobs import *
from stochastic import *
from history import fingerprint

CFG = "SPECIFICATION Spec\nINVARIANT NormOK AnglesOK RealOK\n\nCHECK_DEADLOCK FALSE\n"
M4 = [4, -4, 2, -2, 4, 6, -6, 8, 1, -3, 3]


def commute(s, t):
    d = dict(t)
    return sum(1 for q, l in s if q in d and d[q] != l) % 2 == 0


def strings_on(rng, n, count, commuting):
    out = []
    for _ in range(60):
        if len(out) == count:
            break
        if commuting == "z":
            s = [(q, 3) for q in sorted(rng.sample(range(n), rng.randint(0 if rng.random() < 0.2 else 1, min(n, 3))))]
        else:
            s = [(q, rng.randint(1, 3)) for q in sorted(rng.sample(range(n), rng.randint(0 if rng.random() < 0.1 else 1, n)))]
        if s not in out and (not commuting or all(commute(s, t) for t in out)):
            out.append(s)
    return out


def angle(rng, budget, mult, splits, split_cost):
    """an angle [q, c]; budget is charged mult quarter turns per symbol unit"""
    q = [0] * NSYM
    j = rng.randrange(NSYM)
    v = rng.choice((4, 4, 8, -4))
    if rng.random() < 0.75 and budget[j] >= abs(v) * mult and splits[0] >= split_cost:
        budget[j] -= abs(v) * mult
        splits[0] -= split_cost
        q[j] = v
        return tuple(q), rng.choice((0, 0, 0, 4, -2))
    return tuple(q), rng.choice((0, 1, 2, 4, -2, 8, 16, 3, 6)) * 2


def cases(rng):
    out = []
    for k in range(700 if THOROUGH else 150):
        nh = rng.choice((1, 2, 2, 3, 3, 4))
        commuting = rng.choice(("z", "z", "any", "any", "any", None))
        hs = strings_on(rng, nh, rng.randint(1, 4 if nh > 1 else 2), commuting)
        mh = [rng.choice(M4) for _ in hs]
        top = max([q for s in hs for q, _ in s], default=-1) + 1
        init = None
        std = True
        mix, mmix = [], []
        n = top
        ndecl = None
        if rng.random() < 0.6 or n == 0:
            ndecl = rng.choice((top, top, min(4, top + 1), max(0, top - 1)))
            n = max(top, ndecl, 1)
            g = Gen(rng, n, max_split=2)
            g.budget = [20] * NSYM
            init = g.ops(rng.randint(0, 4))
            if ndecl < n:      # the initial circuit is also run on its own, smaller register
                init = [o for o in init if "-" not in _st(o["t"]) and not re.search(r"\d:|:\d", _st(o["t"]))]
            if rng.random() < 0.5:
                init.insert(0, {"g": "h", "p": [], "t": T_slice(None, None, None)})
            if rng.random() < 0.7:
                std = False
                mix = strings_on(rng, n, rng.randint(0 if rng.random() < 0.2 else 1, 3), None)
                mmix = [rng.choice(M4) for _ in mix]
        steps = rng.choice((1, 1, 2, 2, 3))
        budget, splits = [50] * NSYM, [4]
        betas, gammas = [], []
        for _ in range(steps):
            gammas.append(angle(rng, budget, sum(map(abs, mh)), splits, sum(1 for s in hs if any(l != 3 for _, l in s))))
            betas.append(angle(rng, budget, 2 * n if std else sum(map(abs, mmix)), splits, n if std else len(mix)))
        meas = [rng.sample(range(n), rng.randint(1, n)), list(range(n))]
        out.append({"n": n, "ndecl": ndecl, "init": init, "h": hs, "mh": mh, "std": std, "mix": mix, "mmix": mmix,
                    "beta": betas, "gamma": gammas, "meas": meas})
    return out + qubo_cases(rng)


def qubo_cases(rng):
    """Opt.qaoa() of small problems: the Ising form of the QUBO, one step, symbols as parameters."""
    out = []
    while len(out) < (60 if THOROUGH else 12):
        n = rng.choice((1, 2, 2, 2, 3))
        Q = [[rng.choice((0, 1, -1, 2, -2)) if j >= i or rng.random() < 0.3 else 0 for j in range(n)] for i in range(n)]
        one, two = [0] * n, {}
        for i in range(n):
            one[i] -= 2 * Q[i][i]
            for j in range(i + 1, n):
                c = Q[i][j] + Q[j][i]
                one[i] -= c
                one[j] -= c
                two[i, j] = c
        hs = [[(i, 3)] for i in range(n) if one[i]] + [[(i, 3), (j, 3)] for (i, j), c in two.items() if c]
        mh = [x for x in one if x] + [c for c in two.values() if c]
        if not hs or sum(map(abs, mh)) > 14 or max(q for s in hs for q, _ in s) + 1 != n:
            continue
        out.append({"n": n, "ndecl": None, "init": None, "h": hs, "mh": mh, "std": True, "mix": [], "mmix": [], "qubo": Q,
                    "beta": [((4, 0, 0), 0)], "gamma": [((0, 4, 0), 0)], "meas": [list(range(n)), list(range(n))]})
    return out


def opt_qaoa(case, rec, rng):
    from blueqat import vqe, wq
    n, Q = case["n"], case["qubo"]
    opt = wq.Opt()
    form = rng.choice((lambda m: m, np.array))
    if rng.random() < 0.5:
        opt.qubo = form(Q)
    else:
        half = [[rng.randint(-2, 2) for _ in range(n)] for _ in range(n)]
        opt.add(form(half))
        opt.add(form((np.array(Q) - np.array(half)).tolist()))
    if rng.random() < 0.3:
        opt.ite, opt.R = 2, 0.3
        opt.run(targetT=1.)
    keep = np.array(opt.qubo).copy()
    res = opt.qaoa(step=1)
    if len(res.params) != 2 or not np.array_equal(keep, opt.qubo):
        return f"Opt.qaoa(step=1) has parameters {list(res.params)} and leaves the QUBO {opt.qubo}", 1
    vals = Vals([math.pi * res.params[0], 2 * math.pi * res.params[1], 0.])
    want = state_eval(rec, vals, 2 ** n)
    f = 2.0 ** -rec["s"]
    pr = {tuple(k): poly_eval(p, vals).real * f for k, p in rec["mg"][1]}
    got = dict(res.get_probs())
    if res.circuit.n_qubits != n or dist_phase(res.circuit.run(), want) > 1e-8 or any(abs(got.get(k, 0) - pr.get(k, 0)) > 1e-8 for k in set(got) | set(pr)):
        return f"Opt.qaoa(step=1) of {Q}: the result with parameters {list(res.params)} is not the specified circuit of the problem (probabilities {got}, specified {pr})", 1
    res = opt.qaoa() if rng.random() < 0.5 else opt.qaoa(step=3)
    k = len(res.params) // 2
    ref = vqe.QaoaAnsatz(wq.pauli(Q), k).get_circuit(res.params)
    if k not in (2, 3) or dist_phase(res.circuit.run(), ref.run()) > 1e-8:
        return f"Opt.qaoa() of {Q}: {len(res.params)} parameters, or not the circuit of these parameters", 2
    return None, 2


def enc_terms(ms, ss):
    return [{"m": m, "w": [[L[l], q] for q, l in s]} for m, s in zip(ms, ss)]


def enc(c):
    init = c["init"] if c["init"] is not None else [{"g": "h", "p": [], "t": T_slice(None, None, None)}]
    pk = lambda a: [pack_q(a[0]), a[1]]
    return {"n": c["n"], "init": [op_json(o) for o in init], "h": enc_terms(c["mh"], c["h"]), "std": c["std"],
            "mix": enc_terms(c["mmix"], c["mix"]), "beta": list(map(pk, c["beta"])), "gamma": list(map(pk, c["gamma"])), "meas": c["meas"]}


def work(a):
    case, rec, vals, seed = a
    from blueqat import Circuit, vqe
    from blueqat.pauli import I, Term, Expr
    warnings.simplefilter("ignore")
    seed_all(seed)
    rng = random.Random(seed)
    n, steps = case["n"], len(case["beta"])
    top = max([q for s in case["h"] for q, _ in s], default=-1) + 1
    done = 0
    num = lambda an: sum(x * v / 4 for x, v in zip(an[0], vals)) + an[1] * math.pi / 4
    hmap = {frozenset(s): complex(m / 4) for s, m in zip(case["h"], case["mh"])}
    h = alt_expr(rng, hmap, max(top, 1))
    if rng.random() < 0.4:
        h = h.simplify()
    if len(case["h"]) == 1 and rng.random() < 0.5:
        h = alt_term(rng, next(iter(hmap)), next(iter(hmap.values())), max(top, 1))

    def mixer():
        ts = [alt_term(rng, frozenset(s), complex(m / 4), n) for s, m in zip(case["mix"], case["mmix"])]
        return rng.choice((list, tuple, lambda x: Expr(tuple(x))))(ts)

    def params(bs, gs):
        v = [num(b) / math.pi for b in bs] + [num(g) / (2 * math.pi) for g in gs]
        return rng.choice((list, tuple, np.array))(v)
    name = f"H = {h!r}, mixer {list(zip(case['mmix'], case['mix'])) if not case['std'] else 'default'}/4, init {short_prog({'n': n, 'ops': case['init']}) if case['init'] is not None else None} on {case['ndecl']}, " \
           f"beta*pi {case['beta']}, 2pi*gamma {case['gamma']} at {vals.v}"
    try:
        if "qubo" in case and rng.random() < 0.5:
            e, k = opt_qaoa(case, rec, rng)
            if e:
                return e, k
            done += k
        kw = {}
        ic = None
        if case["init"] is not None:
            ic = Circuit(case["ndecl"])
            for op in case["init"]:
                append_op(ic, op, vals)
            kw["init_circuit"] = ic
        if not case["std"]:
            kw["mixer"] = mixer()
        if steps > 1 or rng.random() < 0.5:
            kw["step"] = steps
        h0 = structure(h)
        fp = fingerprint(ic) if ic is not None else None
        done += 1
        try:
            an = vqe.QaoaAnsatz(h, **kw)
        except ValueError as ex:
            if rec["ok"]:
                raise
            return None, done
        if not rec["ok"]:
            return f"a Hamiltonian with non-commuting terms was accepted: {name}", done
        if an.n_params != 2 * steps:
            return f"n_params is {an.n_params} for {steps} steps: {name}", done
        f = 2.0 ** -rec["s"]
        want = state_eval(rec, vals, 2 ** n)
        exps = [poly_eval(p, vals).real * f for p in rec["ex"]]
        E = sum(m / 4 * e for m, e in zip(case["mh"], exps))
        margs = [{tuple(k): poly_eval(p, vals).real * f for k, p in mg} for mg in rec["mg"]]
        margs = [{k: p for k, p in m.items() if p > 1e-13} for m in margs]
        scale = max(1, sum(map(abs, case["mh"])) / 4)
        p = params(case["beta"], case["gamma"])
        p0 = list(p)
        fpi = fingerprint(an.init_circuit)

        def circuit_ok(what, c):
            nonlocal done
            done += 1
            if c.n_qubits > n:
                return f"{what} has {c.n_qubits} qubits instead of {n}: {name}"
            if c.n_qubits < n:
                c = c.copy().i[n - 1]
            d = dist_phase(c.run(), want)
            if d > 1e-8:
                return f"{what} is not the specified circuit (distance {d}): {name}"
            if fingerprint(an.init_circuit) != fpi or (ic is not None and fingerprint(ic) != fp) or structure(h) != h0:
                return f"{what}: the initial circuit or Hamiltonian changed: {name}"
            if list(p) != p0:
                return f"{what} changed the parameters: {name}"
        c = an.get_circuit(p)
        e = circuit_ok("get_circuit", c)
        if e:
            return e, done
        # other parameters, extended and run, in between
        c2 = an.get_circuit([rng.uniform(-1, 1) for _ in range(2 * steps)])
        c2.x[:].run()
        c.h[n - 1].z[0]
        if rng.random() < 0.4:
            c.run()
        e = circuit_ok("a second get_circuit", an.get_circuit(p))
        if e:
            return e, done

        def near(what, v):
            nonlocal done
            done += 1
            if isinstance(v, complex) or abs(v - E) > 1e-8 * scale:
                return f"{what} is {v!r}, specified {E!r}: {name}"
        full = an.get_circuit(p).n_qubits == n
        if full and an.n_qubits == n:
            e = near("objective", an.get_objective()(p)) or near("objective with exact sampler", an.get_objective(vqe.non_sampling_sampler)(p))
            if e:
                return e, done
        # VQE with a scripted minimizer
        trial = [params([rng.choice(case["beta"]) for _ in range(steps)], case["gamma"]), p]
        seen = []

        def minimizer(objective, n_params):
            if n_params != 2 * steps:
                raise ValueError(f"minimizer called with {n_params}")
            for t in trial:
                seen.append(objective(t))
            return p
        sampler = rng.choice((None, vqe.non_sampling_sampler))
        if not full or an.n_qubits != n:
            return None, done
        v = vqe.Vqe(an, minimizer, sampler)
        if rng.random() < 0.2:
            import io, contextlib
            with contextlib.redirect_stdout(io.StringIO()):
                res = v.run(verbose=True)
        else:
            res = v.run()
        e = near("the objective given to the minimizer", seen[-1]) or circuit_ok("the circuit of the result", res.circuit)
        if e:
            return e, done
        if res.params is not p and list(res.params) != p0:
            return f"result.params {res.params} is not what the minimizer returned ({p}): {name}", done

        def probs_ok(what, pr, want):
            nonlocal done
            done += 1
            pr = dict(pr)
            if any(not isinstance(k, tuple) or len(k) != n for k in pr) or any(abs(pr.get(k, 0) - want.get(k, 0)) > 1e-8 for k in set(pr) | set(want)):
                return f"{what} {pr}, specified {want}: {name}"
        order = [("get_probs", lambda: res.get_probs()), ("probs", lambda: res.probs), ("get_probs(sampler)", lambda: res.get_probs(vqe.non_sampling_sampler)),
                 ("get_probs(store=False)", lambda: res.get_probs(store=False)), ("get_probs(rerun)", lambda: res.get_probs(rerun=True))]
        for what, fn in rng.sample(order, 3):
            e = probs_ok(what, fn(), margs[1])
            if e:
                return e, done
        for m in (1, 2, n + 1, 2 ** n, 2 ** n + 3):
            mc = res.most_common(m) if m > 1 or rng.random() < 0.5 else res.most_common()
            done += 1
            ps = sorted(margs[1].values(), reverse=True)
            if len(mc) > m or len(mc) < min(m, len(ps)):
                return f"most_common({m}) has {len(mc)} entries: {name}", done
            if any(abs(pv - margs[1].get(k, 0)) > 1e-8 for k, pv in mc) or any(a[1] < b[1] for a, b in zip(mc, mc[1:])) \
                    or any(abs(pv - w) > 1e-8 for (k, pv), w in zip(mc, ps)) or len({k for k, _ in mc}) != len(mc):
                return f"most_common({m}) is {mc}, specified {ps}: {name}", done
        e = circuit_ok("the circuit of the result after reading probabilities", res.circuit)
        if e:
            return e, done
    except MachineryError:
        raise
    except Exception as ex:
        import traceback
        return f"{ex!r} at {traceback.extract_tb(ex.__traceback__)[-1][:3]} for {name}", done
    return None, done


def optimise(chk, rng):
    """The real minimizer: the result is consistent with the exact sampler."""
    from blueqat import vqe
    from blueqat.pauli import Z
    for i in range(3):
        seed_all(rng.randrange(2 ** 31))
        h = sum((rng.choice((1, -1, 0.5)) * Z[q] * Z[(q + 1) % 3] for q in range(3)), rng.choice((0.5, -1)) * Z[0])
        for s in (None, vqe.non_sampling_sampler):
            an = vqe.QaoaAnsatz(h, step=1 + i % 2)
            kw = {} if i else {"minimizer": vqe.get_scipy_minimizer(method="COBYLA", options={"maxiter": 30})}
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = vqe.Vqe(an, sampler=s, **kw).run()
            pr = dict(res.get_probs())
            c = vqe.QaoaAnsatz(h, step=1 + i % 2).get_circuit(res.params)
            ref = {tuple(x >> q & 1 for q in range(3)): abs(v) ** 2 for x, v in enumerate(c.run())}
            chk.trace()
            if any(abs(pr.get(k, 0) - v) > 1e-8 for k, v in ref.items()) or dist_phase(res.circuit.run(), c.run()) > 1e-8:
                chk.violation(f"Vqe.run() of {h!r}: parameters {res.params} and probabilities {pr} do not belong together", [i])


STORE_CFG = """SPECIFICATION Spec
CONSTANTS Samplers = {{1, 2}}
MaxRuns = {runs}
Depth = {depth}
INVARIANT OwnOK StableOK GivenOK NoTraceOK
CHECK_DEADLOCK FALSE
"""


def store_replay(a):
    """Replay one behaviour of ResultStore.tla on real VqeResult objects."""
    hist, seed = a
    from blueqat import Circuit, vqe
    from blueqat.pauli import Z, X
    warnings.simplefilter("ignore")
    rng = random.Random(seed)
    n = rng.choice((1, 2, 3))
    h = sum((rng.choice((1, -1, 0.5)) * Z[q] for q in range(n)), Z[0] * Z[n - 1] if n > 1 else 0.5 * Z[0])
    calls, bad, results, params = {1: 0, 2: 0}, [], [], []
    keys = [tuple(x >> q & 1 for q in range(n)) for x in range(2 ** n)]
    same = lambda u, v: set(k for k, p in u.items() if p > 1e-13) == set(k for k, p in v.items() if p > 1e-13) and all(abs(u.get(k, 0) - v.get(k, 0)) < 1e-9 for k in set(u) | set(v))
    value = lambda s, r, c: {keys[i]: w for i, w in enumerate((0.5 - s / 10 + r / 1000 - c / 10000, 0.5 + s / 10 - r / 1000 + c / 10000))}
    cur = [0]

    def mk(s):
        def f(circuit, meas):
            calls[s] += 1
            if list(meas) != list(range(n)):
                bad.append(f"sampler called with qubits {list(meas)} of {n}")
            if dist(circuit.run(), ref(cur[0])) > 1e-9:
                bad.append(f"sampler called with another circuit than that of result {cur[0]}")
            return value(s, cur[0], calls[s])
        return f
    samplers = {0: None, 1: mk(1), 2: mk(2)}
    an = vqe.QaoaAnsatz(h, rng.choice((1, 2)))
    ref = lambda r: an.get_circuit(params[r - 1]).run()

    def minimizer(objective, k):
        params.append([rng.uniform(0, 1) for _ in range(k)])
        return params[-1]
    v = None
    for i, e in enumerate(hist):
        here = f"step {i} of {[(x['op'], x['res'], x['s'], x['rerun'], x['store'], x['m']) for x in hist[:i + 1]]} (H = {h!r})"
        try:
            if e["op"] == "new":
                v = vqe.Vqe(an, minimizer, samplers[e["s"]])
                continue
            if e["op"] == "run":
                results.append(v.run())
                continue
            if e["op"] == "latest":
                r = v.result
                if e["res"] and r is not results[-1]:
                    return f"Vqe.result is not the latest result: {here}"
                continue
            cur[0] = e["res"]
            r = results[e["res"] - 1]
            s, k, c = e["val"]
            want = value(s, k, c) if s else {keys[x]: abs(a) ** 2 for x, a in enumerate(ref(k))}
            if e["op"] == "common":
                got = r.most_common(e["m"]) if e["m"] > 1 else r.most_common()
                ps = sorted((p for p in want.values()), reverse=True)[:e["m"]]
                if [p for p in ps if p > 1e-12] != [] and (len(got) > e["m"] or any(abs(p - q) > 1e-9 for (_, p), q in zip(got, ps)) or any(abs(want.get(b, 0) - p) > 1e-9 for b, p in got)):
                    return f"most_common gave {got}, specified {ps} of {want}: {here}"
            else:
                if e["op"] == "probs":
                    got = r.probs
                else:
                    kw = {}
                    if e["s"] or rng.random() < 0.2:
                        kw["sampler"] = samplers[e["s"]]
                    if e["rerun"] != "default":
                        kw["rerun"] = e["rerun"] == "yes"
                    if not e["store"] or rng.random() < 0.2:
                        kw["store"] = e["store"]
                    got = r.get_probs(**kw)
                if not same(dict(got), want):
                    return f"the probabilities read are {dict(got)}, specified {want} (sampler {s}, result {k}, call {c}): {here}"
            if bad:
                return f"{bad[0]}: {here}"
            if list(r.params) != params[e["res"] - 1] or dist(r.circuit.run(), ref(e["res"])) > 1e-9:
                return f"the parameters or the circuit of result {e['res']} changed: {here}"
        except Exception as ex:
            return f"{ex!r}: {here}"
    return None


def store_histories(chk, rng):
    hs = []
    for k, (runs, depth, num) in enumerate([(1, 7, 500), (3, 14, 500)] if not THOROUGH else [(1, 7, 2500), (2, 11, 2500), (3, 24, 2500)]):
        r = tlc("ResultStore", STORE_CFG.format(runs=runs, depth=depth), simulate=num, depth=depth + 2, seed=SEED * 10 + k, workers=1)
        chk.tlc_stats(r)
        hs += r.records
    for h, err in zip(hs, pmap(store_replay, [(h, rng.randrange(2 ** 31)) for h in hs])):
        chk.trace()
        if err:
            chk.violation(err, {"history": h})
    chk.count("result_histories", len(hs))
    chk.sample([(x["op"], x["res"], x["s"], x["rerun"], x["store"], x["val"]) for x in hs[-1]])

PLAN_CFG = "SPECIFICATION Spec\nINVARIANT Complete\nCHECK_DEADLOCK FALSE\n"


def apply_word(v, word):
    """P v for the Pauli string word = [(qubit, letter)]"""
    i = np.arange(len(v))
    fx = sum(1 << q for q, l in word if l in (1, 2))
    fz = sum(1 << q for q, l in word if l in (2, 3))
    j = i ^ fx
    sg = np.array([bin(x & fz).count("1") & 1 for x in j])
    return (1j ** sum(1 for _, l in word if l == 2)) * (1 - 2 * sg) * v[j]


def plan_state(case, plan, params):
    n = case["n"]
    v = np.zeros(2 ** n, dtype=complex)
    v[0] = 1
    for kind_, x, k in plan:
        if kind_ == "init":
            for name, q in case["init"]:
                p = apply_word(v, [(q[0], {"x": 1, "h": 1, "z": 3, "y": 2}[name])]) if name != "cx" else None
                if name == "h":
                    v = (p + apply_word(v, [(q[0], 3)])) / math.sqrt(2)
                elif name == "cx":
                    z = apply_word(v, [(q[0], 3)])
                    v = (v + z) / 2 + apply_word((v - z) / 2, [(q[1], 1)])
                else:
                    v = p
        elif kind_ == "rx":
            t = math.pi * params[k - 1] / 2
            v = math.cos(t) * v - 1j * math.sin(t) * apply_word(v, [(x, 1)])
        else:
            c, w = (case["h"] if kind_ == "cost" else case["mix"])[x - 1]
            t = c * params[k - 1] * (2 * math.pi if kind_ == "cost" else math.pi)
            v = v * np.exp(1j * t) if not w else math.cos(t) * v + 1j * math.sin(t) * apply_word(v, w)
    return v


def large_cases(rng):
    out = []
    for _ in range(120 if THOROUGH else 32):
        n = rng.choice((3, 4, 5, 6, 7, 8))
        hs = strings_on(rng, n, rng.choice((1, 3, 6, 15, 30)), rng.choice(("z", "z", "any")))
        hs.append([(n - 1, 3)]) if all(commute([(n - 1, 3)], s) for s in hs) and [(n - 1, 3)] not in hs else None
        n = max([n0 for s in hs for n0, _ in s], default=0) + 1
        std = rng.random() < 0.5
        init = None
        if not std or rng.random() < 0.4:
            init = [("h", [q]) for q in range(n)] if rng.random() < 0.4 else []
            for _ in range(rng.randint(0, 8)):
                init.append(("cx", rng.sample(range(n), 2)) if n > 1 and rng.random() < 0.5 else (rng.choice("xyzh"), [rng.randrange(n)]))
        real = lambda: rng.choice((rng.uniform(-2, 2), rng.uniform(-30, 30), 1.0, -0.5))
        mix = [] if std else [(real(), s) for s in strings_on(rng, n, rng.randint(1, 8), None)]
        out.append({"n": n, "steps": rng.choice((1, 2, 4, 5, 8)), "h": [(real(), s) for s in hs], "std": std, "mix": mix,
                    "init": init if init is not None else [("h", [q]) for q in range(n)], "own": init is not None})
    return out


def large_work(a):
    import io, contextlib
    from blueqat import Circuit, vqe
    from blueqat.pauli import Expr, Term
    case, plan, seed = a
    warnings.simplefilter("ignore")
    rng = random.Random(seed)
    seed_all(seed)
    n, steps = case["n"], case["steps"]
    mkterm = lambda c, w: Term(tuple(pauli(l, q) for q, l in rng.sample(w, len(w))), c)
    try:
        kw = {}
        if case["own"]:
            ic = Circuit(n)
            for name, q in case["init"]:
                getattr(ic, name)[tuple(q)] if name == "cx" else getattr(ic, name)[q[0]]
            kw["init_circuit"] = ic
        if not case["std"]:
            kw["mixer"] = [mkterm(*t) for t in case["mix"]]
        h = Expr(tuple(mkterm(*t) for t in case["h"]))
        what = f"QAOA of {h!r:.300}, {steps} steps on {n} qubits, mixer {kw.get('mixer')!r:.200}, init {case['init'] if case['own'] else None}"
        an = vqe.QaoaAnsatz(h, steps, **kw)
        for p in ([rng.uniform(-1, 1) for _ in range(2 * steps)], [rng.uniform(-20, 20) for _ in range(2 * steps)], [rng.choice((0, 1, 0.25, -0.5)) for _ in range(2 * steps)]):
            want = plan_state(case, plan, p)
            c = an.get_circuit(rng.choice((list, tuple, np.array))(p))
            got = c.run()
            if len(got) != len(want) or dist_phase(got, want) > 1e-7:
                return f"get_circuit({p}) is not the specified circuit: {what}"
            E = sum(co * np.vdot(want, apply_word(want, w)).real for co, w in case["h"])
            sc = max(1, sum(abs(co) for co, _ in case["h"]))
            for nm, v in (("objective", an.get_objective()(p)), ("objective with the exact sampler", an.get_objective(vqe.non_sampling_sampler)(p))):
                if abs(v - E) > 1e-7 * sc:
                    return f"{nm} is {v}, specified {E}: {what}"
        # a sampler decides the objective and the probabilities of the result
        calls = []
        fixed = {}

        def sampler(circuit, meas):
            meas = tuple(meas)
            calls.append(tuple(sorted(meas)))
            r = {tuple(int((q * 7 + len(meas) + b) % 3 == 0) for q in meas): w for b, w in ((0, 0.75), (1, 0.25))} if meas else {(): 1.0}
            fixed[tuple(sorted(meas))] = r
            return r
        tr = []

        def minimizer(objective, k):
            tr.append(objective(p))
            tr.append(objective(p))
            return p
        verbose = rng.random() < 0.5
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            res = vqe.Vqe(an, minimizer, sampler).run(verbose=verbose) if verbose or rng.random() < 0.5 else vqe.Vqe(an, minimizer, sampler).run()
        want = 0
        for co, w in case["h"]:
            qs = tuple(sorted(q for q, _ in w))
            if qs and qs not in calls:
                return f"the sampler of Vqe wasn't asked for qubits {qs} (only {sorted(set(calls))}): {what}"
            want += co * sum(pr * (-1) ** sum(b) for b, pr in fixed.get(qs, {(): 1.0}).items())
        if any(abs(v - want) > 1e-9 * sc for v in tr):
            return f"the objective with a sampler is {tr}, specified {want} from what the sampler returned: {what}"
        lines = buf.getvalue().strip().splitlines()
        if bool(lines) != verbose:
            return f"run(verbose={verbose}) prints {lines[:3]}: {what}"
        if verbose and not all(any(str(v) in ln for ln in lines) or any(f"{v:.4f}" in ln for ln in lines) for v in tr):
            return f"run(verbose=True) doesn't print the value {tr}: {lines[:4]}: {what}"
        pr = res.get_probs()
        if dict(pr) != sampler(None, range(n)):
            return f"probabilities of the result are {pr}, the sampler gave {sampler(None, range(n))}: {what}"
    except Exception as ex:
        import traceback
        return f"{ex!r} at {traceback.extract_tb(ex.__traceback__)[-1][:3]} for a large problem {case}"[:1500]
    return None


def large(chk, rng):
    cs = large_cases(rng)
    r = tlc("QaoaPlan", PLAN_CFG, [{"n": c["n"], "steps": c["steps"], "h": len(c["h"]), "std": c["std"], "mix": len(c["mix"])} for c in cs])
    chk.tlc_stats(r)
    plans = {x["id"]: x["plan"] for x in r.records}
    if len(plans) != len(cs):
        raise MachineryError("missing plans")
    items = [(c, plans[i + 1], rng.randrange(2 ** 31)) for i, c in enumerate(cs)]
    for it, err in zip(items, pmap(large_work, items)):
        chk.trace()
        chk.count("large_problems")
        if err:
            chk.violation(err, it[0])


def run(chk):
    rng = chk.rng
    import blueqat.vqe
    cs = cases(rng)
    r = tlc("Qaoa", CFG, [enc(c) for c in cs], timeout=700)
    chk.tlc_stats(r)
    recs = {}
    for x in r.records:
        # the same vector may be written with different powers of sqrt(2)
        o = recs.setdefault(x["id"], x)
        if o is not x and dist(state_eval(o, GENERIC, 2 ** cs[x["id"] - 1]["n"]), state_eval(x, GENERIC, 2 ** cs[x["id"] - 1]["n"])) > 1e-9:
            raise MachineryError(f"the order of the cost layer matters in case {cs[x['id'] - 1]}")
    if len(recs) != len(cs):
        raise MachineryError("missing results")
    chk.count("rejected_hamiltonians", sum(not x["ok"] for x in recs.values()))
    items = [(c, recs[i + 1], vals, rng.randrange(2 ** 31)) for i, c in enumerate(cs) for vals in val_sets(rng, 3)]
    for it, (err, done) in zip(items, pmap(work, items)):
        chk.trace(done)
        if err:
            chk.violation(err, {"case": it[0], "vals": it[2].v})
    from blueqat import Circuit, vqe
    from blueqat.pauli import X, Z
    try:
        vqe.QaoaAnsatz(Z[0] * Z[1], mixer=[X[0], X[1]])
        chk.violation("a mixer without an initial circuit was accepted", [])
    except ValueError:
        pass
    optimise(chk, rng)
    large(chk, rng)
    store_histories(chk, rng)
    chk.count("ansatzes", len(cs))
    for c in cs[:4]:
        chk.sample({k: str(v) for k, v in c.items()})
