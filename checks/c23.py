"""C23: the qgate bridge.  Bridge.tla says which foreign operations a circuit becomes and
which key a sampled integer becomes; the real backend runs against a recording stand-in for
qgate (harness/stubs.py) which also simulates, so that whole results are compared with
Programs.tla."""
from qv import *
from unitary import *
from stochastic import *
import stubs

GATES = ["i", "x", "y", "z", "h", "t", "tdg", "s", "sdg", "cz", "cx", "cnot", "rx", "ry", "rz", "phase", "r", "crx", "cry", "crz",
         "cphase", "cr", "u1", "u2", "u3", "cu1", "cu2", "cu3", "swap", "ccx", "toffoli"]
SEM = [g for g in GATES if g not in ("cu2", "cu3")]


def recorded(order, ops):
    """[(kind, angles, adjoint, controls, targets)] of a handed-over list"""
    out = []
    for o in ops:
        if isinstance(o, stubs.Measure):
            out.append(("MEASURE", (), False, (), (order.index(o.qreg),), id(o.ref)))
        else:
            out.append((o.gtype.name, tuple(float(x) for x in o.gtype.params), bool(o.adjoint),
                        tuple(sorted(order.index(q) for q in o.ctrls)), tuple(order.index(q) for q in o.qregs), None))
    return out


def expected(rec, prog, vals):
    out = []
    for o in rec["out"]:
        ps = tuple(float(angle(p, vals)) for p in prog["ops"][o["op"] - 1]["p"]) if o["kind"] != "MEASURE" else ()
        out.append((o["kind"], ps, o["adj"], tuple(sorted(o["c"])), tuple(o["t"]), None))
    return out


def per_qubit(ops, n):
    """the order that matters: of operations that share a qubit"""
    return [[o for o in ops if q in o[3] + o[4]] for q in range(n)]


def same(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and x[2:4] == y[2:4] and (x[4] == y[4] or x[0] == "SWAP" and sorted(x[4]) == sorted(y[4])) and len(x[1]) == len(y[1]) and
                                    all(abs(p - q) < 1e-12 * max(1, abs(q)) for p, q in zip(x[1], y[1])) for x, y in zip(a, b))


def handover(chk, prog, rec, vals, rng, sampled):
    n = prog["n"]
    c = build(prog, vals) if rng.random() < 0.6 else build_used(prog, vals, rng, lambda c: c.run(backend="qgate"))
    before = [id(o) for o in c.ops]
    stubs.Sim.log.clear()
    kw = {}
    if rng.random() < 0.3:
        kw["runtime"] = rng.choice(("cpu", "py", "cuda"))
    name = short_prog(prog)
    if sampled:
        kw["shots"] = 3
    res, err = guarded(lambda: c.run(backend="qgate", **kw) if rng.random() < 0.7 else c.run_with_qgate(**kw))
    chk.trace()
    if err is not None:
        return f"raised {err!r} for {name}"
    if [id(o) for o in c.ops] != before:
        return f"the run changed {name}"
    if len(stubs.Sim.log) != 1:
        raise MachineryError("stand-in not used")
    order, ops = stubs.Sim.log[0]
    if len(order) != n:
        return f"{len(order)} registers for {name}"
    got, want = recorded(order, ops), expected(rec, prog, vals)
    if sampled:
        want = [o for o in want if o[0] != "MEASURE"]
    refs = {}
    for o in got:
        if o[0] == "MEASURE" and refs.setdefault(o[4], o[5]) != o[5]:
            return f"one qubit is measured into two references for {name}"
    if len(set(refs.values())) != len(refs):
        return f"two qubits are measured into one reference for {name}"
    strip = lambda l: [o[:5] + (None,) for o in l]
    g, w = per_qubit(strip(got), n), per_qubit(want, n)
    if len(got) != len(want) or any(not same(a, b) for a, b in zip(g, w)):
        return f"{name} is handed over as {strip(got)}, expected {want}"
    return None


def run(chk):
    rng = chk.rng
    stubs.install_qgate()
    from blueqat import Circuit
    from blueqat.backends.qgate_backend import QgateBackend
    k = 5 if THOROUGH else 1
    warnings.simplefilter("ignore")
    progs = []
    for n in (1, 2, 3):
        progs += systematic(n, gates=GATES, prefix_ops=lambda n: [])
    progs += multi_targets(3, gates=GATES)
    progs += random_programs(rng, 250 * k, ns=(1, 2, 3, 4, 5), length=(1, 10), gates=GATES, max_split=10)
    progs += long_programs(rng, 40 * k, ns=(1, 2, 3, 4), gates=GATES)
    progs += [{"n": n, "ops": []} for n in (1, 3)]
    mp = [measured_program(rng, rng.choice((1, 2, 3, 4)), gates=GATES, max_split=10) for _ in range(120 * k)]
    mp = [p for p in mp if not any(o["g"] == "reset" for o in p["ops"])]
    ends = []
    for n in (1, 2, 3, 4):
        for mask in range(2 ** n):
            qs = [q for q in range(n) if mask >> q & 1]
            rng.shuffle(qs)
            ends.append({"n": n, "ops": entangler(n) + ([{"g": "m", "p": [], "t": T_tup(*[T_int(q) for q in qs])}] if qs else [])})
            # qubits that no gate touches
            ends.append({"n": n, "ops": [{"g": "h", "p": [], "t": T_int(q)} for q in qs[::2]] + [{"g": "m", "p": [], "t": T_slice()}]})
    for _ in range(60 * k):
        n = rng.choice((2, 3, 4, 5))
        ops = Gen(rng, n, gates=SEM, max_split=5).ops(rng.randint(2, 7))
        ends.append({"n": n, "ops": ops + [{"g": "m", "p": [], "t": T_tup(*[T_int(q) for q in rng.sample(range(n), rng.randint(1, n))])}]})
    # most qubits untouched, or in a definite state, in any order
    for _ in range(50 * k):
        n = rng.choice((3, 4, 5, 6, 7))
        qs = rng.sample(range(n), rng.choice((1, 2, 2, 3)))
        ops = [{"g": rng.choice(("x", "x", "h", "y")), "p": [], "t": T_int(q)} for q in qs]
        if len(qs) > 1 and rng.random() < 0.4:
            ops.append({"g": "cx", "p": [], "t": place_t(qs[:2])})
        ends.append({"n": n, "ops": ops + [{"g": "m", "p": [], "t": T_slice() if rng.random() < 0.5 else T_tup(*[T_int(q) for q in rng.sample(range(n), rng.randint(1, n))])}]})
    every = progs + mp + ends
    r = tlc("Bridge", "SPECIFICATION Spec\nINVARIANT InRange KeysDiffer\nPROPERTY NothingLost\nCHECK_DEADLOCK FALSE\n",
            [{"n": p["n"], "ops": [op_json(o) for o in p["ops"]]} for p in every])
    chk.tlc_stats(r)
    recs = {x["id"] - 1: x for x in r.records}
    if len(recs) != len(every):
        raise MachineryError(f"{len(recs)} of {len(every)} programs")
    chk.count("programs", len(every))
    for i, p in enumerate(every):
        for vals in val_sets(rng, 1):
            e = handover(chk, p, recs[i], vals, rng, False) or (i >= len(progs) + len(mp) and handover(chk, p, recs[i], vals, rng, True))
            if e:
                chk.violation(e, p)
    # keys of scripted samples
    off = len(progs) + len(mp)
    for i, p in enumerate(ends):
        rec = recs[off + i]
        keys = ["".join(map(str, x)) for x in rec["keys"]]
        m = len(rec["m"])
        hist = {}

        def script(bits, n):
            if bits != m:
                return [10 ** 6] * n
            obs = [rng.randrange(2 ** m) for _ in range(n)]
            for v in obs:
                hist[keys[v]] = hist.get(keys[v], 0) + 1
            return obs
        stubs.Pool.script = script
        shots = rng.choice((1, 7, 100))
        try:
            res, err = guarded(lambda: build(p, GENERIC).run(backend="qgate", shots=shots, **({"returns": "shots"} if rng.random() < 0.5 else {})))
        finally:
            stubs.Pool.script = None
        chk.trace()
        if err is not None or not isinstance(res, Counter) or dict(res) != hist:
            chk.violation(f"samples {hist} of {short_prog(p)} become {res!r} {err!r}", p)
    # whole results
    sem = [p for p in progs if all(o["g"] in SEM for o in p["ops"])][::2] + [p for p in ends if THOROUGH or rng.random() < 0.55]
    terms, r = tlc_programs(sem)
    chk.tlc_stats(r)
    chk.count("simulated", len(sem))
    np.random.seed(rng.randrange(2 ** 31))
    random.seed(rng.randrange(2 ** 31))
    for p, t in zip(sem, terms):
        for vals in val_sets(rng, 1):
            c = build(p, vals)
            n = p["n"]
            name = short_prog(p)
            chk.trace()
            meas = any(o["g"] == "m" for o in p["ops"])
            if not meas:
                v, err = guarded(lambda: c.run(backend="qgate"))
                if err is not None or dist_phase(v, state_eval(t[0], vals, 2 ** n)) > 1e-9:
                    chk.violation(f"{name} at {vals.v} runs to {v!r} {err!r}", p)
                v, err = guarded(lambda: c.run(backend="qgate", shots=5))
                if err is not None or v != Counter({"0" * n: 5}):
                    chk.violation(f"{name} without measurement samples {v!r} {err!r}", p)
                continue
            brs = branches(t, vals, n, True)
            keys = {}
            for key, _, q in brs:
                keys[key] = keys.get(key, 0) + q
            for kw in ({}, {"sampling": "qgate"}, {"sampling": "blueqat"}):
                res, err = guarded(lambda: c.run(backend="qgate", shots=400, **kw))
                e = repr(err) if err is not None else ("not 400 counts" if sum(res.values()) != 400 else bad_counts(res, keys, 400))
                if e:
                    chk.violation(f"{name} at {vals.v} sampled with {kw}: {e}; {res}, distribution {keys}", p)
            for _ in range(4):
                res, err = guarded(lambda: c.run(backend="qgate", returns="statevector_and_shots", shots=1))
                if err is not None or not isinstance(res[1], Counter) or sum(res[1].values()) != 1 or find(brs, next(iter(res[1])), res[0], True) is None:
                    chk.violation(f"{name} at {vals.v} gives state and shot {res!r} {err!r}", p)
                    break
    # gates without a foreign kind: refused, or else the same state
    for g in ("ch", "cy", "rxx", "ryy", "rzz", "cswap", "ccz"):
        p = {"n": 3, "ops": prefix(3)[:5] + [{"g": g, "p": sym_params(g), "t": place_t((2, 0, 1)[:2 if g not in ("cswap", "ccz") else 3])}]}
        v, err = guarded(lambda: build(p, GENERIC).run(backend="qgate"))
        chk.trace()
        if err is None:
            tt, _ = tlc_programs([p])
            if dist_phase(v, state_eval(tt[0][0], GENERIC, 8)) > 1e-9:
                chk.violation(f"{g} is accepted but runs to {v}", p)
    # several runs through one backend object
    b = QgateBackend()
    for _ in range(30):
        n = rng.randint(1, 4)
        q = rng.randrange(n)
        for kw, want in (({"shots": 4}, Counter({"".join("1" if i == q else "0" for i in range(n)): 4})), ({}, np.eye(2 ** n)[2 ** q])):
            res, err = guarded(lambda: Circuit(n).x[q].m[:].run(backend=b, **kw))
            chk.trace()
            if err is not None or (res != want if kw else dist_phase(res, want) > 1e-9):
                chk.violation(f"x[{q}] on {n} qubits through a used backend gives {res!r} {err!r}", "reuse")
    # measurement before later gates
    res, err = guarded(lambda: Circuit(1).x[0].m[0].x[0].run(backend="qgate", shots=6))
    if err is not None or set(res) != {"1"}:
        if err is None and set(res) == {"0"}:
            chk.violation("shots of a circuit with gates after a measurement sample the final state: x[0].m[0].x[0] reports 0", "mid", key="qgate-midmeasure")
        else:
            chk.violation(f"x[0].m[0].x[0] reports {res!r} {err!r}", "mid")
    chk.sample(short_prog(progs[-5]))
    chk.sample(short_prog(ends[-1]))
    chk.assumptions.append("qgate isn't installed: a stand-in records what it is given and simulates it with OpenQASM's gate definitions")
