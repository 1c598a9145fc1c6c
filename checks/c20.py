"""C20: the Qiskit route.  The exact state (or the exact branches of measured circuits) of
Programs.tla is compared with what comes back through the ibmq backend: the Qiskit circuit
evolved by Qiskit itself, counts of Aer, and the Qiskit sampler's marginals."""
import sys, os
os.environ["OMP_NUM_THREADS"] = "1"
from qv import *
from unitary import *
from stochastic import *

GATES = [g for g in ALLG if g not in ("cu2", "cu3")]      # see KNOWN-FINDING qiskit-cu2, qiskit-cu3
RET = ("shots", "draw", "qiskit_circuit", "qiskit_job", "qiskit_result", "_exception")


def qvec(qc):
    from qiskit.quantum_info import Statevector
    return np.asarray(Statevector.from_int(0, 2 ** qc.num_qubits).evolve(qc).data)


def vec_work(a):
    """circuit handed to Qiskit, evolved by Qiskit"""
    prog, rec, vals, seed = a
    warnings.simplefilter("ignore")
    rng = random.Random(seed)
    n = prog["n"]
    want = state_eval(rec, vals, 2 ** n)
    try:
        c = build(prog, vals) if rng.random() < 0.6 else build_used(prog, vals, rng, lambda c: c.run(backend="ibmq", returns="qiskit_circuit").x(0))
        before = [id(o) for o in c.ops]
        if rng.random() < 0.5:
            qc = c.run(backend="ibmq", returns="qiskit_circuit")
        else:
            qc = c.run_with_ibmq(returns="qiskit_circuit")
        if [id(o) for o in c.ops] != before:
            return "the run changed the circuit"
        if qc.num_qubits != n or qc.num_clbits != n:
            return f"Qiskit circuit has {qc.num_qubits} qubits and {qc.num_clbits} bits"
        d = dist_phase(qvec(qc), want)
    except Exception as e:
        return f"raised {e!r}"[:300]
    return None if d < 1e-7 else f"Qiskit evolves the circuit to another state (distance {d:.3g})"


def count_work(a):
    prog, terms, vals, seed, shots, backend = a
    warnings.simplefilter("ignore")
    from qiskit import Aer, BasicAer
    from blueqat import Circuit
    rng = random.Random(seed)
    n = prog["n"]
    probs = {}
    for k, _, p in branches(terms, vals, n, True):
        probs[k] = probs.get(k, 0) + p
    kw = {"seed_simulator": seed % 100000}
    if backend == "basic":
        kw["qiskit_backend"] = BasicAer.get_backend("qasm_simulator")
    elif backend == "aer":
        kw["qiskit_backend"] = Aer.get_backend("aer_simulator")
    if shots is not None:
        kw["shots"] = shots
    N = shots or 1024
    try:
        c = build(prog, vals) if rng.random() < 0.7 else build_used(prog, vals, rng, lambda c: c.run(backend="ibmq", returns="qiskit_circuit").x(0))
        if rng.random() < 0.3:
            c.run()
        r = c.run(backend="ibmq", **kw)
        if not isinstance(r, Counter) or sum(r.values()) != N:
            return f"{r!r} for {N} shots"
        e = bad_counts(r, probs, N)
        if e:
            return f"{e}: {dict(r)}, distribution {probs} [{backend}]"
        if backend != "basic":
            r2 = c.run(backend="ibmq", **kw)
            if r2 != r:
                return f"seed_simulator isn't passed on: {r} and {r2}"
        m = c.run(backend="ibmq", returns="qiskit_result", memory=True, **kw)
        mem = Counter(s[::-1] for s in m.get_memory())
        if sum(mem.values()) != N or bad_counts(mem, probs, N):
            return f"the Qiskit result holds {mem} for {N} shots of {probs}"
    except Exception as e:
        return f"raised {e!r}"[:300]
    return None


def options(chk):
    from blueqat import Circuit
    from qiskit import Aer
    import qiskit
    for mk, n, keys in ((lambda: Circuit(2).h[0].m[0], 2, {"00": 0.5, "10": 0.5}), (lambda: Circuit().x[1].m[:], 2, {"01": 1.0}),
                        (lambda: Circuit(3).x[2].m[2].h[0].m[0], 3, {"001": 0.5, "101": 0.5})):
        for ret in RET + (None,):
            for shots in (None, 1, 7):
                kw = {} if shots is None else {"shots": shots}
                N = shots or 1024
                if ret is not None or shots == 7:
                    kw["returns"] = ret
                if ret in ("draw",):
                    kw.pop("shots", None)
                r, err = guarded(lambda: mk().run(backend="ibmq", **kw))
                chk.trace()
                what = f"{mk()!r}.run(backend='ibmq', {kw})"
                if err is not None:
                    chk.violation(f"{what} raised {err!r}", str(kw))
                    continue
                bad = None
                if ret in (None, "shots"):
                    bad = not isinstance(r, Counter) or sum(r.values()) != N or bad_counts(r, keys, N)
                elif ret == "_exception":
                    bad = r is not None
                elif ret == "draw":
                    bad = "q" not in str(r) or len(str(r)) < 10 or isinstance(r, (Counter, qiskit.QuantumCircuit))
                elif ret == "qiskit_circuit":
                    bad = not isinstance(r, qiskit.QuantumCircuit) or r.num_qubits != n
                else:
                    if ret == "qiskit_job":
                        if not callable(getattr(r, "result", None)) or not callable(getattr(r, "status", None)):
                            chk.violation(f"{what} returned {r!r}", str(kw))
                            continue
                        r = r.result()
                    if not hasattr(r, "get_counts"):
                        chk.violation(f"{what} returned {r!r}", str(kw))
                        continue
                    cn = Counter({k[::-1]: v for k, v in r.get_counts().items()})
                    bad = sum(cn.values()) != N or bad_counts(cn, keys, N)
                if bad:
                    chk.violation(f"{what} returned {r!r}", str(kw))
        for b in ("counts", "statevector", "Shots", "", 1, "qiskit", "exception", "statevector_and_shots"):
            _, err = guarded(lambda: mk().run(backend="ibmq", returns=b))
            chk.trace()
            if not isinstance(err, ValueError):
                chk.violation(f"returns={b!r} gives {err!r} instead of ValueError", str(b))
    # drawing options are those of qiskit's draw
    txt, err = guarded(lambda: Circuit(2).h[0].cx[0, 1].run(backend="ibmq", returns="draw", reverse_bits=True))
    ref = qiskit.QuantumCircuit.from_qasm_str(Circuit(2).h[0].cx[0, 1].to_qasm()).draw(reverse_bits=True)
    if err is not None or str(txt) != str(ref):
        chk.violation(f"draw with options gives {err!r} {txt}", "draw")
    # without a usable qiskit
    saved = {k: v for k, v in sys.modules.items() if k == "qiskit" or k.startswith("qiskit.")}

    class Broken:
        def __getattr__(self, k):
            raise RuntimeError("broken installation")
    for stub, exc in ((None, ImportError), (Broken(), ValueError)):
        sys.modules["qiskit"] = stub
        try:
            r, err = guarded(lambda: Circuit().h[0].m[0].run(backend="ibmq"))
            r2, err2 = guarded(lambda: Circuit().h[0].m[0].run(backend="ibmq", returns="_exception"))
            _, err3 = guarded(lambda: Circuit().h[0].m[0].run(backend="ibmq", returns="nonsense"))
        finally:
            sys.modules.update(saved)
        chk.trace(3)
        if not isinstance(err, exc):
            chk.violation(f"without a usable qiskit a run gives {err!r}, not {exc.__name__}", "noqiskit")
        if err2 is not None or not isinstance(r2, Exception):
            chk.violation(f"returns='_exception' gives {r2!r} {err2!r} when qiskit can't be imported", "noqiskit")
        if not isinstance(err3, ValueError):
            chk.violation(f"unknown returns value gives {err3!r} when qiskit can't be imported", "noqiskit")


class HexResult:
    def __init__(self, counts):
        self.counts = counts

    def get_counts(self, *a):
        return self.counts


def sampler(chk, rng):
    """estimated marginals of exact distributions, in bit string and in hex form"""
    from blueqat import Circuit, BlueqatGlobalSetting
    from blueqat.backends.backendbase import Backend
    from blueqat.vqe import get_qiskit_sampler, expect, non_sampling_sampler
    from qiskit import Aer, BasicAer
    progs = [p for p in random_programs(rng, 60 if THOROUGH else 16, ns=(1, 2, 3, 4), length=(2, 9), gates=GATES, max_split=5)]
    terms, r = tlc_programs(progs)
    chk.tlc_stats(r)
    for p, t in zip(progs, terms):
        n = p["n"]
        for vals in val_sets(rng, 1):
            w = state_eval(t[0], vals, 2 ** n)
            pr = np.abs(w) ** 2
            meas = rng.sample(range(n), rng.randint(0, n))
            exact = {}
            for x in range(2 ** n):
                k = tuple(x >> q & 1 for q in meas)
                exact[k] = exact.get(k, 0.0) + float(pr[x])
            c = build(p, vals)
            fp = [id(o) for o in c.ops], c.n_qubits
            shots = rng.choice((None, 500, 3000))
            kw = {} if shots is None else {"shots": shots}
            N = shots or 1024
            s = get_qiskit_sampler(rng.choice((Aer.get_backend("qasm_simulator"), BasicAer.get_backend("qasm_simulator"))), **kw)
            for arg in (tuple(meas), list(meas)):
                d, err = guarded(s, c, arg)
                chk.trace()
                if err is not None:
                    chk.violation(f"qiskit sampler raised {err!r} for {short_prog(p)} measuring {meas}", p)
                    break
                if any(not isinstance(k, tuple) or len(k) != len(meas) for k in d) or abs(sum(d.values()) - 1) > 1e-9:
                    chk.violation(f"qiskit sampler gives {d} measuring {meas} of {short_prog(p)}", p)
                    break
                e = bad_counts(Counter({k: round(v * N) for k, v in d.items()}), exact, N)
                if e:
                    chk.violation(f"qiskit sampler measuring {meas} of {short_prog(p)}: {e}; {d}, exact {exact}", p)
                    break
            if ([id(o) for o in c.ops], c.n_qubits) != fp:
                chk.violation(f"qiskit sampler changed {short_prog(p)}", p)
    # results whose bit strings are given in hexadecimal, as IBM's devices do: by a stand-in backend
    from blueqat.backends.ibmq_backend import ibmq_backend
    got = {}

    class Stub(Backend):
        def run(self, gates, n_qubits, *args, **kw):
            got["kw"], got["n"] = kw, n_qubits
            return HexResult(self.counts)

        def copy(self):
            return self
    for n in (1, 2, 3, 5, 8):
        for hexa in (True, False):
            ks = rng.sample(range(2 ** n), min(2 ** n, 4))
            cnt = {k: rng.randint(1, 50) for k in ks}
            Stub.counts = {(hex(k) if hexa else format(k, f"0{n}b")): v for k, v in cnt.items()}
            N = sum(cnt.values())
            meas = tuple(rng.sample(range(n), rng.randint(1, n)))
            exact = Counter()
            for k, v in cnt.items():
                exact[tuple(k >> q & 1 for q in meas)] += v
            BlueqatGlobalSetting.register_backend("ibmq", Stub, allow_overwrite=True)
            try:
                d, err = guarded(get_qiskit_sampler("dev", shots=N), Circuit(n).h[0], meas)
            finally:
                BlueqatGlobalSetting.register_backend("ibmq", ibmq_backend, allow_overwrite=True)
            chk.trace()
            if err is not None or set(d) != set(exact) or any(abs(d[k] * N - exact[k]) > 1e-6 for k in exact):
                chk.violation(f"qiskit sampler reads counts {Stub.counts} measuring {meas} as {d} {err!r}", str(Stub.counts))


def cu_gates(chk, rng):
    """cu2 and cu3 have other (or no) definitions in Qiskit: recorded findings"""
    from blueqat import Circuit
    pre = lambda: [{"g": "h", "p": [], "t": T_int(0)}, {"g": "ry", "p": [((0, 0, 4), 0)], "t": T_int(1)}]
    ps = [((4, 0, 0), 0), ((0, 4, 0), 0), ((0, 0, 4), 0)]
    ct = T_tup(T_int(0), T_int(1))
    post = [{"g": "h", "p": [], "t": T_int(0)}]
    a = {"n": 2, "ops": pre() + [{"g": "cu3", "p": ps, "t": ct}] + post}
    b = {"n": 2, "ops": pre() + [{"g": "cu3", "p": ps, "t": ct}, {"g": "phase", "p": [((0, 2, 2), 0)], "t": T_int(0)}] + post}
    c2 = {"n": 2, "ops": pre() + [{"g": "cu2", "p": ps[:2], "t": ct}] + post}
    terms, r = tlc_programs([a, b, c2])
    chk.tlc_stats(r)
    for vals in val_sets(rng, 3):
        qc, err = guarded(lambda: build(a, vals).run(backend="ibmq", returns="qiskit_circuit"))
        chk.trace()
        if err is not None:
            chk.violation(f"cu3 through qiskit raised {err!r}", a)
            break
        v = qvec(qc)
        if dist_phase(v, state_eval(terms[0][0], vals, 4)) > 1e-7:
            if dist_phase(v, state_eval(terms[1][0], vals, 4)) < 1e-7:
                chk.violation("cu3 run by qiskit has an extra phase (phi+lambda)/2 on the control qubit", a, key="qiskit-cu3")
            else:
                chk.violation(f"cu3 run by qiskit gives another state at {vals.v}", a)
            break
    qc, err = guarded(lambda: build(c2, GENERIC).run(backend="ibmq", returns="qiskit_circuit"))
    if err is not None:
        chk.violation("a circuit with cu2 can't be run by qiskit", c2, key="qiskit-cu2")
    elif dist_phase(qvec(qc), state_eval(terms[2][0], GENERIC, 4)) > 1e-7:
        chk.violation("cu2 run by qiskit gives another state", c2)


def run(chk):
    rng = chk.rng
    try:
        import qiskit, qiskit_aer
    except Exception as e:
        raise MachineryError(f"qiskit isn't usable here: {e!r}")
    import blueqat
    k = 5 if THOROUGH else 1
    warnings.simplefilter("ignore")
    # A: unitary circuits
    progs = []
    for n in (1, 2, 3):
        progs += systematic(n, gates=GATES)[:: (1 if THOROUGH else 2)]
    progs += multi_targets(3, gates=GATES, every=1 if THOROUGH else 2)
    progs += random_programs(rng, 120 * k, ns=(1, 2, 3, 4), length=(2, 10), gates=GATES, max_split=6)
    progs += random_programs(rng, 40 * k, ns=(2, 3, 4), length=(3, 16), gates=GATES, p_sym=0.0, max_split=9)
    progs += long_programs(rng, 14 * k, gates=GATES)
    progs += [{"n": n, "ops": []} for n in (1, 3)]
    terms, r = tlc_programs(progs)
    chk.tlc_stats(r)
    chk.count("programs", len(progs))
    items = [(p, t[0], vals, rng.randrange(2 ** 31)) for p, t in zip(progs, terms) for vals in val_sets(rng, 1)]
    # B: measured circuits
    mp = systematic_measured()[:: (1 if THOROUGH else 3)]
    mp += [measured_program(rng, rng.choice((1, 2, 3, 3, 4)), maxm=5, end=True, gates=GATES) for _ in range(60 * k)]
    mp += [measured_program(rng, rng.choice((2, 3, 4)), maxm=5, p_meas=0.4, gates=GATES) for _ in range(30 * k)]
    mp = [p for p in mp if any(o["g"] in ("m", "measure") and resolve_py(o["t"], p["n"]) for o in p["ops"])]   # qiskit has no counts without measurements
    for n in (1, 2, 3, 5, 9, 11):
        for q in range(n):
            mp.append({"n": n, "ops": [{"g": "x", "p": [], "t": T_int(q)}, {"g": "m", "p": [], "t": T_slice() if q % 2 else T_int(q)}]})
    mterms, r = tlc_programs(mp, timeout=600)
    chk.tlc_stats(r)
    chk.count("measured_programs", len(mp))
    mitems = [(p, t, vals, rng.randrange(2 ** 31), rng.choice((None, 300, 2000, 1, 64)), rng.choice(("default", "default", "aer", "basic")))
              for p, t in zip(mp, mterms) for vals in val_sets(rng, 1)]
    for (p, *_), e in zip(items, pmap(vec_work, items)):
        chk.trace()
        if e:
            chk.violation(f"{e} for {short_prog(p)}", p)
    for (p, *_), e in zip(mitems, pmap(count_work, mitems)):
        chk.trace()
        if e:
            chk.violation(f"{e} for {short_prog(p)}", p)
    options(chk)
    sampler(chk, rng)
    cu_gates(chk, rng)
    chk.sample(short_prog(progs[-5]))
    chk.sample(short_prog(mp[-30]))
    chk.assumptions.append("Qiskit and Aer (installed versions) evolve and sample their own circuits correctly")
