"""C18: what a partial backend receives is equivalent to the circuit.  Real circuits are
run on recording backends that implement only part of the gate set; TLC validates the
received gate list against the circuit for all angles (Equiv.tla), measurements included
(Programs.tla)."""
from qv import *
from unitary import *
from record import *
from checks.c08 import terminals, same_terminals


def subsets(rng, k):
    out = [NEEDED, tuple(NATIVE)]
    extra = [g for g in NATIVE if g not in NEEDED]
    for g in extra:
        out.append(NEEDED + (g,))
    for _ in range(k):
        out.append(NEEDED + tuple(g for g in extra if rng.random() < rng.choice((0.15, 0.4, 0.7))))
    return out


def run(chk):
    from blueqat import Circuit
    from blueqat.circuit import BlueqatGlobalSetting as BGS
    from blueqat.gate import OneQubitGate
    rng = chk.rng
    r = tlc("GateLaws", open(SPEC + "/MCGateLaws.cfg").read())
    chk.tlc_stats(r)
    enc = Encoder(GENERIC)
    subs = subsets(rng, 40)
    recs = {s: recorder(s) for s in subs}
    progs = []
    for n in (1, 2, 3):
        progs += [(p, NEEDED) for p in systematic(n, prefix_ops=lambda n: [])]
    for n in (2, 3):
        progs += [(p, rng.choice(subs)) for p in systematic(n, prefix_ops=lambda n: [])]
    progs += [(p, rng.choice(subs)) for p in multi_targets(2, prefix_ops=lambda n: []) + multi_targets(3, prefix_ops=lambda n: [], every=1 if THOROUGH else 2)]
    progs += [(p, rng.choice(subs)) for p in random_programs(rng, 600 if THOROUGH else 160, ns=(1, 2, 3), length=(2, 8), max_split=4, cstep=2, gates=ALLG + ["ccz"])]
    progs += [(p, rng.choice(subs)) for p in long_programs(rng, 60 if THOROUGH else 12, cstep=2)]
    progs += [({**p, "far": far(p, rng)}, rng.choice(subs)) for p in random_programs(rng, 120 if THOROUGH else 40, ns=(1, 2, 3), length=(2, 8), max_split=4, cstep=2, gates=ALLG + ["ccz"], forms=False)]
    progs += [(p, rng.choice(subs)) for p in random_programs(rng, 300 if THOROUGH else 80, ns=(2, 3, 4), length=(3, 10), max_split=4, p_sym=0.0, consts=tuple(range(-18, 19, 2)))]

    rng.shuffle(progs)

    def record(p, sub, kind, via):
        p = p["far"][0] if "far" in p else p
        c = build(p, GENERIC, kind)
        ids = [id(o) for o in c.ops]
        if via == "resolve":
            b = recs[sub]()
            flat = b._resolve_fallback(c.ops, c.n_qubits)
        elif via == "name":
            BGS.register_backend("qv_rec", recs[sub])
            try:
                if rng.random() < 0.5:
                    c = build_used(p, GENERIC, rng, lambda c: c.run(backend="qv_rec"), kind)
                    ids = [id(o) for o in c.ops]
                flat = c.run(backend="qv_rec")["flat"]
            finally:
                BGS.unregister_backend("qv_rec")
        else:
            b = recs[sub]()
            if rng.random() < 0.5:
                # the same backend has run these gates on other registers before
                for m in rng.sample(range(c.n_qubits + 3), 2):
                    guarded(b.run, c.ops, m)
            flat = c.run(backend=b)["flat"]
        if [id(o) for o in c.ops] != ids:
            raise RuntimeError("running on a partial backend changed the circuit")
        if any(g.lowername not in sub for g in flat):
            raise RuntimeError("the backend received a gate it does not implement")
        return flat
    has_resolve = hasattr(recs[subs[0]], "_resolve_fallback")
    cases, src = [], []
    for i, (p, sub) in enumerate(progs):
        via = ("object", "name", "object", "resolve" if has_resolve else "object")[i % 4]
        flat, err = guarded(record, p, sub, "lin" if i % 2 else 0, via)
        chk.trace()
        if err is not None:
            chk.violation(f"{err!r} for {short_prog(p)} on a backend with {sorted(set(sub) - set(NEEDED))}", {"prog": p, "native": sub})
            continue
        try:
            fl = flat_ops(flat, enc, p["far"][0]["n"] if "far" in p else p["n"])
            if "far" in p:
                fl = back(fl, p["far"][1])
        except KeyError as e:
            chk.violation(f"{e} in the decomposition of {short_prog(p)}", {"prog": p, "native": sub})
            continue
        cases.append({"n": p["n"], "phase": True, "l": {"k": "ops", "ops": p["ops"]}, "r": {"k": "ops", "ops": fl}})
        src.append((p, sub, fl))
    verdicts, r = tlc_equiv(cases)
    chk.tlc_stats(r)
    chk.count("symbolic_identities", len(cases))
    for v, (p, sub, fl) in zip(verdicts, src):
        if v != "same":
            chk.violation(f"{short_prog(p)} reaches a backend as {fmt_ops(fl)[:14]}, another circuit ({v})", {"prog": p, "native": sub, "flat": fl})
    # measurements and resets keep their place
    batch, src = [], []
    for _ in range(200 if THOROUGH else 60):
        n = rng.choice((1, 2, 3))
        g = Gen(rng, n, max_split=3, cstep=2)
        ops = g.ops(rng.randint(1, 5))
        for _ in range(rng.randint(1, 2)):
            ops.insert(rng.randint(0, len(ops)), {"g": rng.choice(["measure", "m", "reset"]), "p": [], "t": g.one_target(n)[0]})
        p, sub = {"n": n, "ops": ops}, rng.choice(subs)
        flat, err = guarded(record, p, sub, 0, "object")
        chk.trace()
        if err is not None:
            chk.violation(f"{err!r} for {short_prog(p)}", p)
            continue
        try:
            fl = flat_ops(flat, enc, n)
        except KeyError as e:
            chk.violation(f"{e} in the decomposition of {short_prog(p)}", p)
            continue
        batch += [p, {"n": n, "ops": fl}]
        src.append((p, fl))
    terms, r = tlc_programs(batch)
    chk.tlc_stats(r)
    for i, (p, fl) in enumerate(src):
        a, b = (terminals(t, GENERIC, p["n"]) for t in terms[2 * i:2 * i + 2])
        if not same_terminals(a, b):
            chk.violation(f"{short_prog(p)} reaches a backend as {fmt_ops(fl)}: other outcomes", {"prog": p, "flat": fl})
    # a gate that can't be run raises; one that can be after all is equivalent
    cases, src = [], []
    for miss in NEEDED:
        sub = tuple(g for g in NEEDED if g != miss)
        rc = recorder(sub)
        for g in NATIVE:
            n = Gen.arity(g)
            if g in ("measure", "reset"):
                if g != miss:
                    continue
            p = {"n": n, "ops": [{"g": "h", "p": [], "t": T_int(0)}] * (miss != "h") + [{"g": g, "p": sym_params(g) if g in NPARAM else [], "t": place_t(tuple(range(n)))}]}
            ctx, err = guarded(lambda: build(p, GENERIC, "lin").run(backend=rc()))
            chk.trace()
            if err is None:
                if g in ("measure", "reset") or any(x.lowername not in sub for x in ctx["flat"]):
                    chk.violation(f"gate {g} without action or decomposition is accepted by a backend without {miss}", [g, miss])
                    continue
                cases.append({"n": n, "phase": True, "l": {"k": "ops", "ops": p["ops"]}, "r": {"k": "ops", "ops": flat_ops(ctx["flat"], enc, n)}})
                src.append((p, miss))
    verdicts, r = tlc_equiv(cases)
    chk.tlc_stats(r)
    for v, (p, miss) in zip(verdicts, src):
        if v != "same":
            chk.violation(f"{short_prog(p)} reaches a backend without {miss} as another circuit ({v})", [p, miss])

    # user-defined gates: fallback is used when needed, recursively; none -> error
    from blueqat.gate import HGate, CXGate, U3Gate

    class G0(OneQubitGate):
        lowername = "qvg_none"

    class G1(OneQubitGate):
        lowername = "qvg_one"

        def fallback(self, n_qubits):
            return [G2(t) for t in self.target_iter(n_qubits)]

    class G2(OneQubitGate):
        lowername = "qvg_two"

        def fallback(self, n_qubits):
            return [x for t in self.target_iter(n_qubits) for x in (HGate(t), U3Gate(t, 0.5, 0.25, -0.125))]
    for name, cls in (("qvg_none", G0), ("qvg_one", G1), ("qvg_two", G2)):
        BGS.register_gate(name, cls)
    try:
        for sub in (NEEDED, NEEDED + ("qvg_two",), NEEDED + ("qvg_one",), NEEDED + ("qvg_none",)):
            rc = recorder(sub)
            flat, err = guarded(lambda: Circuit(2).x[0].qvg_one[:].x[1].run(backend=rc())["flat"])
            tg = lambda g: list(g.target_iter(2))
            got = None if err else [(g.lowername, t, tuple(g.params)) for g in flat for t in tg(g)]
            u = (0.5, 0.25, -0.125)
            mid = [("qvg_one", 0, ()), ("qvg_one", 1, ())] if "qvg_one" in sub else \
                [("qvg_two", 0, ()), ("qvg_two", 1, ())] if "qvg_two" in sub else \
                [("h", 0, ()), ("u3", 0, u), ("h", 1, ()), ("u3", 1, u)]
            chk.trace()
            if got != [("x", 0, ())] + mid + [("x", 1, ())]:
                chk.violation(f"user-defined gate reaches a backend with {sub[len(NEEDED):]} as {got} ({err!r})", str(got))
            _, err = guarded(lambda: Circuit(1).qvg_none[0].run(backend=rc()))
            if (err is None) != ("qvg_none" in sub):
                chk.violation(f"user-defined gate without decomposition: {err!r} on {sub[len(NEEDED):]}", str(sub))
            for be in ("numpy", "qasm_output", "sympy_unitary"):
                _, err = guarded(lambda: Circuit(1).x[0].qvg_none[0].run(backend=be))
                if err is None:
                    chk.violation(f"backend {be} silently accepts a gate it can't run", be)
        ref = Circuit(2).x[0].h[0].u3(0.5, 0.25, -0.125)[0].h[1].u3(0.5, 0.25, -0.125)[1].run()
        for f in (lambda: Circuit(2).x[0].qvg_one[:].run(),):
            got, err = guarded(f)
            if err is not None or dist_phase(got, ref) > 1e-9:
                chk.violation(f"user-defined gate on the simulator: {err!r}", "qvg_one")
    finally:
        for name in ("qvg_none", "qvg_one", "qvg_two"):
            BGS.unregister_gate(name)
    # arguments
    log = []
    Base = recorder(NEEDED)

    class ArgB(Base):
        def run(self, gates, n_qubits, *args, **kwargs):
            log.append(("run", list(gates), n_qubits, args, kwargs))
            return super().run(gates, n_qubits, *args, **kwargs)

        def make_cache(self, gates, n_qubits):
            log.append(("make_cache", list(gates), n_qubits))
            return "cached"
    BGS.register_backend("qv_args", ArgB)
    try:
        for k in range(120):
            n = rng.choice((0, 1, 3))
            c = Circuit(n)
            for _ in range(rng.randint(0, 3)):
                c.h[rng.randint(0, 3)]
            args = tuple(rng.choice([1, "a", None, [1], 2.5, (), {"x": 1}]) for _ in range(rng.randint(0, 3)))
            kw = {w: rng.choice([0, None, "statevector", [2], object()]) for w in rng.sample(["shots", "returns", "foo", "name", "ctx", "n", "token", "gate", "ignore_global"], rng.randint(0, 4))}
            how = rng.choice(["name", "default", "run_with", "object", "cache", "cache_default"])
            del log[:]
            chk.trace()
            if how == "name":
                res, err = guarded(lambda: c.run(*args, backend="qv_args", **kw))
            elif how == "default":
                c.set_default_backend("qv_args")
                res, err = guarded(lambda: c.run(*args, **kw))
            elif how == "run_with":
                res, err = guarded(lambda: c.run_with_qv_args(*args, **kw))
            elif how == "object":
                res, err = guarded(lambda: c.run(*args, backend=ArgB(), **kw))
            else:
                if how == "cache_default":
                    c.set_default_backend("qv_args")
                res, err = guarded(lambda: c.make_cache(**({"backend": "qv_args"} if how == "cache" else {})))
                want = [("make_cache", c.ops, c.n_qubits)]
                if err is not None or log != want:
                    chk.violation(f"make_cache reaches the backend as {log!r} ({err!r})", how)
                continue
            if err is not None or log != [("run", c.ops, c.n_qubits, args, kw)] or res["args"] != args or res["kwargs"] != kw or res["n"] != c.n_qubits:
                chk.violation(f"run({args!r}, {kw!r}) by {how} reaches the backend as {log!r} ({err!r})"[:500], [how, str(args), str(kw)])
    finally:
        BGS.unregister_backend("qv_args")
    for p, _ in progs[-4:]:
        chk.sample(short_prog(p))
