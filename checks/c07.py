"""C07: dagger() is the inverse.  (A) gate lists produced by the real dagger() with
symbolic angles are validated by TLC against the specification's inverse for all angles;
(B) the real inverse circuits are run after a generic state and compared with TLC."""
from qv import *
from unitary import *


def snapshot(c):
    return (c.n_qubits, [(g.lowername, tuple(float(x) for x in g.params), repr(g.targets)) for g in c.ops])


def run(chk):
    from blueqat import Circuit
    rng = chk.rng
    tlc_r = tlc("GateLaws", open(SPEC + "/MCGateLaws.cfg").read())
    chk.tlc_stats(tlc_r)
    progs = []
    for n in (1, 2, 3):
        progs += systematic(n, prefix_ops=lambda n: [])
    progs += multi_targets(2, prefix_ops=lambda n: []) + multi_targets(3, prefix_ops=lambda n: [], every=1 if THOROUGH else 2)
    progs += random_programs(rng, 400 if THOROUGH else 120, ns=(1, 2, 3), length=(2, 7), max_split=5)
    progs += long_programs(rng, 60 if THOROUGH else 16)
    progs += [{**p, "far": far(p, rng)} for p in random_programs(rng, 120 if THOROUGH else 30, ns=(1, 2, 3), length=(2, 7), max_split=5, forms=False)]
    bprogs = long_programs(rng, 30 if THOROUGH else 8) + random_programs(rng, 300 if THOROUGH else 90, ns=(1, 2, 3, 4), length=(2, 8), max_split=5) + \
        random_programs(rng, 100 if THOROUGH else 40, ns=(2, 3, 4), length=(3, 14), p_sym=0.0, max_split=7) + \
        systematic(2, prefix_ops=lambda n: []) + systematic(3, prefix_ops=lambda n: [], gates=THREEQ + ["cu3", "u3", "u2", "cu2"])
    # --- A: symbolic extraction
    cases, src = [], []
    for p in progs:
        def mk():
            c = build(p["far"][0] if "far" in p else p, GENERIC, "lin")
            d = c.dagger()
            return c, d, d.dagger()
        res, err = guarded(mk)
        chk.trace()
        if err is not None:
            chk.violation(f"dagger raised {err!r} for {short_prog(p)}", p)
            continue
        c, d, dd = res
        if d.n_qubits != c.n_qubits or dd.n_qubits != c.n_qubits:
            chk.violation(f"dagger changed the number of qubits for {short_prog(p)}", p)
        try:
            enc = Encoder(GENERIC)
            dl, ddl = gate_ops(d.ops, enc, c.n_qubits), gate_ops(dd.ops, enc, c.n_qubits)
        except Exception as e:
            chk.count("not_symbolic")
            if "far" not in p:
                bprogs.append(p)
            continue
        if "far" in p:
            res, err = guarded(lambda: (back(dl, p["far"][1]), back(ddl, p["far"][1])))
            if err is not None:
                chk.violation(f"the inverse of {short_prog(p['far'][0])} acts on other qubits: {fmt_ops(dl)}", p)
                continue
            dl, ddl = res
        cases.append({"n": p["n"], "phase": False, "l": {"k": "dagger", "ops": p["ops"]}, "r": {"k": "ops", "ops": dl}})
        src.append((p, "dagger", dl))
        if rng.random() < 0.5:
            cases.append({"n": p["n"], "phase": False, "l": {"k": "ops", "ops": p["ops"]}, "r": {"k": "ops", "ops": ddl}})
            src.append((p, "dagger of dagger", ddl))
    verdicts, r = tlc_equiv(cases)
    chk.tlc_stats(r)
    chk.count("symbolic_identities", len(cases))
    for v, (p, what, l) in zip(verdicts, src):
        if v != "same":
            chk.violation(f"{what} of {short_prog(p)} is {fmt_ops(l)}: {v}", {"prog": p, "got": l})
    # --- B: behaviour
    ex = []
    for p in bprogs:
        pre = prefix(p["n"])[: 2 * p["n"] - 1]
        ex.append({"n": p["n"], "ops": pre})
        ex.append({"n": p["n"], "pre": pre, "d": p["ops"]})
    data = [{"n": p["n"], "ops": p["ops"]} if "d" not in p else {"n": p["n"], "ops": p["pre"], "d": p["d"]} for p in ex]
    terms, r = tlc_programs(data)
    chk.tlc_stats(r)
    for i, p in enumerate(bprogs):
        pre, want_rec = ex[2 * i]["ops"], terms[2 * i + 1][0]
        for vals in val_sets(rng, 2) + ([near_vals(rng)] if rng.random() < 0.5 else []):
            def go():
                c = Circuit(p["n"])
                for op in p["ops"]:
                    append_op(c, op, vals)
                before = snapshot(c)
                if rng.random() < 0.5:
                    c.run()
                d = c.dagger()
                if snapshot(c) != before or d is c or d.ops is c.ops:
                    return "dagger changed or returned the original"
                st = Circuit(p["n"])
                for op in pre:
                    append_op(st, op, vals)
                a = (st + d).run()
                b = (st + c + d).run()
                dd = (st + d + d.dagger()).run()
                if rng.random() < 0.3:
                    d.x[0]
                    if snapshot(c) != before:
                        return "extending the inverse changed the original"
                return a, b, dd
            res, err = guarded(go)
            chk.trace()
            if err is not None or isinstance(res, str):
                chk.violation(f"{err if err else res!r} for {short_prog(p)}", {"prog": p, "vals": vals.v})
                break
            a, b, dd = res
            dim = 2 ** p["n"]
            w0 = state_eval(terms[2 * i][0], vals, dim)
            w1 = state_eval(want_rec, vals, dim)
            d1 = dist_phase(a, w1) if phase_free(p) else dist(a, w1)
            if max(d1, dist(b, w0), dist(dd, w0)) > 1e-9:
                chk.violation(f"inverse wrong for {short_prog(p)} at {vals.v}: {d1:.2g} {dist(b, w0):.2g} {dist(dd, w0):.2g}",
                              {"prog": p, "vals": vals.v})
                break
    # --- C: measurement and reset
    for _ in range(60):
        n = rng.choice((1, 2, 3))
        g = Gen(rng, n, max_split=4)
        ops = g.ops(rng.randint(0, 5))
        k = rng.randint(1, 2)
        full = list(ops)
        for _ in range(k):
            full.insert(rng.randint(0, len(full)), {"g": rng.choice(["measure", "reset", "m"]), "p": [], "t": g.one_target(n)[0]})
        vals = val_sets(rng, 1)[0]
        chk.trace()
        c = build({"n": n, "ops": full}, vals)
        before = snapshot(c)
        _, err = guarded(c.dagger)
        if not isinstance(err, ValueError):
            chk.violation(f"dagger of a circuit with measurement: {err!r} instead of ValueError: {fmt_ops(full)}", full)
        d, err = guarded(c.dagger, ignore_measurement=True)
        ref = build({"n": n, "ops": ops}, vals).dagger()
        if err is not None or snapshot(c) != before or \
                any(x.lowername in ("measure", "reset") for x in d.ops) or \
                dist(d.run(), ref.run()) > 1e-9 or d.n_qubits != c.n_qubits:
            chk.violation(f"dagger(ignore_measurement=True) wrong for {fmt_ops(full)}: {err!r}", full)
    chk.sample(short_prog(progs[-1]))
    chk.sample(short_prog(bprogs[0]))
