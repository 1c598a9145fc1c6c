"""C08: exported OpenQASM, read with qelib1.inc, denotes the circuit (all angles, TLC)."""
from qv import *
from unitary import *
import qasm as Q


def parse(text, **kw):
    n, lines = Q.parse(text, **kw)
    Q.check_shape(lines)
    return n, lines


def terminals(recs, vals, n):
    return [(tuple(r["c"]), state_eval(r, vals, 2 ** n)) for r in recs]


def same_terminals(a, b):
    if len(a) != len(b):
        return False
    b = list(b)
    for c, v in a:
        for i, (c2, w) in enumerate(b):
            if c == c2 and abs(np.linalg.norm(v) - np.linalg.norm(w)) < 1e-9 and \
                    (np.linalg.norm(v) < 1e-7 or dist_phase(v, w) < 1e-8):
                del b[i]
                break
        else:
            return False
    return True


def has_slice(t):
    return t["k"] == "s" or t["k"] == "t" and any(map(has_slice, t["v"]))


def shown(p):
    return short_prog(p["far"][0] if "far" in p else p)


def run(chk):
    from blueqat import Circuit
    rng = chk.rng
    enc = Encoder(GENERIC)
    progs = []
    for n in (1, 2, 3):
        progs += systematic(n, gates=ALLG, prefix_ops=lambda n: [])
    progs += random_programs(rng, 500 if THOROUGH else 150, ns=(1, 2, 3), length=(2, 8), max_split=5, cstep=2)
    progs += random_programs(rng, 200 if THOROUGH else 60, ns=(2, 3), length=(3, 10), max_split=5, p_sym=0.0,
                             consts=tuple(range(-18, 19, 2)))
    progs += multi_targets(3, prefix_ops=lambda n: [])[:: 1 if THOROUGH else 2]
    progs += long_programs(rng, 60 if THOROUGH else 14, cstep=2)
    # scattered wires of large registers
    plain = random_programs(rng, 200 if THOROUGH else 50, ns=(1, 2, 3), length=(1, 7), max_split=5, cstep=2, forms=False)
    progs += [{**p, "far": far(p, rng)} for p in plain]
    # angles that are nearly special: nothing may be rounded
    nears = [near_vals(rng) for _ in range(12 if THOROUGH else 4)]
    encs = {v: Encoder(v) for v in nears}
    near = random_programs(rng, 200 if THOROUGH else 60, ns=(1, 2, 3), length=(1, 6), max_split=5, cstep=2, p_sym=0.9)
    cases, src = [], []

    def export(p, vals, kind=0):
        p, wire = p.get("far", (p, None))
        c = build(p, vals, kind) if rng.random() < 0.6 else build_used(p, vals, rng, lambda c: c.to_qasm(), kind)
        before = (c.n_qubits, [id(o) for o in c.ops])
        full = c.to_qasm()
        body = c.to_qasm(output_prologue=False)
        if (c.n_qubits, [id(o) for o in c.ops]) != before:
            raise Q.QasmError("to_qasm changed the circuit")
        n, lines = parse(full)
        if n != p["n"]:
            raise Q.QasmError(f"register of {n} qubits for a circuit of {p['n']}")
        _, blines = parse(body + ("" if body.strip() == "" or body.rstrip().endswith(";") or "//" in body.splitlines()[-1] else ";"),
                          prologue=False, n=n) if body.strip() else (n, [])
        if blines != lines:
            raise Q.QasmError("without prologue the statements differ")
        return full, back(lines, wire, "q") if wire else lines
    for i, p in enumerate(progs + near):
        vals = GENERIC if i < len(progs) else nears[i % len(nears)]
        ec = enc if i < len(progs) else encs[vals]
        res, err = guarded(export, p, vals, "lin" if i % 5 == 0 and vals is GENERIC else 0)
        chk.trace()
        if err is not None:
            chk.violation(f"{err!r} for {shown(p)}", p)
            continue
        text, lines = res
        try:
            sl = [{"g": l["g"], "p": [ec.enc_deep(x) for x in l["p"]], "q": l["q"]} for l in lines]
        except KeyError as e:
            chk.violation(f"{e} in {text.splitlines()[4:][:12]} for {shown(p)}", {"prog": p, "qasm": text})
            continue
        cases.append({"n": p["n"], "phase": True, "l": {"k": "ops", "ops": p["ops"]}, "r": {"k": "qasm", "ops": sl}})
        src.append((p, text))
    verdicts, r = tlc_equiv(cases)
    chk.tlc_stats(r)
    chk.count("symbolic_identities", len(cases))
    for v, (p, text) in zip(verdicts, src):
        if v != "same":
            chk.violation(f"QASM of {shown(p)} denotes another circuit ({v}): {text.splitlines()[4:][:14]}", {"prog": p, "qasm": text})
    # measurement and reset: all terminal states of program and of its text
    mp = []
    for _ in range(300 if THOROUGH else 90):
        n = rng.choice((1, 2, 3))
        g = Gen(rng, n, max_split=4, cstep=2)
        ops = g.ops(rng.randint(1, 5))
        for _ in range(rng.randint(1, 3)):
            ops.insert(rng.randint(0, len(ops)), {"g": rng.choice(["measure", "measure", "m", "reset"]), "p": [], "t": g.one_target(n)[0]})
        p = {"n": n, "ops": ops}
        if sum(len(list(range(n))) for o in ops if o["g"] in ("measure", "m", "reset")) <= 8:
            mp.append(p if len(mp) % 3 or any(has_slice(o["t"]) for o in ops) else {**p, "far": far(p, rng)})
    batch, src = [], []
    for p in mp:
        res, err = guarded(export, p, GENERIC)
        chk.trace()
        if err is not None:
            chk.violation(f"{err!r} for {shown(p)}", p)
            continue
        text, lines = res
        try:
            sl = [{"g": l["g"], "p": [enc.enc_deep(x) for x in l["p"]], "q": l["q"]} for l in lines]
        except KeyError as e:
            chk.violation(f"{e} for {shown(p)}", {"prog": p, "qasm": text})
            continue
        batch += [{"n": p["n"], "ops": p["ops"]}, {"n": p["n"], "ops": [], "l": sl}]
        src.append((p, text))
    terms, r = tlc_programs(batch)
    chk.tlc_stats(r)
    for i, (p, text) in enumerate(src):
        a, b = terms[2 * i], terms[2 * i + 1]
        if not same_terminals(terminals(a, GENERIC, p["n"]), terminals(b, GENERIC, p["n"])):
            chk.violation(f"QASM of {shown(p)} has other outcomes: {text.splitlines()[4:]}", {"prog": p, "qasm": text})
    # empty registers and unsupported gates
    for n in (0, 1, 3):
        res, err = guarded(export, {"n": n, "ops": []}, GENERIC)
        if err is not None or res[1] != []:
            chk.violation(f"QASM of the empty circuit on {n} qubits: {err!r}", n)
    c = Circuit(3).h[0]
    wrapper(c, "ccz")[0, 1, 2]
    txt, err = guarded(c.to_qasm)
    if err is None:
        lines, err2 = guarded(parse, txt)
        if err2 is not None:
            chk.violation("ccz is exported as text that is not OpenQASM: " + txt, txt)
        else:
            ver, r = tlc_equiv([{"n": 3, "phase": True,
                                 "l": {"k": "ops", "ops": [{"g": "h", "p": [], "t": T_int(0)}, {"g": "ccz", "p": [], "t": place_t((0, 1, 2))}]},
                                 "r": {"k": "qasm", "ops": [{"g": l["g"], "p": [enc.enc_deep(x) for x in l["p"]], "q": l["q"]} for l in lines[1]]}}])
            if ver[0] != "same":
                chk.violation("ccz is exported as another circuit: " + txt, txt)
    # full precision of arbitrary doubles
    for _ in range(200):
        x = rng.choice([rng.uniform(-10, 10), rng.uniform(-1, 1) * 10.0 ** rng.randint(-12, 3), math.pi / 3, -math.pi * 7 / 5])
        res, err = guarded(lambda: Q.parse(Circuit().rz(x)[0].u3(x, 0.1, -x)[1].to_qasm())[1])
        chk.trace()
        if err is None and len(res) == 2 and res[0]["g"] == "rz" and res[1]["g"] == "u3":
            got = [res[0]["p"][0], res[1]["p"][0], -res[1]["p"][2]]
            if any(abs(y - x) > 1e-14 * max(1, abs(x)) for y in got) or res[1]["p"][1] != 0.1:
                chk.violation(f"angle {x!r} exported as {got}", x)
        elif err is not None:
            chk.violation(f"{err!r} for angle {x!r}", x)
    # cu2 is emitted as a statement that qelib1.inc does not define
    txt = Circuit().cu2(0.3, 0.4)[0, 1].to_qasm()
    if "cu2" in txt:
        chk.violation("to_qasm emits cu2, which qelib1.inc does not define", txt, key="qasm-cu2")
    for p in progs[-3:] + mp[-2:]:
        chk.sample(short_prog(p))
