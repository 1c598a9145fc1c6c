"""C19: immutable operation lists.  Behaviours of OpsTree.tla (branching derivations of
values, calls that fail, circuits made from values and used) are replayed on real Ops
values; at the end every value made on the way has to be what the specification says.
circuit_to_unitary is compared with the exact unitary of Programs.tla (Choi run)."""
from qv import *
from unitary import *
from history import op_table, VALS, key_of

CFG = "SPECIFICATION Spec\nINVARIANT Bounded\nPROPERTY Persistent\nCHECK_DEADLOCK FALSE\n"
GATES = [g for g in ALLG if g not in ("rxx", "ryy", "rzz", "cswap", "reset")]
BAD = [(n, f) for n, f in {
    'h["a"]': lambda o: o.h["a"], "h[1.5]": lambda o: o.h[1.5], "h[None]": lambda o: o.h[None],
    "h[7,'a']": lambda o: o.h[7, "a"], "cx[0]": lambda o: o.cx[0], "cx[0,0]": lambda o: o.cx[0, 0],
    "rx[9] without angle": lambda o: o.rx[9], "u3(1)[8]": lambda o: o.u3(1.0)[8], "nosuchgate": lambda o: o.nosuchgate[0],
    "ccx[0,1]": lambda o: o.ccx[0, 1], "cx[0,1,2]": lambda o: o.cx[0, 1, 2], "+1": lambda o: o + 1, "+circuit": lambda o: o + o.to_circuit(),
    "set n_qubits": lambda o: setattr(o, "n_qubits", 99), "set ops": lambda o: setattr(o, "ops", ()), "crz[5,2]": lambda o: o.crz[5, 2],
}.items()]


def ofp(o):
    return (o.n_qubits, [(g.lowername, tuple(float(x) for x in g.params), repr(g.targets)) for g in o.ops])


def replay(tab, rec, expect, rng):
    from blueqat import Circuit
    from blueqat.experimental import Ops
    vals = [Ops() if rng.random() < 0.5 else Ops(0)]
    fps = [ofp(vals[0])]
    log = []

    def bad(what):
        return f"{what} after [{'; '.join(log)}] with operations {fmt_ops(tab)}"
    for e in rec["h"]:
        log.append(" ".join(str(v) for v in e.values()))
        a, new = e["a"], None
        o = vals[e["v"] - 1] if "v" in e else None
        if a == "new":
            new = Ops(e["n"])
        elif a == "append":
            new, err = guarded(append_op, o, tab[e["i"] - 1], VALS)
            if err is not None:
                return bad(f"append raised {err!r}")
        elif a == "add":
            w = vals[e["w"] - 1]
            if rng.random() < 0.3:
                new = o
                new += w
            else:
                new, err = guarded(lambda: o + w)
                if err is not None:
                    return bad(f"+ raised {err!r}")
        elif a == "dagger":
            r, err = guarded(o.dagger)
            if e["raises"]:
                if not isinstance(err, ValueError):
                    return bad(f"dagger of a value with measurement gave {r!r} {err!r}")
            elif err is not None:
                return bad(f"dagger raised {err!r}")
            else:
                new = r
        elif a == "bad":
            name, f = BAD[e["i"] - 1]
            r, err = guarded(f, o)
            if err is None and isinstance(r, Ops):
                c, err = guarded(lambda: r.to_circuit().run())
                if err is None:
                    return bad(f"invalid call {name} neither fails nor makes run fail")
        elif a == "circuit":
            c, err = guarded(o.to_circuit)
            if err is not None or type(c) is not Circuit or c.n_qubits != o.n_qubits:
                return bad(f"to_circuit gave {c!r} {err!r}")
            k = e["k"]
            warnings.simplefilter("ignore")
            if k == "append":
                guarded(append_op, c, tab[e["i"] - 1], VALS)
            elif k == "run":
                guarded(c.run)
            elif k == "iadd":
                guarded(c.__iadd__, o.to_circuit())
            elif k == "cache":
                guarded(c.make_cache)
                guarded(c.copy().run, shots=2)
            elif isinstance(c.ops, list):
                c.ops.clear()
        if new is not None:
            if not isinstance(new, Ops):
                return bad(f"result is {new!r}, not an Ops")
            vals.append(new)
            fps.append(ofp(new))
        for i, (v, fp) in enumerate(zip(vals, fps)):
            if ofp(v) != fp:
                return bad(f"value {i + 1} changed from {fp} to {ofp(v)}")
    if len(vals) != len(rec["v"]):
        raise MachineryError("replay lost values")
    for i, (v, sp) in enumerate(zip(vals, rec["v"])):
        if v.n_qubits != sp["n"]:
            return bad(f"value {i + 1} has {v.n_qubits} qubits instead of {sp['n']}")
        want = expect[key_of(id(tab), sp)]
        if want is None:
            continue
        for _ in range(2):
            c = v.to_circuit()
            if c.n_qubits != sp["n"]:
                return bad(f"circuit of value {i + 1} has {c.n_qubits} qubits")
            if want[0] is None:
                _, err = guarded(c.run)
                if err is None:
                    return bad(f"circuit of value {i + 1} with invalid targets runs")
                break
            g, err = guarded(lambda: c.run())
            if err is not None:
                return bad(f"circuit of value {i + 1} raised {err!r}")
            ph = any(tab[j - 1]["g"] == "cu1" for j, _ in sp["ops"])
            ok = False
            for _, w in want:
                nw = np.linalg.norm(w)
                if nw > 1e-7 and (dist_phase if ph else dist)(g, w / nw) < 1e-8:
                    ok = True
                    break
            if not ok:
                return bad(f"circuit of value {i + 1} gives {np.round(g, 4)}")
    return None


def evaluate(groups, chk):
    keys, progs = {}, []
    for tab, recs in groups:
        for rec in recs:
            for c in rec["v"]:
                k = key_of(id(tab), c)
                if k in keys:
                    continue
                ops = [(tab[i - 1], d) for i, d in c["ops"]]
                nm = sum(3 if o["t"]["k"] != "i" else 1 for o, d in ops if o["g"] in ("measure", "m", "reset"))
                split = sum(SPLIT.get(o["g"], 0) * (1 if o["t"]["k"] == "i" else 2) for o, d in ops if any(any(q) for q, _ in o["p"]))
                if nm > 6 or split > 14:
                    keys[k] = None
                    continue
                keys[k] = len(progs)
                progs.append({"n": c["n"], "ops": [], "k": ops})
    terms, r = tlc_programs(progs)
    chk.tlc_stats(r)
    chk.count("values", len(progs))
    return {k: None if i is None else [(tuple(t["c"]), state_eval(t, VALS, 2 ** k[1])) if t["ok"] else None for t in terms[i]]
            for k, i in keys.items()}


def unitaries(chk, rng):
    from blueqat import Circuit
    from blueqat.experimental.utils import circuit_to_unitary
    from blueqat.backends.numpy_backend import NumPyBackend
    k = 4 if THOROUGH else 1
    progs = systematic(1, prefix_ops=lambda n: []) + systematic(2, prefix_ops=lambda n: [])[::2]
    progs += multi_targets(2, prefix_ops=lambda n: [], every=2) + multi_targets(3, prefix_ops=lambda n: [], every=1 if THOROUGH else 4)
    progs += random_programs(rng, 110 * k, ns=(1, 2, 2, 3), length=(1, 8), max_split=5)
    progs += random_programs(rng, 40 * k, ns=(1, 2, 3), length=(3, 14), p_sym=0.0, max_split=8)
    progs += random_programs(rng, 14 * k, ns=(4,), length=(3, 14), max_split=2)
    progs += random_programs(rng, 4 * k, ns=(5,), length=(3, 14), max_split=1)
    progs += long_programs(rng, 8 * k, ns=(1, 2), length=(20, 70), syms=2)
    progs += [{"n": n, "ops": []} for n in (0, 1, 2, 3, 4)]
    progs += [{"n": 3, "ops": [{"g": "x", "p": [], "t": T_int(0)}]}, {"n": 3, "ops": [{"g": "h", "p": [], "t": T_slice()}]},
              {"n": 2, "ops": [{"g": "h", "p": [], "t": T_int(-1)}]}]
    terms, r = tlc_programs([{**p, "x": -1} for p in progs])
    chk.tlc_stats(r)
    chk.count("unitaries", len(progs))
    for p, t in zip(progs, terms):
        n = p["n"]
        for vals in val_sets(rng, 1):
            want = choi_to_matrix(state_eval(t[0], vals, 4 ** n), n)
            c = build(p, vals) if rng.random() < 0.7 else build_used(p, vals, rng, circuit_to_unitary)
            before = ofp(c)
            kw = rng.choice([{}, {}, {"backend": "numpy"}, {"backend": NumPyBackend()}, {"ignore_global": True}])
            if rng.random() < 0.4:
                c.run()
            got, err = guarded(circuit_to_unitary, c, **kw)
            chk.trace()
            if err is not None or np.shape(got) != want.shape:
                chk.violation(f"circuit_to_unitary gives {err!r} {np.shape(got)} for {short_prog(p)}", p)
                continue
            if ofp(c) != before:
                chk.violation(f"circuit_to_unitary changed {short_prog(p)}", p)
            got2 = circuit_to_unitary(c)
            ph = phase_free(p) or "ignore_global" in kw

            def d(a):
                a = np.asarray(a)
                if not ph:
                    return dist(a.ravel(), want.ravel())
                return max(dist_phase(a[:, j], want[:, j]) for j in range(2 ** n))
            if d(got) > 1e-9 or d(got2) > 1e-9:
                chk.violation(f"circuit_to_unitary of {short_prog(p)} at {vals.v} {kw} is {np.round(got, 4)}", {"prog": p, "vals": vals.v})


def run(chk):
    import blueqat.experimental
    rng = chk.rng
    groups = []
    for k in range(24 if THOROUGH else 8):
        maxn = rng.choice((2, 3, 3, 4))
        tab = op_table(rng, maxn, 10, meas=k % 3 != 2, gates=GATES)
        if k % 3 != 2:
            tab[1] = {"g": "measure", "p": [], "t": T_int(rng.randrange(maxn))}
        data = {"ops": [op_json(o) for o in tab], "bad": len(BAD), "maxops": 6, "maxn": maxn, "depth": 16, "sizes": [0, 1, maxn]}
        r = tlc("OpsTree", CFG, data, simulate=80 if THOROUGH else 40, depth=19, seed=rng.randrange(1, 10 ** 6), workers=1)
        chk.tlc_stats(r)
        groups.append((tab, r.records))
    ex = evaluate(groups, chk)
    for tab, recs in groups:
        for rec in recs:
            e = replay(tab, rec, ex, rng)
            chk.trace()
            chk.count("steps", len(rec["h"]))
            if e:
                chk.violation(e, {"table": tab, "history": rec["h"]})
    unitaries(chk, rng)
    chk.sample([" ".join(map(str, e.values())) for e in groups[0][1][0]["h"]])
