"""C09: to_unitary() is the circuit's matrix.  The specification computes the whole unitary
exactly (Choi state, symbolic angles); the real symbolic matrix is evaluated at numeric
values of the same symbols and compared entry by entry, global phase included."""
from qv import *
from unitary import *


def run(chk):
    import sympy
    from blueqat import Circuit
    rng = chk.rng
    progs = []
    for n in (1, 2, 3):
        pr = systematic(n, prefix_ops=lambda n: [])
        progs += pr if n < 3 or THOROUGH else [p for p in pr if rng.random() < 0.6 or p["ops"][0]["g"] in THREEQ + ["cu3", "crz"]]
    k = 6 if THOROUGH else 1
    progs += random_programs(rng, 130 * k, ns=(1, 2, 2, 3), length=(2, 6), max_split=5)
    progs += random_programs(rng, 60 * k, ns=(1, 2, 3), length=(3, 8), p_sym=0.0, max_split=6, consts=tuple(range(-17, 18)))
    progs += [{"n": n, "ops": []} for n in (0, 1, 2)]
    progs += multi_targets(2, prefix_ops=lambda n: [], every=1 if THOROUGH else 2) + multi_targets(3, prefix_ops=lambda n: [], every=1 if THOROUGH else 3)
    # permutations with phases: matrices with many zeros on the diagonal
    mono = []
    for p in random_programs(rng, 60 * k, ns=(2, 2, 3, 3), length=(2, 6), gates=["x", "x", "cx", "cx", "swap", "ccx", "cswap", "s", "z"], max_split=0):
        tail = rng.sample(range(p["n"]), rng.choice((1, 2)))
        mono.append({"n": p["n"], "mono": 1, "ops": p["ops"] + [{"g": rng.choice(("rz", "u1", "phase")), "p": [((0, 0, 0), rng.choice((1, 2, 3, 5)))], "t": T_int(q)} for q in tail]})
    progs += mono
    # ccz has no meaning for this backend
    progs = [p for p in progs if not has_gate(p, ("ccz",))]
    data = [{"n": p["n"], "x": -1, "ops": p["ops"]} for p in progs]
    terms, r = tlc_programs(data)
    chk.tlc_stats(r)
    chk.count("programs", len(progs))
    names = [("a0", "a1", "a2"), ("theta", "phi", "lambd"), ("phi", "lambd", "theta"), ("lambd", "theta", "x")]

    def sym_angle(p, syms):
        q, c = p
        return sum((sympy.Rational(x, 4) * s for x, s in zip(q, syms)), sympy.Integer(0)) + sympy.pi * c / 4

    funcs = {"exp": np.exp, "cos": np.cos, "sin": np.sin, "Abs": np.abs, "conjugate": np.conj, "tan": np.tan,
             "re": np.real, "im": np.imag, "sign": lambda z: z / abs(z) if z else 0}

    def evaluate(m, syms, vals):
        """numeric value of a symbolic matrix (shared subexpressions once; no lambdify, which
        takes very long for the large rationals that nsimplify makes)"""
        memo = {s: complex(v) for s, v in zip(syms, vals)}

        def ev(e):
            r = memo.get(e)
            if r is None:
                if e.is_Add:
                    r = sum(ev(x) for x in e.args)
                elif e.is_Mul:
                    r = 1
                    for x in e.args:
                        r = r * ev(x)
                elif e.func.__name__ == "exp":
                    r = np.exp(ev(e.args[0]))
                elif e.is_Pow:
                    x = ev(e.args[1])
                    b = ev(e.args[0])
                    r = b ** int(x.real) if x == int(x.real) and (b != 0 or x.real >= 0) else b ** x if b != 0 else complex("nan")
                elif e.func.__name__ in funcs and len(e.args) == 1:
                    r = funcs[e.func.__name__](ev(e.args[0]))
                else:
                    r = complex(e.evalf(20))
                memo[e] = r = complex(r)
            return r
        return np.array([ev(sympy.sympify(e)) for e in m], dtype=complex).reshape(m.shape)

    for i, (p, rec) in enumerate(zip(progs, terms)):
        rec = rec[0]
        n = p["n"]
        dim = 2 ** n
        kind = ("symbol", "float", "symbol", "special", "mixed")[i % 5]
        syms = [sympy.Symbol(s, real=True) if i % 2 else sympy.Symbol(s) for s in names[i % 4]]
        vlist = [v.v for v in val_sets(rng, 2)] if kind == "symbol" else [val_sets(rng, 1)[0].v] if kind in ("float", "mixed") else [val_sets(rng, 6)[-1].v]

        def make(vals):
            used = rng.random() < 0.25 and len(p["ops"]) < 6
            c = Circuit(rng.choice((n, n, max(0, n - 1), 0)) if used else n)
            for j, op in enumerate(p["ops"]):
                if used and rng.random() < 0.3:
                    guarded(c.to_unitary)
                w = wrapper(c, op["g"])
                if op["p"]:
                    if kind == "symbol" or (kind == "mixed" and j % 2):
                        a = [sym_angle(x, syms) for x in op["p"]]
                    else:
                        a = [angle(x, vals) for x in op["p"]]
                        if j % 3 == 2:
                            a = [np.float64(x) for x in a]
                    w = w(*a)
                w[t_obj(op["t"])]
            c += Circuit(n)
            return c
        how = rng.choice(["to_unitary", "run_with", "backend"])
        ig = "mono" in p and i % 4 or i % 3 == 2 and not any(o["t"]["k"] == "t" and any(x["k"] == "t" for x in o["t"]["v"]) for o in p["ops"]) and (len(p["ops"]) < 3 or n == 1 and len(p["ops"]) < 5)   # large ones are too slow in sympy
        kw = {"ignore_global": True} if ig else {}

        def go():
            c = make(vlist[0])
            ids = [id(o) for o in c.ops]
            if rng.random() < 0.2:
                c.to_unitary()
            m = c.to_unitary(**kw) if how == "to_unitary" else c.run_with_sympy_unitary(**kw) if how == "run_with" else c.run(backend="sympy_unitary", **kw)
            if [id(o) for o in c.ops] != ids:
                raise RuntimeError("to_unitary changed the circuit")
            return m
        t0 = time.time()
        m, err = guarded(go)
        if os.environ.get("VERIF_PROFILE") and time.time() - t0 > 2:
            print(round(time.time() - t0), kind, ig, short_prog(p), flush=True)
        chk.trace()
        if err is not None:
            chk.violation(f"to_unitary raised {err!r} for {short_prog(p)} ({kind})", p)
            continue
        if tuple(m.shape) != (dim, dim):
            chk.violation(f"to_unitary of {short_prog(p)} has shape {m.shape}", p)
            continue
        for vals in vlist:
            want = choi_to_matrix(state_eval(rec, vals, dim * dim), n)
            got, err = guarded(evaluate, m, syms, vals)
            chk.count("matrices_compared")
            if err is not None:
                chk.violation(f"the matrix of {short_prog(p)} can't be evaluated: {err!r}", [p, str(m)])
                break
            if ig:
                if not np.isfinite(got).all() and vals != vlist[0]:
                    # the removed phase is that of an entry which vanishes at this point
                    chk.count("undefined_phase")
                    continue
            d = dist_phase(got, want) if (ig or phase_free(p)) else dist(got, want)
            if d > 1e-8:
                chk.violation(f"to_unitary of {short_prog(p)} is not its matrix (distance {d:.3g} at {vals}, {kind}, ignore_global={ig})",
                              {"prog": p, "vals": vals, "got": str(got), "want": str(want)})
                break
            if ig:
                # the normal form: the first diagonal entry that doesn't vanish is real and positive
                dg = np.abs(np.diag(want))
                if np.any((dg > 1e-12) & (dg < 1e-5)):
                    continue
                chk.count("normal_forms")
                nz = np.flatnonzero(dg > 1e-5)
                if len(nz):
                    z = got[nz[0], nz[0]]
                    bad = abs(z.imag) > 1e-8 or z.real < 0
                else:
                    bad = not phase_free(p) and dist(got, want) > 1e-8
                if bad and (kind != "symbol" or vals == vlist[0]):
                    chk.violation(f"to_unitary(ignore_global=True) of {short_prog(p)} at {vals} ({kind}): the phase that is left isn't that of the first non-zero diagonal entry",
                                  {"prog": p, "vals": vals, "got": str(got), "want": str(want)})
                    break
    # agreement with the real simulator, column by column
    for p, rec in list(zip(progs, terms))[-40:]:
        vals = val_sets(rng, 1)[0]
        n = p["n"]

        def cols():
            u = evaluate(build(p, vals).to_unitary(), (), ())
            out = []
            for j in range(2 ** n):
                c = Circuit(n)
                for b in range(n):
                    if j >> b & 1:
                        c.x[b]
                out.append((c + build(p, vals)).run())
            return u, np.array(out).reshape(2 ** n, 2 ** n).T
        res, err = guarded(cols)
        chk.trace()
        if err is not None or (dist_phase if phase_free(p) else dist)(*res) > 1e-8:
            chk.violation(f"columns of to_unitary differ from the simulated images for {short_prog(p)}: {err!r}", p)
    for p in progs[-5:]:
        chk.sample(short_prog(p))
