"""C01: statevector semantics.  Seeded and systematic programs are executed exactly by
the specification (spec/Programs.tla, all angles symbolic); the real simulator has to
return the same amplitudes at generic and special values of the angles."""
from qv import *
from unitary import *

KINDS = ("float", "npfloat", "lin", "mixed")


def ang(p, vals, kind, rng):
    v = angle(p, vals)
    if kind == "npfloat":
        return np.float64(v)
    if kind == "lin":
        return angle(p, vals, "lin")
    if kind == "mixed" and float(v).is_integer():
        return int(v)
    return v


def real(prog, vals, kind, rng, backend=None, **run_kw):
    from blueqat import Circuit
    c = Circuit(prog["n"])
    for op in prog["ops"]:
        w = wrapper(c, op["g"])
        if op["p"]:
            w = w(*[ang(p, vals, kind, rng) for p in op["p"]])
        w[t_obj(op["t"])]
    if backend is not None:
        run_kw["backend"] = backend
    return c.run(**run_kw)


def programs(rng):
    progs = []
    for n in (1, 2, 3):
        progs += systematic(n)
    progs += systematic(4, gates=["cx", "cz", "crx", "cphase", "cu3", "swap", "rxx", "ryy", "rzz", "h", "u3"],
                        prefix_ops=lambda n: prefix(n)[:6])[:: (1 if THOROUGH else 2)]
    k = 5 if THOROUGH else 1
    progs += random_programs(rng, 260 * k, ns=(1, 2, 2, 3, 3, 4), length=(1, 14))
    # constant angles only: many special values, longer programs
    progs += random_programs(rng, 120 * k, ns=(1, 2, 3, 4), length=(5, 25), p_sym=0.0, max_split=14,
                             consts=tuple(range(-17, 18)))
    # larger registers, sparse states
    progs += random_programs(rng, 50 * k, ns=(5, 6, 7, 9, 11), length=(8, 24), max_split=3, forms=False)
    progs += random_programs(rng, 20 * k, ns=(5, 6, 8), length=(6, 14), max_split=4)
    # lists of targets that repeat or share qubits
    progs += long_programs(rng, 30 * k, ns=(1, 2, 3, 4))
    progs += multi_targets(3, prefix_ops=lambda n: prefix(n)[:5]) + multi_targets(2)
    # registers with more than 8, 15 and 16 qubits
    progs += wide_programs(rng, (12, 15, 16, 17, 18) * (3 if THOROUGH else 1) + (16, 17))
    progs.append({"n": 0, "ops": []})
    progs.append({"n": 3, "ops": []})
    return progs


def compare(chk, progs, terms, rng, nvals, backend=None, kinds=KINDS, tol=1e-9):
    for i, (p, rec) in enumerate(zip(progs, terms)):
        assert len(rec) == 1, (p, rec)
        rec = rec[0]
        if not rec["ok"]:
            raise MachineryError(f"generator made an invalid program {p}")
        pf = phase_free(p)
        for j, vals in enumerate(val_sets(rng, nvals)):
            want = state_eval(rec, vals, 2 ** p["n"])
            kind = kinds[(i + j) % len(kinds)]
            ig = (i + j) % 7 == 3
            got, err = guarded(real, p, vals, kind, rng, backend, **({"ignore_global": True} if ig else {}))
            chk.trace()
            if err is not None:
                chk.violation(f"run raised {err!r} on {short_prog(p)}", {"prog": p, "vals": vals.v})
                break
            d = dist_phase(got, want) if (pf or ig) else dist(got, want)
            if d > tol:
                chk.violation(f"wrong state vector (distance {d:.3g}) for {short_prog(p)} at {vals.v} [{kind}, ignore_global={ig}]",
                              {"prog": p, "vals": vals.v, "got": [str(x) for x in np.asarray(got)][:64],
                               "want": [str(x) for x in want][:64]})
                break


def run(chk):
    rng = chk.rng
    r = tlc("GateLaws", open(SPEC + "/MCGateLaws.cfg").read())
    chk.tlc_stats(r)
    progs = programs(rng)
    terms, r = tlc_programs(progs)
    chk.tlc_stats(r)
    chk.count("programs", len(progs))
    chk.count("distinct_gates", len({o["g"] for p in progs for o in p["ops"]}))
    for p in progs[-30::5]:
        chk.sample(short_prog(p))
    compare(chk, progs, terms, rng, 3 if THOROUGH else 2)
    chk.assumptions += ["numpy/libm evaluate sin, cos and exp to about 1e-12",
                        "angles are polynomially symbolic in the specification and sampled (generic and special values) on the real code"]
