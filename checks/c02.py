"""C02: results depend on the operations only.  CacheDesign.tla: the cache design is
model-checked (and the weaker rule is rejected); CircuitSM.tla: generated histories of
appends, runs in many ways, copies, shared backends are replayed on the real objects;
Programs.tla: exact outcome distributions against those of circuits that have been run,
cached, copied and extended before."""
from qv import *
from unitary import *
from history import *
from stochastic import measured_program, bad_counts, seed_all

MODES = ("run", "run", "name", "run_with", "shots", "both", "svshots", "ig", "cache", "defcache", "B1", "B1", "B2",
         "B1shots", "B2ig", "B1cache", "B12", "B21", "poison", "Bpoison")


def design(chk):
    cfg = open(SPEC + "/CacheDesign.cfg").read()
    r = tlc("CacheDesign", cfg if THOROUGH else cfg.replace("NB = 2", "NB = 1"))
    chk.tlc_stats(r)
    r = tlc("CacheDesign", cfg.replace("NB = 2", "NB = 1").replace('"gates"', '"length"').replace('"m","e"', '"h"'), expect_ok=False)
    if "ResultOK" not in (r.violated or ""):
        raise MachineryError("the weak cache rule is not rejected: " + r.out[-1500:])


def biased_program(rng, n):
    """measurements and resets whose outcomes are rare, certain or even"""
    p = measured_program(rng, n, maxm=3, length=(2, 5), p_meas=0.5, max_split=4)
    ops = []
    for q in rng.sample(range(n), rng.randint(1, n)):
        g = rng.choice(("ry", "rx", "ry", "h", "u3"))
        k = rng.randrange(NSYM)
        par = [(tuple(2 * (j == k and j0 == 0) for j in range(NSYM)), 0) for j0 in range(NPARAM[g])]
        ops.append({"g": g, "p": par, "t": T_int(q)})
        if n > 1 and rng.random() < 0.6:
            # the partner of a qubit that is reset keeps a record of the outcome
            ops.append({"g": "cx", "p": [], "t": T_tup(T_int(q), T_int(rng.choice([x for x in range(n) if x != q])))})
        if rng.random() < 0.6:
            ops.append({"g": rng.choice(("measure", "reset", "reset")), "p": [], "t": T_int(q if rng.random() < 0.8 else rng.randrange(n))})
    p["ops"] = ops + (p["ops"] if rng.random() < 0.6 else [])
    if rng.random() < 0.7:
        p["ops"].append({"g": "m", "p": [], "t": T_slice()})
    return p


def warm_work(a):
    prog, terms, vals, seed, shots = a
    from blueqat import Circuit
    from blueqat.backends.numpy_backend import NumPyBackend
    warnings.simplefilter("ignore")
    seed_all(seed)
    rng = random.Random(seed)
    n = prog["n"]
    probs = {}
    for t in terms:
        w = state_eval(t, vals, 2 ** n)
        k = "".join(map(str, t["c"]))
        probs[k] = probs.get(k, 0.0) + float(np.vdot(w, w).real)
    B = NumPyBackend()
    c = Circuit(n)
    log = []
    try:
        for i, o in enumerate(prog["ops"]):
            append_op(c, o, vals)
            if rng.random() < 0.35 and c.n_qubits:
                w = rng.choice(("run", "cache", "shots", "B", "Bcache", "copy", "both", "copykeep"))
                log.append((i, w))
                if w == "run":
                    c.run()
                elif w == "cache":
                    c.make_cache(backend="numpy")
                elif w == "shots":
                    c.run(shots=2)
                elif w == "B":
                    c.run(backend=B, shots=1)
                elif w == "Bcache":
                    B.make_cache(c.ops, c.n_qubits)
                elif w == "copy":
                    c = c.copy()
                elif w == "copykeep":
                    c.copy().run(shots=1)
                elif w == "both":
                    c.run(returns="statevector_and_shots", shots=1)
        use = rng.choice(("own", "own", "B", "single"))
        log.append(use)
        if use == "single":
            cnt = {}
            shots = shots // 4
            for _ in range(shots):
                _, one = c.run(returns="statevector_and_shots", shots=1)
                for k, v in one.items():
                    cnt[k] = cnt.get(k, 0) + v
        else:
            cnt = c.run(shots=shots, **({"backend": B} if use == "B" else {}))
    except Exception as ex:
        return f"{ex!r} on {short_prog(prog)}, history {log}"
    bad = bad_counts(cnt, probs, shots)
    return bad and f"frequencies after the history {log}: {bad}, for {short_prog(prog)} at {vals.v}"


def warm(chk, rng, count, shots):
    progs = [biased_program(rng, rng.choice((1, 2, 2, 2, 3))) for _ in range(count)]
    terms, r = tlc_programs(progs)
    chk.tlc_stats(r)
    items = []
    for p, t in zip(progs, terms):
        for k in range(2):
            vals = Vals([rng.choice((-1, 1)) * rng.choice((rng.uniform(0.3, 0.7), rng.uniform(0.3, 0.7), rng.uniform(0.7, 6))) * 2 for _ in range(NSYM)])
            items.append((p, t, vals, rng.randrange(2 ** 31), shots))
    for it, e in zip(items, pmap(warm_work, items)):
        chk.trace()
        chk.count("frequency_tables")
        if e:
            chk.violation(e, {"prog": it[0], "vals": it[2].v})


def run(chk):
    rng = chk.rng
    design(chk)
    hs = histories(rng, 24 if THOROUGH else 8, 120 if THOROUGH else 45, depth=18, modes=MODES, maxops=8, chk=chk)
    hs += histories(rng, 12 if THOROUGH else 4, 120 if THOROUGH else 45, depth=16, slots=2, modes=MODES, maxops=6, maxn=2, chk=chk, tablesize=9)
    # circuits of many gates (grown in pieces and used on the way)
    hs += histories(rng, 6 if THOROUGH else 2, 60 if THOROUGH else 20, depth=32, slots=2, modes=MODES, maxops=90, maxn=2, chk=chk, tablesize=9, gates=CLIFFORD, meas=False, long=True)
    ex = evaluate(hs, chk=chk)
    replay_all(chk, hs, ex, rng, p_dist=0.3)
    warm(chk, rng, 1000 if THOROUGH else 160, 1600)
    chk.sample([" ".join(str(v) for k, v in e.items() if k != "post") for e in hs[0][1]])
    chk.assumptions.append("random outcomes of measured circuits are checked by membership among the exact branches, and by frequencies with a false alarm probability below 1e-12 per outcome")
