"""C06: sampled counts.  The exact outcome distribution of generated circuits comes from
the branches of Programs.tla; run(shots=N) is compared with it for many N, including the
independence of shots within and between runs and the `returns` options."""
from qv import *
from unitary import *
from stochastic import *
from scipy.stats import binom


def cases(rng):
    k = 6 if THOROUGH else 1
    progs = []
    for n in (1, 2, 3):
        # every subset of qubits measured at the end of a generic state
        for mask in range(2 ** n):
            qs = [q for q in range(n) if mask >> q & 1]
            rng.shuffle(qs)
            progs.append({"n": n, "ops": entangler(n) + ([{"g": "m", "p": [], "t": T_tup(*[T_int(q) for q in qs])}] if qs else [])})
    progs += systematic_measured()[::4]
    for _ in range(40 * k):
        progs.append(measured_program(rng, rng.choice((1, 2, 3, 3, 4)), maxm=5, end=True, p_meas=0.15))
    for _ in range(16 * k):
        progs.append(measured_program(rng, rng.choice((2, 3, 4)), maxm=5, p_meas=0.4))
    for _ in range(8 * k):
        progs.append(measured_program(rng, rng.choice((5, 6, 7, 9)), maxm=4, max_split=3, p_meas=0.3, length=(5, 14)))
    return progs


def work(a):
    prog, terms, vals, seed, shots, reps, backend = a
    from blueqat import Circuit
    seed_all(seed)
    rng = random.Random(seed)
    warnings.simplefilter("ignore")
    n = prog["n"]
    bk = {} if backend is None else {"backend": backend}
    name = f"{short_prog(prog)} at {vals.v}"
    if not terms[0]["ok"]:
        raise MachineryError(f"generator made an invalid program {prog}")
    probs = {}
    for t in terms:
        w = state_eval(t, vals, 2 ** n)
        key = "".join(map(str, t["c"]))
        probs[key] = probs.get(key, 0.0) + float(np.vdot(w, w).real)
    probs = {k: p for k, p in probs.items() if p > 1e-13}
    if abs(sum(probs.values()) - 1) > 1e-9:
        raise MachineryError("probabilities add up to %r" % sum(probs.values()))
    done = 0

    def one(c, sh, **kw):
        nonlocal done
        done += 1
        w = rng.random()
        sh = rng.choice((int, int, int, np.int64, np.int32))(sh)
        r = c.run(sh, **kw, **bk) if w < 0.1 else getattr(c, "run_with_" + (backend or "numpy"))(shots=sh, **kw) if w < 0.2 else c.run(shots=sh, **kw, **bk)
        if not isinstance(r, Counter):
            return None, f"run(shots={sh}, {kw}) returned {type(r).__name__}"
        if sum(r.values()) != sh:
            return None, f"{sum(r.values())} counts for {sh} shots"
        e = bad_counts(r, probs, sh)
        return r, e

    try:
        c = build(prog, vals)
        for sh in (shots, 1, 0, rng.randint(2, 40), shots // 2):
            r, e = one(c, sh) if rng.random() < 0.7 else one(c, sh, returns="shots")
            if e:
                return f"{e}: {dict(r) if r else r} for {name}; distribution {probs}", done
            if rng.random() < 0.5:
                c = build(prog, vals)
        v, r = c.run(shots=9, returns="statevector_and_shots", **bk)
        e = bad_counts(r, probs, 9) if sum(r.values()) == 9 else f"{dict(r)} for 9 shots"
        if e:
            return f"{e} for {name}", done
        # small runs: the counts of the likeliest key are binomial, run after run
        top = max(probs, key=lambda k: min(probs[k], 0.6))
        if 0.02 < probs[top] < 0.98 and reps:
            s = 5
            seq = []
            for i in range(reps):
                if i % 25 == 0:
                    c = build(prog, vals)
                r, e = one(c, s)
                if e:
                    return f"{e} for {name}", done
                seq.append(r.get(top, 0))
            pm = {k: float(binom.pmf(k, s, probs[top])) for k in range(s + 1)}
            e = bad_counts(Counter(seq), pm, reps)
            if e:
                return f"counts of {top!r} in {reps} runs of {s} shots: {e}, so shots aren't independent, for {name}", done
            # consecutive runs: disjoint pairs
            pairs = Counter(zip(seq[::2], seq[1::2]))
            e = bad_counts(pairs, {(a, b): pm[a] * pm[b] for a in pm for b in pm}, reps // 2)
            if e:
                return f"counts of {top!r} in consecutive runs of {s} shots: {e}, for {name}", done
    except MachineryError:
        raise
    except Exception as ex:
        return f"run raised {ex!r} for {name}", done
    return None, done


def options(chk, backend=None):
    from blueqat import Circuit
    bk = {} if backend is None else {"backend": backend}
    h = math.sqrt(0.5)
    import itertools
    for mk, n, keys in ((lambda: Circuit(2).h[0].m[0], 2, {"00": 0.5, "10": 0.5}), (lambda: Circuit().x[1], 2, {"00": 1.0}), (lambda: Circuit(3).x[2].m[2].h[0].m[0], 3, {"001": 0.5, "101": 0.5})):
        for shots, ret in itertools.product((None, 1, 3, 50), (None, "shots", "statevector", "statevector_and_shots")):
            kw = {}
            if shots is not None:
                kw["shots"] = shots
            if ret is not None:
                kw["returns"] = ret
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r, err = guarded(lambda: mk().run(**kw, **bk))
            chk.trace()
            what = f"run({kw}) on {mk()!r}"
            if err is not None:
                chk.violation(f"{what} raised {err!r}", str(kw))
                continue
            sv = cnt = None
            if ret == "statevector" or (ret is None and shots is None):
                sv = r
            elif ret in ("shots", None):
                cnt = r
            else:
                if not (isinstance(r, tuple) and len(r) == 2):
                    chk.violation(f"{what} returned {r!r}", str(kw))
                    continue
                sv, cnt = r
            if sv is not None and (not isinstance(sv, np.ndarray) or sv.shape != (2 ** n,) or abs(np.linalg.norm(sv) - 1) > 1e-9):
                chk.violation(f"{what} returned {sv!r} as state vector", str(kw))
            if cnt is not None:
                N = shots if shots is not None else 1024
                if not isinstance(cnt, Counter) or sum(cnt.values()) != N or bad_counts(cnt, keys, N):
                    chk.violation(f"{what} returned {cnt!r} instead of {N} shots distributed as {keys}", str(kw))
        for bad in ("counts", "Statevector", "", "shot", "statevector_and_shot", 1, "sv"):
            _, err = guarded(lambda: mk().run(returns=bad, **bk))
            if not isinstance(err, ValueError):
                chk.violation(f"run(returns={bad!r}) gives {err!r} instead of ValueError", bad)


RARE = [  # programs with an outcome whose probability is about (angle/2)^2
    {"n": 1, "ops": [{"g": "rx", "p": [((4, 0, 0), 0)], "t": T_int(0)}, {"g": "m", "p": [], "t": T_int(0)}]},
    {"n": 2, "ops": [{"g": "ry", "p": [((4, 0, 0), 0)], "t": T_int(1)}, {"g": "cx", "p": [], "t": T_tup(T_int(1), T_int(0))}, {"g": "m", "p": [], "t": T_slice()}]},
    {"n": 2, "ops": [{"g": "rx", "p": [((4, 0, 0), 0)], "t": T_int(0)}, {"g": "m", "p": [], "t": T_int(0)}, {"g": "h", "p": [], "t": T_int(1)}, {"g": "m", "p": [], "t": T_int(1)}]},
    {"n": 1, "ops": [{"g": "h", "p": [], "t": T_int(0)}, {"g": "m", "p": [], "t": T_int(0)}]},
    {"n": 3, "ops": [{"g": "x", "p": [], "t": T_int(2)}, {"g": "ry", "p": [((4, 0, 0), 0)], "t": T_int(2)}, {"g": "m", "p": [], "t": T_int(2)}, {"g": "reset", "p": [], "t": T_int(2)}]},
]


def rare_work(a):
    """many shots at once: nothing may be extrapolated from the first ones"""
    prog, terms, vals, seed, shots = a
    seed_all(seed)
    warnings.simplefilter("ignore")
    probs = {}
    for t in terms:
        w = state_eval(t, vals, 2 ** prog["n"])
        key = "".join(map(str, t["c"]))
        probs[key] = probs.get(key, 0.0) + float(np.vdot(w, w).real)
    probs = {k: p for k, p in probs.items() if p > 1e-13}
    r, err = guarded(lambda: build(prog, vals).run(shots=shots))
    if err is not None:
        return f"run(shots={shots}) raised {err!r} for {short_prog(prog)} at {vals.v}"
    if sum(r.values()) != shots:
        return f"{sum(r.values())} counts for {shots} shots of {short_prog(prog)} at {vals.v}"
    e = bad_counts(r, probs, shots)
    return e and f"{e}: {dict(r)} for {shots} shots of {short_prog(prog)} at {vals.v}; distribution {probs}"


def rare(chk, rng):
    terms, r = tlc_programs(RARE)
    chk.tlc_stats(r)
    sizes = (2049, 4099, 5000, 10007, 16385, 20011, 33333) + ((65537, 100003, 200003) if THOROUGH else ())
    items = []
    for k, N in enumerate(sizes * (2 if THOROUGH else 1)):
        for i in rng.sample(range(len(RARE)), 2):
            p = rng.choice((60, 90, 150)) / N      # expected number of rare outcomes
            items.append((RARE[i], terms[i], Vals([2 * math.asin(math.sqrt(p)), 0., 0.]), rng.randrange(2 ** 31), N))
    for N in (70001, 120011, 150001) + ((200003, 300007, 400009) if THOROUGH else ()):
        # an outcome hardly ever seen among the first few thousand
        p = 45 / N
        for i in (0, 2):
            items.append((RARE[i], terms[i], Vals([2 * math.asin(math.sqrt(p)), 0., 0.]), rng.randrange(2 ** 31), N))
    for it, e in zip(items, pmap(rare_work, items)):
        chk.trace()
        if e:
            chk.violation(e, {"prog": it[0], "vals": it[2].v, "shots": it[4]})


def decide(chk, progs, rng, nvals, shots, reps, backend=None):
    terms, r = tlc_programs(progs, timeout=600)
    chk.tlc_stats(r)
    chk.count("programs", len(progs))
    chk.count("branches", sum(len(t) for t in terms))
    items, ref = [], []
    for p, t in zip(progs, terms):
        for vals in val_sets(rng, nvals):
            items.append((p, t, vals, rng.randrange(2 ** 31), shots, reps, backend))
            ref.append((p, vals))
    for (p, vals), (e, done) in zip(ref, pmap(work, items)):
        chk.trace(done)
        if e:
            chk.violation(e, {"prog": p, "vals": vals.v})


def run(chk):
    rng = chk.rng
    import blueqat
    options(chk)
    progs = cases(rng)
    decide(chk, progs, rng, 2, 6000 if THOROUGH else 1500, 1000 if THOROUGH else 240)
    rare(chk, rng)
    for p in progs[:60:9]:
        chk.sample(short_prog(p))
    chk.assumptions.append("frequencies are compared with a false alarm probability below 1e-12 per key")
