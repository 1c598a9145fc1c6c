"""C16: the annealers.  Anneal.tla is single-spin-flip annealing as a transition system;
recorded runs (energies after every temperature and the returned bits) have to be
behaviours of it.  AnnealTable.tla gives energy differences and local minima for the
statistical and quench parts."""
import io, contextlib
from qv import *
from stochastic import bad_counts, seed_all
import numpy as np

CFG = "SPECIFICATION Spec\nINVARIANT StateOK\nPROPERTY DownhillOK\nCHECK_DEADLOCK FALSE\n"
TAB = "SPECIFICATION TSpec\nINVARIANT AntiOK\nCHECK_DEADLOCK FALSE\n"


def generic_qubo(rng, n):
    """integer matrix; often with all energies different"""
    r = rng.random()
    if r < 0.5:
        v = [3 ** k for k in range(n * (n + 1) // 2)]
        rng.shuffle(v)
        it = iter(v)
        f = lambda: next(it) * rng.choice((1, -1)) if n <= 3 else rng.randint(-60, 60)
    elif r < 0.8:
        f = lambda: rng.randint(-9, 9)
    else:
        f = lambda: rng.choice((0, 0, 1, -1, 2))
    return [[f() if j >= i else 0 for j in range(n)] for i in range(n)]


def new_opt(q, rng, how=None):
    from blueqat import wq
    a = wq.Opt()
    set_qubo(a, q, rng)
    return a


def set_qubo(a, q, rng):
    f = rng.choice((lambda q: q, lambda q: np.array(q), lambda q: np.array(q, dtype=float), lambda q: [[float(x) for x in r] for r in q]))
    a.qubo = f([list(r) for r in q])


def bits_ok(b, n):
    return isinstance(b, (list, tuple, np.ndarray)) and len(b) == n and all(x in (0, 1) and not isinstance(x, bool) for x in b)


def temps(Ts, R, target):
    out = []
    T = Ts
    while T > target:
        out.append(T)
        T *= R
    return out


def qe(q, b):
    return sum(q[i][j] * b[i] * b[j] for i in range(len(b)) for j in range(len(b)))


def work(a):
    """one recorded run of a (possibly reused) object -> (error, case for TLC, done)"""
    i, seed = a
    rng = random.Random(seed)
    seed_all(seed)
    from blueqat import wq
    warnings.simplefilter("ignore")
    n = rng.choice((1, 2, 2, 3, 3, 3, 4))
    q = generic_qubo(rng, n)
    scale = rng.choice((1, 1, 1, 2.0 ** -rng.randint(1, 30), 2.0 ** rng.randint(1, 20)))     # exact: annealing has no unit of energy
    opt = new_opt(q, rng)
    done = 0
    out = []
    name = "new object"
    try:
        if rng.random() < 0.5:      # an object that was used before, maybe for something else
            opt = new_opt(generic_qubo(rng, rng.choice((n, 1, 2, 3, 4))), rng)
            opt.ite, opt.Ts, opt.R = 3, 1.0, 0.5
            for _ in range(rng.randint(1, 2)):
                rng.choice((opt.run, opt.sa, lambda: opt.run(shots=2), lambda: opt.sa(shots=3), opt.sqa))()
            if rng.random() < 0.5:
                opt.qubo = []
                opt.add(q)
            else:
                set_qubo(opt, q, rng)
            name = "reused object"
        fn = rng.choice((opt.run, opt.run, opt.run, opt.sa))
        if fn == opt.sa:
            scale = 1
        if scale != 1:
            set_qubo(opt, [[x * scale for x in r] for r in q], rng)
        keep = np.array(opt.qubo, dtype=float).copy()
        kind = type(opt.qubo)
        ite = rng.choice((1, 1, 1, 2, 3))
        frozen = rng.random() < 0.35
        Ts = rng.choice((1e-3, 1e-4)) if frozen else rng.choice((0.3, 1.0, 5.0, 20.0, 100.0))
        R = rng.choice((0.5, 0.9, 0.95, 0.999))
        K = rng.randint(1, 25)
        target = Ts * R ** (K - 0.5) * scale
        opt.Ts, opt.R, opt.ite = Ts * scale, R, ite
        shots = rng.choice((1, 1, 2, 3))
        sampler = "normal"
        kw = {"shots": shots, "targetT": target}
        if shots == 1 and rng.random() < 0.5:
            kw.pop("shots")
        if scale == 1 and fn == opt.run and not frozen and rng.random() < 0.15:
            sampler = "fast"        # 100 attempts, rate 0.75: only the ends are checked
            kw = {"shots": shots, "sampler": "fast", "targetT": 0.3}
            opt.Ts = Ts = 1.0
        if fn == opt.sa:
            kw.pop("targetT")
            opt.Ts = Ts = rng.choice((1.0, 0.5, 5.0))
            opt.R = R = rng.choice((0.5, 0.7, 0.8))
            target = 0.02
        if rng.random() < 0.1 and fn == opt.run:
            kw["verbose"] = True
        name = f"{fn.__name__}({kw}) with Ts={opt.Ts} R={opt.R} ite={opt.ite} on {scale} * {q}, {name}"
        with contextlib.redirect_stdout(io.StringIO()):
            res = fn(**kw)
        done += 1
        E = opt.E
        if shots == 1:
            res, E = [res], [E]
        if not isinstance(res, (list, tuple, np.ndarray)) or len(res) != shots or not all(bits_ok(b, n) for b in res):
            return f"{name} returned {res if shots > 1 else res[0]}", [], done
        if len(E) != shots or not all(isinstance(e, (list, tuple, np.ndarray)) and all(np.isscalar(x) for x in e) for e in E):
            return f"{name}: E is {opt.E}", [], done
        if type(opt.qubo) is not kind or not np.array_equal(np.array(opt.qubo, dtype=float), keep):
            return f"{name} changed the QUBO to {opt.qubo}", [], done
        E = [[x / scale for x in e] for e in E]
        ts = temps(opt.Ts, 0.75 if sampler == "fast" else opt.R, kw.get("targetT", 0.02))
        for b, e in zip(res, E):
            b = [int(x) for x in b]
            done += 1
            if len(e) != len(ts) + 1:
                return f"{name}: {len(e)} energies for {len(ts)} temperatures", [], done
            if abs(e[-1] - qe(q, b)) > 1e-9:
                return f"{name}: the last energy {e[-1]} is not the energy {qe(q, b)} of the result {b}", [], done
            if any(abs(x - round(x)) > 1e-6 for x in e):
                return f"{name}: the energies {e} are not energies of the problem", [], done
            if sampler == "normal":
                out.append((name, {"n": n, "p": 1, "q": q, "w": 0, "tol": 0, "obs": [1000 * round(x) for x in e],
                                   "t": [0 if t < 1e-3 * 1.001 else min(int(1000 * t) + 1, 10 ** 6) for t in (t / scale for t in ts)], "ite": ite, "last": sum(v << k for k, v in enumerate(b))}))
    except Exception as ex:
        import traceback
        return f"{ex!r} at {traceback.extract_tb(ex.__traceback__)[-1][:3]} for {name}", [], done
    return None, out, done


def work_sqa(a):
    i, seed = a
    rng = random.Random(seed)
    seed_all(seed)
    warnings.simplefilter("ignore")
    p = rng.choice((2, 2, 4, 5))
    n = rng.choice((1, 2, 3) if p == 2 else (1, 2) if p == 4 else (1,))
    q = [[rng.randint(-9, 9) if k >= j else 0 for k in range(n)] for j in range(n)]
    opt = new_opt(q, rng)
    name = ""
    try:
        if rng.random() < 0.4:
            set_qubo(opt, generic_qubo(rng, rng.choice((1, 2, 3))), rng)
            opt.ite, opt.tro, opt.R = 2, 3, 0.5
            rng.choice((opt.sqa, opt.run))()
            set_qubo(opt, q, rng)
        keep = np.array(opt.qubo, dtype=float).copy()
        ite = rng.choice((1, 1, 2))
        T = rng.choice((1e-4, 1e-4, 0.05, 0.5, 2.0))
        g = rng.choice((0.3, 0.8, 1.5, 2.5)) * T * p     # field: T log coth(G/Tp) stays constant
        K = rng.randint(1, 20)
        R = 1 - 1e-9
        opt.Tf, opt.Gs, opt.R, opt.tro, opt.ite = T, g, R, p, ite
        opt.Gf = g * (1 - 1e-9 * (K - 0.5))
        name = f"sqa() with Tf={T} Gs={g} steps={K} tro={p} ite={ite} on {q}"
        res = opt.sqa()
        res = np.array(res)
        if res.shape != (p, n) or not np.all(np.abs(res) == 1):
            return f"{name} returned {res.tolist()}", [], 1
        if len(opt.E) != K + 1:
            return f"{name}: {len(opt.E)} energies for {K} field steps", [], 1
        if not np.array_equal(np.array(opt.qubo, dtype=float), keep):
            return f"{name} changed the QUBO", [], 1
        w = T * math.log(1 / math.tanh(g / T / p))
        last = sum(1 << (k + n * r) for r in range(p) for k in range(n) if res[r][k] == 1)
        return None, [(name, {"n": n, "p": p, "q": q, "w": 2 * round(500 * w), "tol": 5, "obs": [round(1000 * float(x)) for x in opt.E],
                              "t": [0 if T < 1e-3 else int(1000 * T) + 1] * K, "ite": ite, "last": last})], 1
    except Exception as ex:
        import traceback
        return f"{ex!r} at {traceback.extract_tb(ex.__traceback__)[-1][:3]} for {name}", [], 1


def traces(chk, rng, works, label):
    cases = []
    for w, count in works:
        jobs = [(i, rng.randrange(2 ** 31)) for i in range(count)]
        for err, cs, done in pmap(w, jobs):
            chk.trace(done)
            if err:
                chk.violation(err, label)
            cases += cs
    uniq = {}
    for name, c in cases:
        uniq.setdefault(json.dumps(c, sort_keys=True), (name, c))
    cases = list(uniq.values())
    r = tlc("Anneal", CFG, [c for _, c in cases], timeout=700)
    chk.tlc_stats(r)
    ok = {x["id"] for x in r.records}
    chk.count("validated_runs", len(cases))
    for i, (name, c) in enumerate(cases):
        chk.trace()
        if i + 1 not in ok:
            chk.violation(f"{name}: energies {[x / 1000 for x in c['obs']]} and result {c['last']:0{c['n'] * c['p']}b} are no run of single-flip Metropolis annealing", c)
    for name, _ in cases[:3]:
        chk.sample(name)


def walk(a):
    """a long run at (nearly) constant temperature: (error, transitions)"""
    q, T, steps, seed = a
    rng = random.Random(seed)
    seed_all(seed)
    opt = new_opt(q, rng)
    opt.Ts, opt.ite = T, 1
    opt.R = 1 - 1e-8
    n = len(q)
    try:
        b = opt.run(targetT=T * (1 - 1e-8 * steps))
    except Exception as ex:
        return repr(ex), [], None
    return None, [float(e) for e in opt.E], [int(x) for x in b]


def quench(a):
    q, seed, how = a
    rng = random.Random(seed)
    seed_all(seed)
    opt = new_opt(q, rng)
    n = len(q)
    try:
        if how == "sa":
            opt.Ts, opt.R, opt.ite = 1e-9, 0.5, 400
            return None, [list(map(int, b)) for b in opt.run(shots=6, targetT=0.4e-9)]
        # no coupling between the replicas: each is quenched on its own
        opt.Tf, opt.Gs, opt.Gf, opt.R, opt.tro = 1e-9, 1.0, 0.7, 0.5, 4
        opt.ite = 400 * opt.tro
        return None, [[(int(s) + 1) // 2 for s in r] for r in opt.sqa()]
    except Exception as ex:
        return repr(ex), []


def statistics(chk, rng):
    qs = []
    for _ in range(40 if THOROUGH else 10):
        n = rng.choice((2, 3, 3))
        v = rng.sample(range(1, 13), n * (n + 1) // 2)
        it = iter(v)
        qs.append([[next(it) * rng.choice((1, -1)) if j >= i else 0 for j in range(n)] for i in range(n)])
    big = [generic_qubo(rng, rng.choice((3, 4, 5))) for _ in range(60 if THOROUGH else 20)]
    data = [{"n": len(q), "p": 1, "q": q, "w": 0, "tol": 0, "obs": [0], "t": [], "ite": 1, "last": 0} for q in qs + big]
    r = tlc("AnnealTable", TAB, data)
    chk.tlc_stats(r)
    tab = {}
    for x in r.records:
        tab.setdefault(x["id"] - 1, {})[x["x"]] = x
    # --- transition frequencies
    jobs = [(q, T, 12000 if THOROUGH else 6000, rng.randrange(2 ** 31)) for q in qs for T in (2.0, 8.0, 40000.0)]
    for (q, T, steps, seed), (err, E, b), qi in zip(jobs, pmap(walk, jobs), [i for i in range(len(qs)) for _ in range(3)]):
        chk.trace(len(E))
        if err:
            chk.violation(f"{err} for a run on {q}", [q])
            continue
        t = tab[qi]
        n = len(q)
        by = {}
        for x, v in t.items():
            by.setdefault(v["e"] // 1000, []).append(x)
        if any(len(v) > 1 for v in by.values()):
            continue                     # the energies do not identify the states
        try:
            path = [by[round(e)][0] for e in E]
        except KeyError:
            chk.violation(f"energies of a run on {q} are not energies of the problem", [q, T])
            continue
        rows = {}
        for s, s2 in zip(path, path[1:]):
            rows.setdefault(s, []).append(s2)
        for s, to in rows.items():
            want = {}
            for k in range(n):
                pr = min(1.0, math.exp(-t[s]["d"][k] / 1000 / T)) / n
                want[s ^ (1 << k)] = pr
            want[s] = max(0.0, 1 - sum(want.values()))
            if want[s] < 1e-9:
                want[s] = 0.0
            cnt = {}
            for y in to:
                cnt[y] = cnt.get(y, 0) + 1
            e = bad_counts(cnt, want, len(to))
            if e:
                chk.violation(f"moves from state {s:0{n}b} of {q} at temperature {T}: {e}; Metropolis probabilities {want}", [q, T])
                break
    # --- quenches end in local minima
    jobs = [(q, rng.randrange(2 ** 31), how) for q in qs + big for how in ("sa", "sqa")]
    idx = [i for i in range(len(qs) + len(big)) for _ in (0, 1)]
    for (q, seed, how), i, (err, res) in zip(jobs, idx, pmap(quench, jobs)):
        if err:
            chk.violation(f"{err} for a quench on {q}", [q])
        for b in res:
            chk.trace()
            x = sum(v << k for k, v in enumerate(b))
            if not tab[i][x]["min"]:
                chk.violation(f"a quench ({how}) of {q} ends in {b}, which the flips with energy changes {[d / 1000 for d in tab[i][x]['d']]} improve", [q])
    chk.count("quenches", len(jobs))


BIG = "SPECIFICATION Spec\nINVARIANT FlipOK\nCHECK_DEADLOCK FALSE\n"


def big_work(a):
    """runs on a large problem: (error, [(q, bits, recorded energy or None, quench)])"""
    import io, contextlib
    n, seed = a
    rng = random.Random(seed)
    seed_all(seed)
    dens = rng.choice((0.15, 0.6, 1.0))
    q = [[rng.randint(-9, 9) if rng.random() < dens and j >= i else 0 for j in range(n)] for i in range(n)]
    out = []
    how = rng.choice(("run", "sa", "fast", "sqa", "heat") if n < 35 else ("run", "sa", "fast", "heat"))
    name = f"{how} of a {n}-bit QUBO"
    try:
        opt = new_opt(q, rng)
        if rng.random() < 0.3:     # the same optimizer, used before for a small problem
            opt = new_opt([[1, -2], [0, 1]], rng)
            opt.run()
            opt.qubo = np.array(q)
        if how == "sqa":
            opt.Tf, opt.Gs, opt.Gf, opt.R, opt.tro = 1e-9, 1.0, 0.7, 0.5, rng.choice((2, 4, 7))
            opt.ite = 80 * n * opt.tro
            res = opt.sqa()
            if np.shape(res) != (opt.tro, n) or not set(np.unique(res)) <= {-1, 1}:
                return f"{name} has a result of shape {np.shape(res)}", []
            return None, [(q, [(int(s) + 1) // 2 for s in r], None, True) for r in res], name
        shots = rng.choice((1, 2, 5, 40 if n < 20 else 5))
        buf = io.StringIO()
        verbose = rng.random() < 0.3
        kw = {"verbose": True} if verbose and how != "sa" and how != "fast" else {}
        with contextlib.redirect_stdout(buf):
            if how == "heat":
                opt.Ts, opt.R, opt.ite = 50.0, 0.8, 2 * n
                res = opt.run(shots=shots, targetT=1.0, **kw)
                k = next(i for i in range(999) if 50.0 * 0.8 ** i <= 1.0)
            elif how == "fast":
                opt.Ts = 1e-9
                res = opt.run(shots=shots, sampler="fast", targetT=1e-13)
                k = None
            else:
                opt.Ts, opt.R, opt.ite = (1e-9, 0.5, 60 * n) if how == "run" else (0.015 / 0.5 ** 1, 0.5, 120 * n)
                res = opt.run(shots=shots, targetT=0.4e-9, **kw) if how == "run" else opt.sa(shots=shots)
                k = 2 if how == "run" else 1
        E = opt.E
        if shots == 1:
            res, E = [res], [E]
        if len(res) != shots or len(E) != shots or any(len(b) != n or not set(b) <= {0, 1} for b in res):
            return f"{name} with {shots} shots has {len(res)} results and {len(E)} energy lists", []
        if kw and len(buf.getvalue().strip().splitlines()) < shots or not kw and buf.getvalue():
            return f"{name} with verbose={bool(kw)} prints {buf.getvalue()[:200]!r}", []
        if k is not None and any(len(x) != k + 1 for x in E):
            return f"{name} records {[len(x) for x in E]} energies instead of {k + 1}", []
        if not np.array_equal(np.array(opt.qubo), np.array(q)):
            return f"{name} changed the QUBO", []
        for b, x in zip(res, E):
            out.append((q, [int(v) for v in b], float(x[-1]), how in ("run", "sa")))
            if how in ("run", "sa", "fast") and any(y > z + 1e-6 for z, y in zip(x, x[1:])):
                return f"{name}: the energy rises from {x} in a quench", []
    except Exception as ex:
        import traceback
        return f"{ex!r} at {traceback.extract_tb(ex.__traceback__)[-1][:3]} in {name}", []
    return None, out, name


def large(chk, rng):
    jobs = [(rng.choice((8, 12, 25, 33, 40, 64, 70)), rng.randrange(2 ** 31)) for _ in range(90 if THOROUGH else 28)]
    cases = []
    for j, r in zip(jobs, pmap(big_work, jobs)):
        chk.trace()
        if r[0]:
            chk.violation(r[0], j)
        else:
            cases += [(c, r[2]) for c in r[1]]
    r = tlc("AnnealLarge", BIG, [{"q": c[0], "b": c[1]} for c, _ in cases], timeout=600)
    chk.tlc_stats(r)
    recs = {x["id"]: x for x in r.records}
    if len(recs) != len(cases):
        raise MachineryError("missing results")
    for i, ((q, b, E, quenched), name) in enumerate(cases):
        x = recs[i + 1]
        chk.count("large_results")
        if E is not None and abs(E - x["e"]) > 1e-6 * max(1, abs(x["e"])):
            chk.violation(f"{name}: the last recorded energy is {E}, that of the result is {x['e']}", {"q": q, "b": b})
        if quenched and min(x["d"]) < 0:
            chk.violation(f"{name}, a quench, ends in a state that flipping bit {x['d'].index(min(x['d']))} improves by {-min(x['d'])}", {"q": q, "b": b})


def run(chk):
    import blueqat.wq
    rng = chk.rng
    k = 5 if THOROUGH else 1
    traces(chk, rng, [(work, 320 * k), (work_sqa, 120 * k)], "annealing run")
    statistics(chk, rng)
    large(chk, rng)
    chk.assumptions.append("an uphill move is excluded when its probability is below exp(-70); the comparison of move frequencies has a false alarm probability below 1e-12 per entry")
