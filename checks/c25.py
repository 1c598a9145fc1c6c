"""C25: Boltzmann-machine training.  Rbm.tla describes training exactly, the logistic function
being symbolic; its behaviours are replayed on the real helpers and Opt.fit, with the
annealing samples of the behaviour or, in other runs, with the real ones."""
import contextlib, io
import numpy as np
from qv import *
from stochastic import seed_all

CFG = "SPECIFICATION Spec\nCONSTANTS MaxV = {v} MaxH = {h} Epochs = {e}\nINVARIANT SmallOK CausalOK UpperOK WithinOK\nCHECK_DEADLOCK FALSE\n"


def value(form, den, syms):
    return sum(c * s for c, s in zip(form, syms) if c) / 2.0 ** den


def sigm(x):
    return 1 / (1 + math.exp(-x))


def mat(m, den, syms):
    return np.array([[value(f, den, syms) for f in r] for r in m])


def work(a):
    hist, seed, maxh = a
    rng = random.Random(seed)
    seed_all(seed)
    warnings.simplefilter("ignore")
    from blueqat import wq
    v, h = hist[0]["v"], hist[0]["h"]
    M = v + h
    done = 0
    syms = [1.0] + [None] * (len(hist) * maxh)
    evs = [x["t"] for x in hist]
    for i, e in enumerate(evs):
        for j, f in enumerate(e["arg"]):
            syms[1 + i * maxh + j] = sigm(value(f, e["bden"], [s or 0 for s in syms]))
    sy = [s or 0.0 for s in syms]
    name = f"{v} visible, {h} hidden units"
    near = lambda x, y: np.shape(x) == np.shape(y) and np.allclose(np.array(x, dtype=float), y, atol=1e-9, rtol=0)
    lst = lambda m: rng.choice((lambda m: m, lambda m: m.tolist()))(m)
    try:
        for i, e in enumerate(evs):
            Q = mat(e["before"], e["bden"], sy)
            x = [1 - b for b in e["d"]]
            s = [sy[1 + i * maxh + j] for j in range(h)]
            here = f"({name}, weights {Q.tolist()}, visible {x})"
            # --- helpers
            done += 3
            g = wq.rbm_hmodel(list(x), lst(Q))
            if not near(g, np.array(s)):
                return f"rbm_hmodel gives {g}, specified {s} {here}", done
            g = wq.rbm_data_qubo(list(x), lst(Q))
            want = mat(e["data"], 0, sy)
            if not near(g, want):
                return f"rbm_data_qubo gives {np.array(g).tolist()}, specified {want.tolist()} {here}", done
            opt = wq.Opt()
            if rng.random() < 0.5:
                opt.setRBM([v, h])
                sh = np.array(opt.qubo)
                if sh.shape != (M, M) or opt.RBMvisible != v or opt.RBMhidden != h or any(sh[a][b] != 0 for a in range(M) for b in range(M) if a != b and not (a < v <= b)) \
                        or not all(0 <= sh[a][b] < 1 for a in range(M) for b in range(M)) or M > 2 and len({sh[a][b] for a in range(M) for b in range(M) if a == b or a < v <= b}) < M:
                    return f"setRBM([{v}, {h}]) makes the weights {sh.tolist()}", done
            opt.RBMvisible, opt.RBMhidden = v, h
            opt.qubo = lst(Q)
            X = e["x"]
            if rng.random() < 0.2:          # more shots with the same means
                X = X * rng.choice((40, 64, 130))
                rng.shuffle(X)
            seen = []

            def fake(shots=1, sampler="normal", targetT=0.02, verbose=False):
                seen.append((np.array(opt.qubo, dtype=float).copy(), shots, targetT))
                return [list(r) for r in X] if shots > 1 else list(X[0])
            opt.run = fake
            tT = rng.choice((0.02, 0.5))
            g = opt.rbm_model_qubo(shots=len(X), targetT=tT)
            wm = np.array(e["model"]) / len(e["x"])
            if not near(g, wm):
                return f"rbm_model_qubo of the samples {X[:20]} ({len(X)}) gives {np.array(g).tolist()}, specified {wm.tolist()} ({name})", done
            if len(seen) != 1 or seen[0][1:] != (len(X), tT) or not near(seen[0][0], Q):
                return f"rbm_model_qubo annealed {seen}, not {len(X)} shots of the weights at {tT} {here}", done
            # --- one epoch of fit; any datum of the set may be taken
            al, ep = e["an"] / 2, e["en"] / 4
            data = [list(e["d"])]
            if rng.random() < 0.4:
                data = data * rng.randint(2, 3)
            seen.clear()
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                opt.fit(rng.choice((lambda d: d, np.array))(data), shots=len(X), targetT=tT, alpha=al, epsilon=ep, epoch=1, verbose=bool(i % 2))
            done += 1
            after = mat(e["after"], e["aden"], sy)
            if not near(opt.qubo, after):
                return f"fit (alpha {al}, epsilon {ep}, datum {e['d']}, samples {X[:20]}, {len(X)} shots) gives {np.array(opt.qubo).tolist()}, specified {after.tolist()} {here}", done
            if len(seen) != 1 or seen[0][1:] != (len(X), tT) or not near(seen[0][0], Q):
                return f"fit annealed {seen}, not {len(X)} shots of the weights at {tT} {here}", done
        # --- several epochs in one call, as long as the parameters stay the same
        k = 1
        while k < len(evs) and (evs[k]["an"], evs[k]["en"], len(evs[k]["x"]), evs[k]["d"]) == (evs[0]["an"], evs[0]["en"], len(evs[0]["x"]), evs[0]["d"]):
            k += 1
        opt = wq.Opt()
        opt.RBMvisible, opt.RBMhidden = v, h
        opt.qubo = lst(mat(evs[0]["before"], evs[0]["bden"], sy))
        it = iter([e["x"] for e in evs[:k]])

        def fake2(shots=1, sampler="normal", targetT=0.02, verbose=False):
            X = next(it)
            return [list(r) for r in X] if shots > 1 else list(X[0])
        opt.run = fake2
        done += 1
        opt.fit([list(evs[0]["d"])], shots=len(evs[0]["x"]), alpha=evs[0]["an"] / 2, epsilon=evs[0]["en"] / 4, epoch=k, verbose=False)
        after = mat(evs[k - 1]["after"], evs[k - 1]["aden"], sy)
        if not near(opt.qubo, after):
            return f"{k} epochs of fit give {np.array(opt.qubo).tolist()}, specified {after.tolist()} ({name})", done
    except Exception as ex:
        import traceback
        return f"{ex!r} at {traceback.extract_tb(ex.__traceback__)[-1][:3]} ({name}, events {[(e['d'], e['x'], e['an'], e['en']) for e in evs]})", done
    return None, done


def real(a):
    """fit with the real annealer: every epoch is explained by some datum and the recorded samples"""
    seed, = a
    rng = random.Random(seed)
    seed_all(seed)
    warnings.simplefilter("ignore")
    from blueqat import wq
    v, h, shots = rng.randint(1, 3), rng.randint(1, 2), rng.choice((1, 2, 3))
    r = rng.random()
    if r < 0.25:
        v, h = rng.randint(5, 24), rng.randint(3, 14)
    elif r < 0.35:
        shots = rng.choice((20, 65, 110))
    M = v + h
    opt = wq.Opt()
    opt.setRBM([v, h])
    opt.Ts, tT = rng.choice(((0.2, 0.1), (30., 20.), (30., 20.)))      # cold: mostly zeros; hot: mixed samples
    data = [[rng.randint(0, 1) for _ in range(v)] for _ in range(rng.randint(1, 3))]
    al, ep, epochs = rng.choice((0.9, 1.0, 0.5)), rng.choice((0.1, 0.5, 1.0)), 2 if rng.random() < 0.85 else 6
    rec = []
    orig = opt.run

    def wrapped(*a, **kw):
        q = np.array(opt.qubo, dtype=float).copy()
        r = orig(*a, **kw)
        rec.append((q, [list(map(int, b)) for b in (r if shots > 1 else [r])]))
        return r
    opt.run = wrapped
    picks = []
    try:
        opt.fit(data, shots=shots, targetT=tT, alpha=al, epsilon=ep, epoch=epochs, verbose=False)
        rec.append((np.array(opt.qubo, dtype=float), None))
        if len(rec) != epochs + 1:
            return f"{len(rec) - 1} annealing runs in {epochs} epochs", 0, picks
        for (q, X), (q2, _) in zip(rec, rec[1:]):
            fits = []
            for k, d in enumerate(data):
                x = [1 - b for b in d]
                s = [sigm(q[v + j][v + j] + sum(x[i] * q[i][v + j] for i in range(v))) for j in range(h)]
                D = np.diag(x + s)
                for i in range(v):
                    for j in range(h):
                        D[i][v + j] = x[i] * s[j]
                Mo = np.zeros((M, M))
                for i in range(M):
                    Mo[i][i] = sum(b[i] for b in X) / shots
                    for j in range(v, M):
                        if i < v:
                            Mo[i][j] = sum(b[i] * b[j] for b in X) / shots
                if np.allclose(q2, al * q + ep * (D - Mo), atol=1e-9, rtol=0):
                    fits.append(k)
            if not fits:
                return f"an epoch of fit on {data} takes {q.tolist()} to {q2.tolist()} with samples {X} (alpha {al}, epsilon {ep})", 1, picks
            picks.append((len({tuple(d) for d in data}), len(data), fits[0] if len(fits) == 1 else None))
    except Exception as ex:
        import traceback
        return f"{ex!r} at {traceback.extract_tb(ex.__traceback__)[-1][:3]} ({v} visible, {h} hidden, {shots} shots)", 1, picks
    return None, 1, picks


def run(chk):
    rng = chk.rng
    import blueqat.wq
    for k, (v, h, e, num) in enumerate([(2, 2, 3, 300), (3, 3, 2, 200), (1, 1, 4, 100)] if not THOROUGH else [(2, 2, 3, 2000), (3, 3, 3, 1500), (1, 1, 5, 500), (5, 4, 2, 400)]):
        r = tlc("Rbm", CFG.format(v=v, h=h, e=e), simulate=num, depth=e + 3, seed=SEED * 10 + k, workers=1, timeout=800)
        chk.tlc_stats(r)
        hs, cur = [], []
        for x in r.records:
            if x["i"] == 1:
                cur = []
                hs.append(cur)
            cur.append(x)
        if len(hs) < num * 0.9 or any(len(x) != e for x in hs):
            raise MachineryError("incomplete histories")
        for x, (err, done) in zip(hs, pmap(work, [(x, rng.randrange(2 ** 31), h) for x in hs])):
            chk.trace(done)
            if err:
                chk.violation(err, {"history": x})
        chk.count("histories", len(hs))
        chk.sample([{y: ev["t"][y] for y in ("d", "x", "an", "en", "arg")} for ev in hs[0]])
    picks = []
    for err, done, p in pmap(real, [(rng.randrange(2 ** 31),) for _ in range(400 if THOROUGH else 120)]):
        chk.trace(done)
        picks += p
        if err:
            chk.violation(err, "fit")
    # every datum can be the one of an epoch
    for m in (2, 3):
        c = [k for u, n, k in picks if u == n == m and k is not None]
        if len(c) > 60 and set(c) != set(range(m)):
            chk.violation(f"of {m} data, only {sorted(set(c))} were ever used in {len(c)} epochs", c[:20])
    chk.count("real_epochs", len(picks))
    chk.assumptions.append("exp is evaluated to about 1e-12")
