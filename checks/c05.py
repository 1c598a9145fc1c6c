"""C05: measurement and reset.  Programs.tla branches over all outcomes of non-zero
probability (exact projected states, classical register); every (key, vector) the real
simulator returns has to be one of these branches, with the branch's frequency."""
from qv import *
from unitary import *
from stochastic import *


def cases(rng):
    k = 6 if THOROUGH else 1
    progs = systematic_measured()
    for n in (1, 2, 2, 3, 3, 4):
        progs += [measured_program(rng, n, maxm=5 if n < 4 else 6) for _ in range(22 * k)]
    # larger registers, few terms
    progs += [measured_program(rng, rng.choice((5, 6, 8)), maxm=4, max_split=3, length=(5, 16)) for _ in range(12 * k)]
    # stabiliser-like, exactly representable outcomes
    progs += [measured_program(rng, rng.choice((2, 3, 4)), maxm=6, length=(5, 20), gates=["h", "s", "x", "y", "z", "cx", "cz", "swap", "ccx", "ch"], max_split=4) for _ in range(30 * k)]
    # the same piece (with the same measurement objects) several times; many gates between measurements
    for _ in range(16 * k):
        n = rng.choice((1, 2, 3))
        p = measured_program(rng, n, maxm=2, length=(2, 6), max_split=3, gates=["h", "s", "x", "y", "z", "cx", "cz", "swap", "t", "sdg", "ry"])
        parts = [[rng.choice((2, 3)), p["ops"]]]
        if rng.random() < 0.5:
            q = long_programs(rng, 1, ns=(n,), length=(66, 90), syms=1)[0]
            parts.insert(rng.choice((0, 1)), [1, q["ops"]])
        progs.append({"n": n, "ops": [o for j, ops in parts for _ in range(j) for o in ops], "parts": parts})
    return progs


def classical(rng, count):
    out = []
    for _ in range(count):
        n = rng.choice((1, 2, 3, 4))
        p = measured_program(rng, n, maxm=6, length=(4, 14), gates=["x", "cx", "swap", "i", "cnot"], max_split=0)
        out.append(p)
    return out


def nearly(rng, count):
    """nearly classical states: outcomes that are almost, not exactly, certain"""
    out = []
    for _ in range(count):
        n = rng.choice((1, 1, 2, 2, 3))
        p = measured_program(rng, n, maxm=4, length=(3, 9), gates=["x", "cx", "swap", "ry", "rx", "u3", "crx", "cry", "u2", "cu3"], max_split=5)
        out.append({"n": n, "ops": [o for o in p["ops"] if o["g"] != "h"]})
        if rng.random() < 0.6:
            q = rng.randrange(n)
            out[-1]["ops"] = [{"g": rng.choice(("rx", "ry")), "p": [(tuple(4 * (j == q) for j in range(NSYM)), 0)], "t": T_int(q)}, {"g": rng.choice(("reset", "reset", "m")), "p": [], "t": T_int(q)}] + out[-1]["ops"]
    return out


def nearly_vals(rng):
    return Vals([rng.choice((0, 0, 0, 1, 2, -1, 4)) * math.pi + rng.choice((-1, 1)) * rng.uniform(1, 9) * 10.0 ** -rng.choice((2, 3, 4, 5)) for _ in range(NSYM)])


def work(a):
    prog, terms, vals, seed, shots, runs, exact, backend, warm = a
    from blueqat import Circuit
    seed_all(seed)
    rng = random.Random(seed)
    n = prog["n"]
    if not terms[0]["ok"]:
        raise MachineryError(f"generator made an invalid program {prog}")
    ph = phase_free(prog)
    brs = branches(terms, vals, n, ph)
    keys = {}
    for key, _, p in brs:
        keys[key] = keys.get(key, 0) + p
    bk = {} if backend is None else {"backend": backend}
    name = short_prog(prog)
    done = 0
    warnings.simplefilter("ignore")

    def check_pair(v, cnt, what, shots):
        if not isinstance(cnt, Counter) or sum(cnt.values()) != shots:
            return f"{what}: {cnt!r} for {shots} shots of {name}"
        for key in cnt:
            if key not in keys:
                return f"{what}: key {key!r} is not possible (possible: {sorted(keys)}) for {name} at {vals.v}"
        if v is not None and np.shape(v) != (2 ** n,):
            return f"{what}: vector of shape {np.shape(v)}"
        if v is not None and all(find(brs, key, v, ph) is None for key in cnt):
            return f"{what}: reported {dict(cnt)} with vector {np.round(v, 5)[:16]}, which is not the projected state, for {name} at {vals.v}"
        return None

    try:
        # steered outcomes: both ends, alternating, random extremes
        lo, hi = (0.0, 1 - 2.0 ** -53) if exact else (1e-7, 1 - 1e-7)
        for script in ([lo], [hi], [lo, hi], [hi, lo], [rng.choice((lo, hi)) for _ in range(17)], [rng.choice((lo, hi, 0.5)) for _ in range(23)]):
            c = build(prog, vals)
            with Scripted(script):
                v, cnt = c.run(returns="statevector_and_shots", shots=1, **bk)
                e = check_pair(v, cnt, f"random numbers {script}", 1)
                done += 1
                if e is None and not exact:
                    v, cnt = c.run(returns="statevector_and_shots", shots=3, **bk)
                    e = check_pair(v, cnt, f"random numbers {script}, second run", 3)
                    done += 1
            if e:
                # only outcomes of negligible probability may differ
                if exact or min(float(np.linalg.norm(state_eval(t, vals, 2 ** n))) ** 2 for t in terms) > 1e-6:
                    return e, done
        c = build(prog, vals)
        freq = Counter()
        kfreq = Counter()
        for j in range(runs):
            if not warm and j % 7 == 0:
                c = build(prog, vals)
            v, cnt = c.run(returns="statevector_and_shots", shots=1, **bk)
            e = check_pair(v, cnt, "run", 1)
            done += 1
            if e:
                return e, done
            (key,) = cnt
            freq[find(brs, key, v, ph)] += 1
        e = bad_counts(freq, {i: b[2] for i, b in enumerate(brs)}, runs) if runs else None
        if e:
            return f"frequencies of outcome {e} ({[(b[0], round(b[2], 4)) for b in brs]}) for {name} at {vals.v}", done
        v = c.run(**bk)
        if find(brs, None, v, ph) is None:
            return f"run() of {name} gives {v}, not a possible state", done
        for sh in (2, shots):
            v, cnt = c.run(returns="statevector_and_shots", shots=sh, **bk)
            e = check_pair(v, cnt, "run", sh) or bad_counts(cnt, keys, sh)
            done += 1
            if e:
                return f"{e}: {dict(cnt)} for {name} at {vals.v}", done
    except MachineryError:
        raise
    except Exception as ex:
        return f"run raised {ex!r} on {name} at {vals.v}", done
    return None, done


def decide(chk, progs, rng, nvals, shots, runs, exact=False, backend=None, warm=False, near=False):
    terms, r = tlc_programs(progs, timeout=600)
    chk.tlc_stats(r)
    chk.count("programs", len(progs))
    chk.count("branches", sum(len(t) for t in terms))
    items, ref = [], []
    for p, t in zip(progs, terms):
        for vals in [nearly_vals(rng) for _ in range(nvals)] if near else val_sets(rng, nvals):
            items.append((p, t, vals, rng.randrange(2 ** 31), shots, runs, exact, backend, warm))
            ref.append((p, vals))
    for (p, vals), (e, done) in zip(ref, pmap(work, items)):
        chk.trace(done)
        if e:
            chk.violation(e, {"prog": p, "vals": vals.v})


def run(chk):
    rng = chk.rng
    import blueqat
    progs = cases(rng)
    decide(chk, progs, rng, 2, 60, 2000 if THOROUGH else 350)
    decide(chk, classical(rng, 400 if THOROUGH else 80), rng, 1, 20, 30, exact=True)
    decide(chk, wide_measured(rng, [rng.choice((9, 10, 11, 12, 13)) for _ in range(80 if THOROUGH else 24)]), rng, 1, 30, 120)
    decide(chk, nearly(rng, 300 if THOROUGH else 60), rng, 2, 20, 60, near=True)
    for p in progs[40:100:9]:
        chk.sample(short_prog(p))
    chk.assumptions.append("frequencies are compared with a false alarm probability below 1e-12 per outcome")
