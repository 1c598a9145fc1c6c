"""C22: result helpers.  Helpers.tla enumerates all short strings, Gaussian vectors and
generates sample sequences, with their conversions; each is replayed on the real helpers."""
from collections import Counter, OrderedDict
import cmath
import numpy as np
from qv import *

CFG = "SPECIFICATION Spec\nINVARIANT Faithful Total Each Leading Ratios Idem\nCHECK_DEADLOCK FALSE\n"
ALPHA = ["0", "1", "2", "a", " ", "-", "_", "9"]


def strings(chk, rng):
    from blueqat.utils import to_inttuple
    r = tlc("Helpers", CFG, {"kind": "str", "alphabet": ALPHA, "max": 5 if THOROUGH else 4})
    chk.tlc_stats(r)
    recs = r.records
    rl = tlc("Helpers", CFG, {"kind": "str", "alphabet": ["0", "1"], "max": 11 if THOROUGH else 9})
    chk.tlc_stats(rl)
    for bits in (33, 64, 65, 100, 140):
        rs = tlc("Helpers", CFG, {"kind": "str", "alphabet": ["0", "1"] if bits != 65 else ["0", "1", "2"], "max": bits}, simulate=3, depth=bits + 2, seed=rng.randrange(1, 10 ** 6), workers=1)
        chk.tlc_stats(rs)
        recs = recs + [x for x in rs.records if len(x["s"]) % 7 == bits % 7]
    recs = recs + rl.records + [{"s": [], "ok": True, "t": []}]
    chk.count("strings", len(recs))
    good = []
    for x in recs:
        s = "".join(x["s"])
        chk.trace()
        got, err = guarded(to_inttuple, s)
        if not x["ok"]:
            if not isinstance(err, ValueError):
                chk.violation(f"to_inttuple({s!r}) gives {got!r} {err!r} instead of ValueError", s)
            continue
        want = tuple(x["t"])
        good.append((s, want))
        if err is not None or type(got) is not tuple or got != want or any(type(b) is not int for b in got):
            chk.violation(f"to_inttuple({s!r}) gives {got!r} {err!r}", s)
    bad = ["".join(x["s"]) for x in recs if not x["ok"]]
    for _ in range(1500 if THOROUGH else 400):
        ks = rng.sample(good, rng.randint(0, 8))
        vals = {k: rng.choice([rng.randint(0, 9999), 0, -3, 0.25, 10 ** 20, None, "v"]) if rng.random() < 0.3 else rng.randint(1, 2000) for k, _ in ks}
        for T in (Counter, dict):
            d = T()
            for k in vals:
                d[k] = vals[k]
            copy = dict(d)
            got, err = guarded(to_inttuple, d)
            chk.trace()
            want = {t: vals[k] for k, t in ks}
            if err is not None or type(got) is not T or dict(got) != want or any(type(k) is not tuple for k in got):
                chk.violation(f"to_inttuple({d!r}) gives {got!r} {err!r}", repr(d))
            if dict(d) != copy:
                chk.violation(f"to_inttuple changed its argument to {d!r}", repr(copy))
            if got is d:
                chk.violation(f"to_inttuple returns its argument {d!r}", repr(d))
            b = rng.choice(bad)
            d[b] = 1
            got, err = guarded(to_inttuple, d)
            if not isinstance(err, ValueError):
                chk.violation(f"to_inttuple({d!r}) gives {got!r} {err!r} instead of ValueError", repr(d))
    # a value of zero is kept
    for d in (Counter({"01": 0, "10": 3}), {"01": 0}):
        got = to_inttuple(d)
        if {tuple(map(int, k)): v for k, v in d.items()} != dict(got):
            chk.violation(f"to_inttuple({d!r}) gives {got!r}", repr(d))
    for x in (None, 1, 0, 1.5, ["0", "1"], ("0", "1"), b"01", {"0", "1"}, [0, 1], object(), np.array([0, 1]), iter("01")):
        got, err = guarded(to_inttuple, x)
        chk.trace()
        if not isinstance(err, ValueError):
            chk.violation(f"to_inttuple({x!r}) gives {got!r} {err!r} instead of ValueError", repr(x))


def counts(chk, rng):
    import blueqat.wq as wq
    for bits, n in ((1, 5), (2, 12), (3, 10), (3, 40), (5, 25), (12, 6), (2, 1), (2, 70), (3, 150), (1, 300)):
        r = tlc("Helpers", CFG, {"kind": "count", "bits": bits, "max": n}, simulate=(40 if THOROUGH else 12) if n < 50 else 4, depth=n + 2,
                seed=rng.randrange(1, 10 ** 6), workers=1)
        chk.tlc_stats(r)
        for x in r.records:
            for arg in (x["s"], tuple(tuple(b) for b in x["s"]), np.array(x["s"]), [np.array(b) for b in x["s"]]):
                before = json.dumps(np.array(arg).tolist())
                got, err = guarded(wq.counter, arg)
                chk.trace()
                if err is not None or not isinstance(got, Counter) or dict(got) != x["c"]:
                    chk.violation(f"wq.counter({x['s']}) gives {got!r} {err!r}, expected {x['c']}", x["s"])
                    break
                if json.dumps(np.array(arg).tolist()) != before:
                    chk.violation(f"wq.counter changed its argument {x['s']}", x["s"])
    if guarded(wq.counter, [])[0] != Counter():
        chk.violation("wq.counter([]) isn't empty", "[]")


def phases(chk, rng):
    from blueqat.utils import ignore_global_phase
    nums = [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -2), (1, 1), (-2, 1)]
    for m in ((1, 2, 3, 4) if not THOROUGH else (1, 2, 3, 4, 5)):
        r = tlc("Helpers", CFG, {"kind": "phase", "max": m, "nums": [[a + 5, b + 5] for a, b in nums]})
        chk.tlc_stats(r)
        recs = r.records if THOROUGH or m < 4 else rng.sample(r.records, 700)
        chk.count("vectors", len(recs))
        for x in recs:
            v = np.array([complex(*z) for z in x["v"]])
            w = np.array([complex(*z) for z in x["w"]])
            nz = np.nonzero(v)[0]
            want = w / abs(v[nz[0]]) if len(nz) else v
            for form in range(3):
                u = v.copy()
                scale = rng.choice([1.0, 1e-3, 40.0, float(1 / (np.linalg.norm(v) or 1))])
                ph = cmath.exp(1j * rng.uniform(-4, 4))
                u *= scale * ph
                tol, lead = 1e-12 * max(1, scale), None
                if form == 1:                     # negligible amplitudes in front of it
                    u = np.concatenate([[rng.choice([1e-9, -1e-10j, 3e-12 + 1e-11j])] * rng.randint(1, 3), u])
                if form == 2:
                    u = u.astype(np.complex64)
                    tol = 1e-5 * max(1, scale)
                orig = u.copy()
                got, err = guarded(ignore_global_phase, u)
                chk.trace()
                body = got[len(got) - len(v):] if err is None else None
                exp = want * scale if len(nz) else orig[len(orig) - len(v):]
                if err is not None or got is not u:
                    chk.violation(f"ignore_global_phase({orig}) gives {got!r} {err!r}; the vector itself is expected", [str(z) for z in orig])
                    break
                if np.max(np.abs(body - exp), initial=0) > 4 * tol or (form == 1 and len(nz) and
                        (np.max(np.abs(np.abs(got) - np.abs(orig))) > tol or
                         np.max(np.abs(got * body[nz[0]].conj() * 1.0 - orig * orig[len(orig) - len(v) + nz[0]].conj())) > 1e-10 * max(1, scale * scale))):
                    chk.violation(f"ignore_global_phase({orig}) gives {got}, expected {exp}", [str(z) for z in orig])
                    break
            if rng.random() < 0.3:                # a long vector: the first amplitude far back, the others repeated
                k, z = rng.choice((2, 16, 300)), rng.choice((0, 1, 31, 64, 1000))
                u = np.concatenate([np.zeros(z, complex), np.tile(v, k)]) * cmath.exp(1j * rng.uniform(-4, 4))
                exp = np.concatenate([np.zeros(z, complex), np.tile(want, k)])
                f = rng.choice((1, 1, 1e-2, 1e-4, 1e-6))      # amplitudes of long vectors are small
                u, exp = u * f, exp * f
                got, err = guarded(ignore_global_phase, u)
                chk.trace()
                if err is not None or got is not u or (len(nz) and np.max(np.abs(got - exp)) > 1e-11 * f):
                    chk.violation(f"ignore_global_phase of {v} repeated {k} times after {z} zeros gives {err!r} or a wrong vector", [str(x) for x in v])


def run(chk):
    rng = chk.rng
    import blueqat
    strings(chk, rng)
    counts(chk, rng)
    phases(chk, rng)
    # in use: keys of a run
    from blueqat import Circuit
    from blueqat.utils import to_inttuple
    for _ in range(60):
        n = rng.randint(1, 7)
        on = [q for q in range(n) if rng.random() < 0.5]
        c = Circuit(n)
        for q in on:
            c.x[q]
        c.m[:]
        r = to_inttuple(c.run(shots=3))
        chk.trace()
        if r != Counter({tuple(int(q in on) for q in range(n)): 3}):
            chk.violation(f"to_inttuple of the shots of {c!r} is {r}", repr(c))
    chk.sample({"string": "0110", "tuple": [0, 1, 1, 0]})
