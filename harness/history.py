"""Replays histories of spec/CircuitSM.tla on real circuits.  Every run in a history is
compared with the exact terminal states of the circuit's value in the specification."""
import copy, pickle, copy as _copy
from qv import *
from unitary import *

CFG = "SPECIFICATION Spec\nINVARIANT TypeOK Covers\nPROPERTY OneAtATime\nCHECK_DEADLOCK FALSE\n"
VALS = GENERIC


def op_table(rng, maxn, size=12, meas=True, gates=ALLG):
    g = Gen(rng, maxn, gates=gates, max_split=100, p_sym=0.35)
    g.budget = [16] * NSYM
    tab = []
    while len(tab) < size:
        tab.append(g.op())
    if meas:
        tab[0] = {"g": rng.choice(["measure", "m"]), "p": [], "t": g.one_target(maxn)[0] if rng.random() < 0.4 else T_int(rng.randrange(maxn))}
        tab[1] = {"g": "reset", "p": [], "t": T_int(rng.randrange(maxn) - (maxn if rng.random() < 0.3 else 0))}
    # late binding slices are the interesting targets
    tab[2] = {"g": rng.choice([g for g in ("h", "x", "y", "t") if g in gates]), "p": [], "t": T_slice()}
    tab[3] = {"g": rng.choice([g for g in ("cx", "cz", "cphase") if g in gates]), "p": [], "t": T_tup(T_int(0), T_int(1))}
    if tab[3]["g"] == "cphase":
        tab[3]["p"] = [((4, 0, 0), 0)]
    tab[4] = {"g": "x", "p": [], "t": T_slice(1, None)}
    tab[5] = {"g": "h", "p": [], "t": T_int(-1)}
    return tab


def grow1(n, t):
    """largest qubit named (only used to pick operations that fit)"""
    return n


def histories(rng, groups, per, *, maxn=3, maxops=7, depth=14, slots=3, modes=("run",), meas=True, bad=(), gates=ALLG, chk=None, sizes=None, tablesize=12, long=False):
    """list of (table, history)"""
    out = []
    for k in range(groups):
        tab = op_table(rng, maxn, tablesize, meas=meas and k % 3 != 2, gates=gates)
        data = {"ops": [op_json(o) for o in tab], "bad": list(range(len(bad))), "slots": slots, "maxops": maxops,
                "maxn": maxn, "depth": depth, "modes": list(modes), "long": long, "sizes": sizes or [0, 1, 2, maxn]}
        r = tlc("CircuitSM", CFG, data, simulate=per, depth=depth + 3, seed=rng.randrange(1, 10 ** 6), workers=1)
        if chk is not None:
            chk.tlc_stats(r)
        out += [(tab, h) for h in r.records]
    return out


def key_of(tab_id, c):
    return (tab_id, c["n"], tuple(map(tuple, c["ops"])))


def evaluate(hists, final=True, chk=None, wanted=("run",)):
    """exact terminal states for every circuit value that is run: key -> list of terminals or None"""
    progs, keys = [], {}
    for tab, h in hists:
        for e in h:
            cs = [e["post"][e["s"] - 1]] if e["a"] in wanted else []
            if e is h[-1] and final:
                cs = e["post"]
            for c in cs:
                k = key_of(id(tab), c)
                if k in keys:
                    continue
                ops = [(tab[i - 1], d) for i, d in c["ops"]]
                nm = sum(3 if o["t"]["k"] != "i" else 1 for o, d in ops if o["g"] in ("measure", "m", "reset"))
                split = sum(SPLIT.get(o["g"], 0) * (1 if o["t"]["k"] == "i" else 2) for o, d in ops if any(any(q) for q, _ in o["p"]))
                if nm > 7 or split > 14:
                    keys[k] = None
                    continue
                keys[k] = len(progs)
                progs.append({"n": c["n"], "ops": [], "k": ops})
    terms, r = tlc_programs(progs)
    if chk is not None:
        chk.tlc_stats(r)
        chk.count("circuit_values", len(progs))
    out = {}
    for k, i in keys.items():
        out[k] = None if i is None else [(tuple(t["c"]), state_eval(t, VALS, 2 ** k[1])) if t["ok"] else None for t in terms[i]]
    return out


def fingerprint(c):
    return (c.n_qubits, [(g.lowername, tuple(float(x) for x in g.params), repr(g.targets), getattr(g, "reverse_pairs", None)) for g in c.ops])


class Replay:
    """runs one history; `self.err` is None or a description of the violation"""

    def __init__(self, tab, hist, expect, rng, backend_factory=None, bad=(), check_fp=True, tol=1e-9, name="numpy", p_dist=0.0):
        from blueqat import Circuit
        self.Circuit = Circuit
        self.tab, self.hist, self.expect, self.rng, self.bad, self.tol = tab, hist, expect, rng, bad, tol
        self.name = name
        self.runs = self.dists = 0
        self.p_dist = p_dist
        if backend_factory is None:
            from blueqat.backends.numpy_backend import NumPyBackend as backend_factory
        self.B = {1: backend_factory(), 2: backend_factory()}
        self.kept = []
        self.pf = [o["g"] == "cu1" for o in tab]
        self.err = None

    def fail(self, what, step):
        lines = []
        for e in self.hist[: step + 1]:
            lines.append(" ".join(str(v) for k, v in e.items() if k != "post"))
        self.err = (f"{what} at step {step} of [{' ; '.join(lines)}] with operations {fmt_ops(self.tab)}",
                    {"table": self.tab, "history": self.hist[: step + 1], "what": what})
        return False

    # ---- one way of running -------------------------------------------------
    def do_run(self, c, mode):
        """-> ('none',) | ('sv', vec) | ('counts', Counter, shots) | ('both', vec, Counter, shots)"""
        B = self.B
        if mode == "run":
            return "sv", c.run(backend=self.name) if self.name != "numpy" else c.run()
        if mode == "name":
            return "sv", c.run(backend=self.name)
        if mode == "run_with":
            return "sv", getattr(c, "run_with_" + self.name)()
        if mode == "shots":
            return "counts", c.run(shots=5, backend=self.name), 5
        if mode == "both":
            v, s = c.run(returns="statevector_and_shots", shots=3, backend=self.name)
            return "both", v, s, 3
        if mode == "svshots":
            return "sv", c.run(returns="statevector", shots=2, backend=self.name)
        if mode == "ig":
            return "ig", c.run(ignore_global=True, backend=self.name)
        if mode == "cache":
            c.make_cache(backend=self.name)
            return ("none",)
        if mode == "defcache":
            c.make_cache()
            return ("none",)
        if mode in ("B1", "B2"):
            return "sv", c.run(backend=B[int(mode[1])])
        if mode == "B1shots":
            return "counts", c.run(shots=4, backend=B[1]), 4
        if mode == "B2ig":
            return "ig", c.run(backend=B[2], ignore_global=True)
        if mode == "B1cache":
            B[1].make_cache(c.ops, c.n_qubits)
            return ("none",)
        if mode == "B12":
            B[2] = B[1].copy()
            return "sv", c.run(backend=B[2])
        if mode == "B21":
            B[1] = B[2].copy()
            return "sv", c.run(backend=B[1])
        if mode == "poison":
            v = c.run(backend=self.name)
            w = v.copy()
            v[:] = self.rng.choice([0.5, np.nan, 0])
            return "sv", w
        if mode == "Bpoison":
            v = c.run(backend=B[1])
            w = v.copy()
            v[:] = self.rng.choice([0.5, np.nan, 0])
            return "sv", w
        raise MachineryError("mode " + mode)

    def check_dist(self, c, want, n, step):
        """frequencies of a circuit that has been through the history"""
        from stochastic import bad_counts
        if not want or want[0] is None or n == 0:
            return True
        probs = {}
        for cr, w in want:
            k = "".join(map(str, cr))
            probs[k] = probs.get(k, 0.0) + float(np.vdot(w, w).real)
        if abs(sum(probs.values()) - 1) > 1e-7:
            raise MachineryError(f"probabilities {probs}")
        def work():
            if self.rng.random() < 0.5:
                return c.run(shots=300, backend=self.name), 300
            tot = {}
            be = self.B[1] if self.rng.random() < 0.5 else self.name
            for _ in range(80):
                for k, v in c.run(shots=1, backend=be).items():
                    tot[k] = tot.get(k, 0) + v
            return tot, 80
        r, err = guarded(work)
        if err is not None:
            return self.fail(f"run with shots raised {err!r}", step)
        bad = bad_counts(r[0], probs, r[1])
        self.dists += 1
        return True if bad is None else self.fail("frequencies: " + bad, step)

    def check_run(self, c, want, mode, n, step, phase):
        before = fingerprint(c)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res, err = guarded(self.do_run, c, mode)
        self.runs += 1
        if fingerprint(c) != before:
            return self.fail(f"run ({mode}) changed the circuit", step)
        invalid = want is not None and want[0] is None
        if err is not None:
            if invalid or want is None:
                return True
            return self.fail(f"run ({mode}) raised {err!r}", step)
        if res[0] == "none":
            return True
        if invalid:
            return self.fail(f"run ({mode}) of a circuit with invalid targets returned {res!r}"[:300], step)
        if res[0] in ("sv", "ig", "both"):
            v = res[1]
            if np.shape(v) != (2 ** n,):
                return self.fail(f"run ({mode}) returned a vector of shape {np.shape(v)}", step)
            if want is not None:
                ok = False
                for cr, w in want:
                    nw = np.linalg.norm(w)
                    if nw < 1e-7:
                        continue
                    u = w / nw
                    d = dist_phase(v, u) if (phase or res[0] == "ig") else dist(v, u)
                    if d < 1e-8:
                        ok = True
                        break
                if not ok:
                    return self.fail(f"run ({mode}) returned {np.round(v, 4)}, not a state of this circuit", step)
            self.kept.append((v, v.copy()))
        if res[0] in ("counts", "both"):
            cnt, shots = res[-2], res[-1]
            tot = sum(cnt.values())
            if tot != (shots if n > 0 else tot) or tot > shots:
                return self.fail(f"{tot} counts for {shots} shots", step)
            if want is not None and n > 0:
                keys = {"".join(map(str, cr)) for cr, w in want if np.linalg.norm(w) > 1e-7}
                if any(k not in keys for k in cnt):
                    return self.fail(f"counts {dict(cnt)} outside of the possible keys {sorted(keys)}", step)
        return True

    # ---- the history ---------------------------------------------------------
    def run(self):
        Circuit, tab, rng = self.Circuit, self.tab, self.rng
        slots = None
        for step, e in enumerate(self.hist):
            post = e["post"]
            if slots is None:
                slots = [Circuit() for _ in post]
                fps = [fingerprint(c) for c in slots]
            a = e["a"]
            changed = None
            if a == "new":
                changed = e["s"] - 1
                slots[changed] = Circuit(e["n"])
            elif a == "append":
                changed = e["s"] - 1
                r, err = guarded(append_op, slots[changed], tab[e["i"] - 1], VALS)
                if err is not None:
                    return self.fail(f"append raised {err!r}", step)
                if r is not slots[changed]:
                    return self.fail("append returned another object than the circuit", step)
            elif a == "bad":
                name, f = self.bad[e["i"] - 1]
                c = slots[e["s"] - 1]
                p = c.copy()
                pfp = fingerprint(p)
                _, err = guarded(f, p)
                if err is None:
                    _, err2 = guarded(p.run)
                    if err2 is None:
                        return self.fail(f"invalid call {name} neither fails nor makes run fail", step)
                else:
                    if fingerprint(p) != pfp:
                        return self.fail(f"failed call {name} changed the circuit to {p!r}", step)
                    guarded(f, c)
            elif a == "add":
                z = e["z"] - 1
                x, y = slots[e["x"] - 1], slots[e["y"] - 1]
                r, err = guarded(lambda: x + y)
                if err is not None or r is x or r is y:
                    return self.fail(f"+ gave {err!r} or an operand", step)
                slots[z] = r
                changed = z
            elif a == "iadd":
                changed = e["x"] - 1
                x = old = slots[changed]
                y = slots[e["y"] - 1]
                try:
                    x += y
                except Exception as ex:
                    return self.fail(f"+= raised {ex!r}", step)
                if x is not old:
                    return self.fail("+= made another object", step)
            elif a == "copy":
                changed = e["z"] - 1
                x = slots[e["x"] - 1]
                how = rng.random()
                r, err = guarded(lambda: x.copy(copy_backends=e["b"]) if how < 0.65 or not e["b"] else x.copy() if how < 0.8 else
                                 copy.deepcopy(x) if how < 0.9 else pickle.loads(pickle.dumps(x)))
                if err is not None or r is x:
                    return self.fail(f"copy gave {err!r} or the same object", step)
                slots[changed] = r
            elif a == "dagger":
                x = slots[e["x"] - 1]
                r, err = guarded(lambda: x.dagger(ignore_measurement=e["ign"], copy_backends=e["b"]))
                if e["raises"]:
                    if not isinstance(err, ValueError):
                        return self.fail(f"dagger of a measured circuit gave {err!r}", step)
                elif err is not None or r is x:
                    return self.fail(f"dagger gave {err!r} or the same object", step)
                else:
                    changed = e["z"] - 1
                    slots[changed] = r
            elif a == "run":
                s = e["s"] - 1
                spec = post[s]
                want = self.expect.get(key_of(id(tab), spec))
                phase = any(self.pf[i - 1] for i, _ in spec["ops"])
                if not self.check_run(slots[s], want, e["m"], spec["n"], step, phase):
                    return False
            for i, (c, sp) in enumerate(zip(slots, post)):
                if i != changed and fingerprint(c) != fps[i]:
                    return self.fail(f"circuit {i + 1} changed, but only {changed} may change", step)
                if c.n_qubits != sp["n"]:
                    return self.fail(f"circuit {i + 1} has {c.n_qubits} qubits instead of {sp['n']}", step)
            fps = [fingerprint(c) for c in slots]
        last = len(self.hist) - 1
        for i, (c, sp) in enumerate(zip(slots, self.hist[-1]["post"])):
            want = self.expect.get(key_of(id(tab), sp))
            phase = any(self.pf[j - 1] for j, _ in sp["ops"])
            if not self.check_run(c, want, rng.choice(("run", "run", "B1")), sp["n"], last, phase):
                self.err = (f"final run of circuit {i + 1}: " + self.err[0], self.err[1])
                return False
            if self.p_dist and any(tab[j - 1]["g"] in ("m", "measure", "reset") for j, _ in sp["ops"]) and rng.random() < self.p_dist:
                if not self.check_dist(c, want, sp["n"], last):
                    self.err = (f"final frequencies of circuit {i + 1}: " + self.err[0], self.err[1])
                    return False
        for v, w in self.kept:
            if not np.array_equal(v, w):
                return self.fail("a vector returned earlier was altered by later calls", last)
        return True


def replay_all(chk, hists, expect, rng, bad=(), **kw):
    for tab, h in hists:
        rp = Replay(tab, h, expect, rng, bad=bad, **kw)
        ok = rp.run()
        chk.trace()
        chk.count("steps", len(h))
        chk.count("runs", rp.runs)
        if rp.dists:
            chk.count("frequency_tables", rp.dists)
        if not ok:
            chk.violation(*rp.err)
