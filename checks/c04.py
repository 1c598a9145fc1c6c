"""C04: target expressions.  TargetCases.tla defines growth and resolution; all single
expressions over a range are enumerated, tuples, pairs, triples and later growth are
generated; every case is replayed on the real circuit and every backend."""
from qv import *
from unitary import *
from record import *
import qasm as Q

CFG = "SPECIFICATION Spec\nCONSTANTS Source = \"%s\" MaxQ = %d Neg = %d Hi = %d\nINVARIANT NamesInside ResInside NonNegOK SliceFilter\nPROPERTY Monotone\nCHECK_DEADLOCK FALSE\n"


class Idx:
    """an object that is an index only through __index__"""

    def __init__(self, v):
        self.v = v

    def __index__(self):
        return self.v

    def __repr__(self):
        return f"Idx({self.v})"


CONVS = (int, int, np.int64, np.uint8, Idx)
GATES = {1: ("x", "h", "y", "t", "u3", "measure", "reset", "i", "sdg", "rx"), 2: ("cx", "swap", "cz", "crz", "ch", "cu3", "ryy", "cphase"), 3: ("ccx", "cswap")}


def conv_safe(t, conv):
    if conv is np.uint8 and _neg(t):
        return int
    return conv


def _neg(t):
    if t["k"] == "i":
        return t["v"] < 0
    if t["k"] == "s":
        return any(x and x[0] < 0 for x in (t["a"], t["b"], t["c"]))
    if t["k"] == "t":
        return any(_neg(x) for x in t["v"])
    return False


def rand_expr(rng, n, depth=0):
    r = rng.random()
    if r < 0.55:
        return T_int(rng.randint(-n - 1, n))
    o = lambda lo, hi: rng.choice([None, None] + list(range(lo, hi)))
    return T_slice(o(-n - 1, n + 1), o(-n - 1, n + 2), rng.choice([None, None, None, 1, 2, -1, -2, 3, 0] if rng.random() < 0.1 else [None, None, 1, 2, -1, -2, 3]))


def long_t(rng, k, n):
    """many elements, the largest anywhere"""
    m = rng.randint(4, 9)
    def side():
        s = [rng.randint(-n, n - 1) for _ in range(m)]
        if rng.random() < 0.6:
            s[rng.randrange(m)] = rng.randint(n, n + 3)
        return s
    a, b = side(), side()
    if k == 1:
        el = [T_int(x) for x in a]
        if rng.random() < 0.3:
            el[rng.randrange(m)] = rand_expr(rng, n)
        return T_tup(*el)
    for i in range(m):
        while a[i] == b[i]:
            b[i] = rng.randint(-n, n)
    return T_tup(T_tup(*map(T_int, a)), T_tup(*map(T_int, b)))


def rand_t(rng, k, n):
    if k < 3 and rng.random() < 0.12:
        return long_t(rng, k, n)
    if k == 1:
        if rng.random() < 0.3:
            return rand_expr(rng, n)
        return T_tup(*[rand_expr(rng, n) for _ in range(rng.choice((0, 1, 2, 2, 3)))])
    if k == 2:
        side = lambda: rand_expr(rng, n) if rng.random() < 0.6 else T_tup(*[rand_expr(rng, n) for _ in range(rng.choice((1, 2, 2, 3)))])
        r = rng.random()
        if r < 0.5:
            # sides of equal length are rare by chance
            for _ in range(50):
                a, b = side(), side()
                la, lb = (sum(1 if x["k"] == "i" else len(range(n)[t_obj(x)]) for x in (s["v"] if s["k"] == "t" else [s]) if not (x["k"] == "s" and x["c"] == [0])) for s in (a, b))
                if la == lb:
                    return T_tup(a, b)
        if r < 0.6:
            return T_tup(*[rand_expr(rng, n) for _ in range(rng.choice((1, 3)))])
        if r < 0.65:
            return rand_expr(rng, n)
        return T_tup(side(), side())
    return T_tup(*[T_int(rng.randint(-n - 1, n)) for _ in range(rng.choice((3, 3, 3, 3, 3, 2, 4)))])


def start(c, g):
    w = wrapper(c, g)
    if NPARAM.get(g, 0):
        w = w(*[0.3 + 0.1 * i for i in range(NPARAM[g])])
    return w


def mk(c, op, g, conv, w=None):
    return (w or start(c, g))[t_obj(op["t"], conv_safe(op["t"], conv))]


def flip(state, qs):
    for (q,) in qs:
        state ^= 1 << q
    return state


def run(chk):
    from blueqat import Circuit
    rng = chk.rng
    big = THOROUGH
    r = tlc("TargetCases", CFG % ("enum", 5 if big else 4, 7 if big else 5, 7 if big else 5), timeout=400)
    chk.tlc_stats(r)
    cases = r.records
    chk.count("enumerated_expressions", len(cases))
    data = []
    for _ in range(6000 if big else 1800):
        n0 = rng.choice((0, 1, 2, 3, 3, 4, 5))
        nn = max(n0, 2)
        ops = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            k = rng.choice((1, 1, 2, 2, 2, 3))
            ops.append({"k": k, "t": rand_t(rng, k, nn)})
        data.append({"n": n0, "ops": ops})
    # large registers: indices from both ends
    for _ in range(900 if big else 250):
        n0 = rng.choice((17, 33, 63, 64, 65, 100, 129, 200))
        ops = []
        for _ in range(rng.choice((1, 1, 2))):
            k = rng.choice((1, 1, 2, 2, 3))
            edge = lambda: rng.choice((-1, -2, n0 - 1, n0, 0, -n0, n0 // 2, -n0 // 2, rng.randint(-n0, n0 - 1), rng.randint(-n0, n0 - 1)))
            if k == 1 and rng.random() < 0.4:
                ops.append({"k": 1, "t": rand_expr(rng, n0)})
            elif k == 2 and rng.random() < 0.5:
                m = rng.choice((1, 2, 3))
                ops.append({"k": 2, "t": T_tup(T_tup(*[T_int(edge()) for _ in range(m)]), T_tup(*[T_int(edge()) for _ in range(m)]))})
            else:
                es = [T_int(edge()) for _ in range(k if k > 1 else rng.choice((1, 2, 3)))]
                ops.append({"k": k, "t": es[0] if k == 1 and len(es) == 1 else T_tup(*es)})
        data.append({"n": n0, "ops": ops})
    r = tlc("TargetCases", CFG % ("file", 0, 0, 0), data)
    chk.tlc_stats(r)
    gen = r.records
    chk.count("generated_cases", len(gen))
    Rec = recorder(tuple(g for k in GATES for g in GATES[k]) + NEEDED)
    sym_left = [150 if big else 60]

    def describe(c, gs):
        return f"Circuit({c['n0']})" + "".join("." + g + _st_(o["t"]) for o, g in zip(c["ops"], gs))

    from qv import _st as _st_
    for ci, c in enumerate(cases + gen):
        chk.trace()
        conv = CONVS[ci % len(CONVS)]
        enum = ci < len(cases)
        gs = [("x" if enum and ci % 2 else rng.choice(GATES[o["k"]])) for o in c["ops"]]
        real = Circuit(c["n0"])
        # ---- appending: growth, or an error that leaves the circuit alone
        failed = False
        # (an operation may be invalid at append time already, or only when run)
        staged = not enum and ci % 3 != 0
        # c.gate(..) may be kept and used later on
        kept = {g: start(real, g) for g in gs} if rng.random() < 0.2 else {}
        for o, g, n in zip(c["ops"], gs, c["ns"]):
            if staged:
                # earlier uses at a smaller size don't pin the targets down
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    for f in (real.to_qasm, lambda: real.run(backend=Rec())) + ((real.run, lambda: real.dagger().run(), lambda: real.copy().run()) if real.n_qubits < 14 else ()):
                        guarded(f)
            before = (real.n_qubits, len(real.ops))
            _, err = guarded(mk, real, o, g, conv, kept.get(g))
            if err is not None:
                failed = True
                if (real.n_qubits, len(real.ops)) != before:
                    chk.violation(f"failed append changed the circuit: {describe(c, gs)} {err!r}", c)
                break
            if real.n_qubits != n:
                chk.violation(f"{describe(c, gs)} has {real.n_qubits} qubits after appending, specified {n}", c)
                failed = True
                break
        allok = all(x["ok"] for x in c["res"])
        if failed:
            if allok:
                chk.violation(f"{describe(c, gs)} can't be appended ({err!r}), but its targets are valid: {c['res']}", c)
            continue
        want = [(g if g != "m" else "measure", [tuple(q) for q in x["q"]]) for g, x in zip(gs, c["res"])]
        # ---- every backend: resolution in order, or an error
        def through_rec():
            flat = real.run(backend=Rec())["flat"]
            out, n = [], real.n_qubits
            for gt in flat:
                out.append((gt.lowername, [tuple(int(v) for v in p) for p in gt.control_target_iter(n)] if hasattr(gt, "control_target_iter") else
                            [(int(q),) for q in gt.target_iter(n)] if hasattr(gt, "target_iter") else [tuple(int(v) for v in gt.resolve_targets(n))]))
            return out
        def through_qasm():
            n, lines = Q.parse(real.to_qasm())
            if n != real.n_qubits:
                raise RuntimeError(f"register of {n} qubits")
            return lines
        got, err = guarded(through_rec)
        # an unresolved gate (e.g. three-qubit) is resolved by the recorder above
        if allok != (err is None):
            chk.violation(f"{describe(c, gs)} on a recording backend: {got if err is None else repr(err)}, specified {want if allok else 'an error'}", c)
            continue
        if allok and [x for x in got if x[1]] != [x for x in want if x[1]]:
            chk.violation(f"{describe(c, gs)} reaches a backend as {got}, specified {want}", c)
            continue
        got, err = guarded(through_qasm)
        if allok != (err is None):
            chk.violation(f"{describe(c, gs)} as OpenQASM: {got if err is None else repr(err)}, specified {want if allok else 'an error'}", c)
            continue
        if allok:
            # statements of directly exported gates, in order
            direct = [("id" if g == "i" else "cu1" if g == "cphase" else g, q) for g, qs in want for q in qs]
            if all(g not in ("sdg", "crz", "ryy") for g in gs):
                if [(l["g"], tuple(l["q"])) for l in got] != direct:
                    chk.violation(f"{describe(c, gs)} is exported as {[(l['g'], l['q']) for l in got]}, specified {direct}", c)
                    continue
        if real.n_qubits > 13:
            continue
        res, err = guarded(lambda: real.run())
        if allok != (err is None):
            chk.violation(f"{describe(c, gs)} on the simulator: {'a result' if err is None else repr(err)}, specified {want if allok else 'an error'}", c)
            continue
        # x-only version on the simulator: which qubits are flipped
        if allok and all(o["k"] == 1 for o in c["ops"]):
            xc = Circuit(c["n0"])
            for o in c["ops"]:
                mk(xc, o, "x", conv)
            s = 0
            for x in c["res"]:
                s = flip(s, x["q"])
            v, err = guarded(lambda: xc.run())
            if err is not None or abs(v[s] - 1) > 1e-9:
                chk.violation(f"{describe(c, ['x'] * len(gs))} flips other qubits than {s:b}: {err!r}", c)
        elif allok and all(o["k"] <= 2 for o in c["ops"]) and len(c["ops"]) >= 1:
            # classical gates on a basis state: cnot per pair, in order
            xc = Circuit(c["n0"])
            init = rng.getrandbits(max(real.n_qubits, 1))
            for b in range(real.n_qubits):
                if init >> b & 1:
                    xc.x[b]
            s = init & (2 ** real.n_qubits - 1)
            xc.n_qubits = max(xc.n_qubits, c["n0"])
            pre = Circuit(c["n0"])
            for o in c["ops"]:
                mk(pre, o, "x" if o["k"] == 1 else "cx", conv)
            full = xc + pre
            for o, x in zip(c["ops"], c["res"]):
                if o["k"] == 1:
                    s = flip(s, x["q"])
                else:
                    for a, b in x["q"]:
                        s ^= (s >> a & 1) << b
            v, err = guarded(lambda: full.run())
            if err is not None or abs(v[s] - 1) > 1e-9:
                chk.violation(f"cx/x version of {describe(c, gs)} on basis state {init:b} doesn't give {s:b}: {err!r}", c)
        if sym_left[0] > 0 and real.n_qubits <= 3 and not any(g in ("measure", "reset") for g in gs) and rng.random() < 0.2:
            sym_left[0] -= 1
            u, err = guarded(lambda: np.array(real.to_unitary().evalf(), dtype=complex))
            if allok != (err is None) or (allok and dist_phase(u[:, 0], res) > 1e-7):
                chk.violation(f"to_unitary of {describe(c, gs)} resolves targets differently: {err!r}", c)
    # not an index at all
    for bad in ("a", 1.0, None, [0], {0: 1}, 1j, b"x", np.float64(1), Ellipsis, object(), "0"):
        for g, t in (("x", bad), ("x", (0, bad)), ("measure", bad), ("cx", (0, bad)), ("cx", (bad, 0)), ("cx", ((0, bad), (1, 2))), ("ccx", (0, 1, bad)), ("ccx", (bad, 0, 1)),
                     ("h", slice(bad, 2) if bad is not None else "q"), ("rz", (bad,)), ("cswap", (0, bad, 2)), ("u3", slice(0, bad) if bad is not None else "q")):
            c = Circuit(3)
            w = getattr(c, g)
            if NPARAM.get(g):
                w = w(*[0.1] * NPARAM[g])
            chk.trace()
            _, err = guarded(lambda: w[t])
            if err is None:
                for f in (c.run, c.to_qasm, lambda: c.run(backend=Rec())):
                    v, err = guarded(f)
                    if err is None:
                        chk.violation(f"{g}[{t!r}] is accepted", [g, repr(t)])
                        break
            elif c.n_qubits != 3 or len(c.ops):
                chk.violation(f"{g}[{t!r}] raised {err!r} but changed the circuit", [g, repr(t)])
    for c in gen[:4]:
        chk.sample({"case": str(c)[:400]})
