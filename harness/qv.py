"""Shared machinery of the checks: running TLC, evaluating exact amplitudes,
building real circuits from specification programs, reporting."""
import json, glob, os, sys, time, math, cmath, random, shutil, subprocess, tempfile, warnings
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVIDENCE_ROOT = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ.setdefault("OMP_NUM_THREADS", "2")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "2")

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
RADIX = 256
NSYM = 3
TOL = 1e-8


class MachineryError(Exception):
    pass


# --------------------------------------------------------------------- TLC
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcResult:
    def __init__(self, out, rc, states, distinct, records, violated):
        self.out, self.rc, self.states, self.distinct = out, rc, states, distinct
        self.records, self.violated = records, violated


def tlc(module, cfg, data=None, *, simulate=None, depth=None, seed=None, workers=8,
        timeout=850, env=None, expect_ok=True, extra=()):
    """Run TLC on spec/<module>.tla with configuration text `cfg`.
    `data` is written as JSON to the file the module reads as IOEnv.IN; lines the
    module writes to IOEnv.OUT come back as `records`."""
    tmp = tempfile.mkdtemp(prefix="qv_tlc_")
    try:
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if data is not None:
            with open(os.path.join(tmp, "in.json"), "w") as f:
                json.dump(data, f)
        e["IN"] = os.path.join(tmp, "in.json")
        e["OUT"] = os.path.join(tmp, "out.jsonl")
        if env:
            e.update(env)
        with open(os.path.join(tmp, "m.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx6g", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(tmp, "st"),
               "-noGenerateSpecTE", "-lncheck", "final", "-config", os.path.join(tmp, "m.cfg")]
        if simulate is not None:
            cmd += ["-simulate", f"num={simulate}"]
            if depth:
                cmd += ["-depth", str(depth)]
            cmd += ["-seed", str(seed if seed is not None else SEED)]
        cmd += list(extra)
        cmd.append(os.path.join(SPEC, module + ".tla"))
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        recs = []
        try:
            for name in sorted(glob.glob(e["OUT"] + "*")):
                for line in open(name):
                    line = line.strip()
                    if line:
                        v = json.loads(line)
                        if isinstance(v, str):
                            v = json.loads(v)
                        recs.append(v)
        except json.JSONDecodeError:
            # lines longer than a buffer, torn by two workers writing at once
            if workers == 1:
                raise MachineryError(f"unreadable output of {module}")
            return tlc(module, cfg, data, simulate=simulate, depth=depth, seed=seed, workers=1,
                       timeout=timeout, env=env, expect_ok=expect_ok, extra=extra)
        states = distinct = 0
        import re
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", p.stdout):
            states, distinct = int(m.group(1)), int(m.group(2))
        m = re.search(r"The number of states generated: (\d+)", p.stdout)
        if m:
            states = int(m.group(1))
            distinct = distinct or states
        viol = None
        m = re.search(r"Error: (Invariant|Action property|Temporal properties|Property|Assumption)([^\n]*)", p.stdout)
        if m:
            viol = m.group(0)
        res = TlcResult(p.stdout, p.returncode, states, distinct, recs, viol)
        if expect_ok and p.returncode != 0:
            raise MachineryError(f"TLC failed on {module} rc={p.returncode}\n" + p.stdout[max(0, p.stdout.find("Error:")):][:6000])
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tlc_programs(progs, *, invariants=("NormOK", "CregBits"), **kw):
    """Evaluate programs exactly: returns (list of lists of terminal records, TlcResult)."""
    cfg = "SPECIFICATION Spec\n" + ("INVARIANT " + " ".join(invariants) + "\n" if invariants else "") + \
          "CHECK_DEADLOCK FALSE\n"
    data = [{"n": p["n"], "x": p.get("x", 0),
             "ops": [op_json(o) for o in p["ops"]], "d": [op_json(o) for o in p.get("d", ())],
             "l": side_json({"k": "qasm", "ops": p.get("l", ())})["ops"],
             "k": [[op_json(o), d] for o, d in p.get("k", ())]} for p in progs]
    r = tlc("Programs", cfg, data, **kw)
    out = [[] for _ in progs]
    for rec in r.records:
        out[rec["p"] - 1].append(rec)
    for i, o in enumerate(out):
        if not o:
            raise MachineryError(f"no terminal state for program {i}: {progs[i]}")
    return out, r


# ------------------------------------------------------------ symbolic angles
class Lin(float):
    """A float that remembers it is sum_j q_j*a_j/4 + c*pi/4 (exact q, c)."""
    __slots__ = ("q", "c", "vals")

    def __new__(cls, q, c, vals):
        q = tuple(Fraction(x) for x in q)
        c = Fraction(c)
        v = sum(float(x) * a / 4 for x, a in zip(q, vals)) + float(c) * math.pi / 4
        self = float.__new__(cls, v)
        self.q, self.c, self.vals = q, c, vals
        return self

    def __reduce__(self):
        return (Lin, (self.q, self.c, self.vals))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @staticmethod
    def _const(x):
        if isinstance(x, bool) or not isinstance(x, (int, float)):
            return None
        r = float(x) / (math.pi / 4)
        f = Fraction(r).limit_denominator(16)
        return f if abs(float(f) - r) < 1e-12 * max(1, abs(r)) else None

    def _bin(self, o, s, t):
        if isinstance(o, Lin) and o.vals == self.vals:
            return Lin([s * a + t * b for a, b in zip(self.q, o.q)], s * self.c + t * o.c, self.vals)
        k = Lin._const(o)
        if k is None:
            return NotImplemented
        return Lin([s * a for a in self.q], s * self.c + t * k, self.vals)

    def __add__(self, o):
        r = self._bin(o, 1, 1)
        return float(self) + o if r is NotImplemented else r
    __radd__ = __add__

    def __sub__(self, o):
        r = self._bin(o, 1, -1)
        return float(self) - o if r is NotImplemented else r

    def __rsub__(self, o):
        r = self._bin(o, -1, 1)
        return o - float(self) if r is NotImplemented else r

    def __neg__(self):
        return Lin([-a for a in self.q], -self.c, self.vals)

    def __pos__(self):
        return self

    @staticmethod
    def _rat(o):
        if isinstance(o, bool) or not isinstance(o, (int, float)) or isinstance(o, Lin):
            return None
        if not math.isfinite(o):
            return None
        f = Fraction(o)
        return f if f.denominator <= 1024 and abs(f.numerator) <= 4096 else None

    def __mul__(self, o):
        f = Lin._rat(o)
        if f is None:
            return float(self) * o
        return Lin([a * f for a in self.q], self.c * f, self.vals)
    __rmul__ = __mul__

    def __truediv__(self, o):
        f = Lin._rat(o)
        if not f:
            return float(self) / o
        return Lin([a / f for a in self.q], self.c / f, self.vals)


class Vals:
    """Numeric values of the symbols; equality by identity (cheap)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(float(x) for x in v)

    def __iter__(self):
        return iter(self.v)

    def __getitem__(self, i):
        return self.v[i]

    def __deepcopy__(self, memo):
        return self

    def __len__(self):
        return len(self.v)


def angle(p, vals, kind=0):
    """Python number for parameter p = (q-tuple, c)."""
    q, c = p
    if kind == "lin":
        return Lin(q, c, vals)
    return sum(x * a / 4 for x, a in zip(q, vals)) + c * math.pi / 4


def near_vals(rng):
    """generic numbers close to special angles: a tolerance anywhere in the code becomes visible"""
    d = 10.0 ** -rng.choice((3, 4, 5, 6))
    r = lambda: rng.choice((-1, 1)) * rng.uniform(1, 9) * d
    c = [rng.choice((0, 1, 2, 3, 4, 8, -1, -2, -4, 6, 0.5, 1 / 3, 4 / 3)) * math.pi / 4 + r() for _ in range(NSYM)]
    return Vals(c)


class Encoder:
    """Angles seen in the implementation -> specification parameters.
    Unknown numbers become fresh symbols (at most NSYM in total)."""

    def __init__(self, vals):
        self.vals = [float(x) for x in vals]
        self.used = NSYM if len(self.vals) >= NSYM else len(self.vals)
        self.fixed = len(self.vals)

    def enc_deep(self, x):
        """like enc, but searches all small combinations of the symbols and never
        introduces new ones (KeyError when nothing matches to full precision)"""
        x = float(x)
        if self._deep is None:
            rngq = range(-26, 27, 2)
            tab = {}
            for q0 in rngq:
                for q1 in rngq:
                    for q2 in rngq:
                        v = q0 * self.vals[0] / 4 + q1 * self.vals[1] / 4 + q2 * self.vals[2] / 4
                        r = v / (math.pi / 4)
                        tab.setdefault(round((r - math.floor(r)) * 1e7), []).append(((q0, q1, q2), v))
            self._deep = tab
        r = x / (math.pi / 4)
        key = round((r - math.floor(r)) * 1e7)
        best = None
        for k in (key - 1, key, key + 1, 0, 10 ** 7):
            for q, v in self._deep.get(k, ()):
                d = (x - v) / (math.pi / 4)
                c = round(d)
                if abs(d - c) < 1e-11 * max(1.0, abs(r)) and abs(c) < 200:
                    w = sum(map(abs, q))
                    if best is None or w < best[0]:
                        best = (w, (q, c))
        if best is None:
            raise KeyError(f"angle {x!r} is no combination of the circuit's angles")
        return best[1]

    _deep = None

    def enc(self, x):
        if isinstance(x, Lin):
            if all(f.denominator == 1 and f.numerator % 2 == 0 for f in x.q) and x.c.denominator == 1:
                return (tuple(int(f) for f in x.q) + (0,) * (NSYM - len(x.q)), int(x.c))
            x = float(x)
        x = float(x)
        r = x / (math.pi / 4)
        k = round(r)
        if abs(r - k) < 1e-11 * max(1.0, abs(r)):
            return ((0,) * NSYM, k)
        for j, a in enumerate(self.vals):
            if a == 0:
                continue
            for m in (4, -4, 2, -2, 8, -8, 6, -6, 12, -12):
                d = (x - m * a / 4) / (math.pi / 4)
                k = round(d)
                if abs(d - k) < 1e-11 * max(1.0, abs(d)) and abs(k) <= 64:
                    q = [0] * NSYM
                    q[j] = m
                    return (tuple(q), k)
        if len(self.vals) < NSYM:
            self.vals.append(x)
            q = [0] * NSYM
            q[len(self.vals) - 1] = 4
            return (tuple(q), 0)
        raise KeyError("too many distinct angles")


def pack_q(q):
    return sum(int(x) * RADIX ** j for j, x in enumerate(q))


def op_json(op):
    return {"g": op["g"], "p": [[pack_q(q), c] for q, c in op["p"]], "t": op["t"]}


# ------------------------------------------------------- evaluating amplitudes
def _decode(k):
    p = k % 8
    E = (k - p) // 8
    es = []
    for _ in range(NSYM):
        e = E % RADIX
        if e >= RADIX // 2:
            e -= RADIX
        es.append(e)
        E = (E - e) // RADIX
    assert E == 0, "exponent overflow"
    return p, es


_keycache = {}


def poly_eval(poly, vals):
    s = 0j
    for k, c in poly:
        d = _keycache.get(k)
        if d is None:
            d = _keycache[k] = _decode(k)
        p, es = d
        ph = math.pi * p / 8
        for e, a in zip(es, vals):
            if e:
                ph += e * a / 4
        s += c * cmath.exp(1j * ph)
    return s


def state_eval(rec, vals, dim):
    import numpy as np
    v = np.zeros(dim, dtype=complex)
    f = 2.0 ** (-rec["s"] / 2)
    for x, poly in rec["a"]:
        v[x] = poly_eval(poly, vals) * f
    return v


def choi_to_matrix(v, n):
    """v indexed by (ref << n) + sys -> matrix[sys, ref]."""
    return v.reshape(2 ** n, 2 ** n).T


# ------------------------------------------------------------------ targets
def T_int(v):
    return {"k": "i", "v": v}


def T_slice(a=None, b=None, c=None):
    w = lambda x: [] if x is None else [x]
    return {"k": "s", "a": w(a), "b": w(b), "c": w(c)}


def T_tup(*v):
    return {"k": "t", "v": list(v)}


def t_obj(t, conv=int):
    """Python object for a target expression."""
    k = t["k"]
    if k == "i":
        return conv(t["v"])
    if k == "s":
        g = lambda l: l[0] if l else None
        return slice(g(t["a"]), g(t["b"]), g(t["c"]))
    if k == "t":
        return tuple(t_obj(x, conv) for x in t["v"])
    if k == "bad":
        return t.get("obj")
    raise ValueError(t)


def obj_t(o):
    """Target expression of a Python object (inverse of t_obj)."""
    if isinstance(o, slice):
        return T_slice(*(None if x is None else x.__index__() for x in (o.start, o.stop, o.step)))
    if isinstance(o, tuple):
        return {"k": "t", "v": [obj_t(x) for x in o]}
    return T_int(o.__index__())


# ------------------------------------------------------------ real circuits
_ccz = []


def wrapper(c, name):
    """c.<name>; ccz exists as a gate class but is not registered under a name."""
    if name == "ccz" and not _ccz:
        from blueqat.circuit import GATE_SET, BlueqatGlobalSetting
        if "ccz" not in GATE_SET:
            from blueqat.gate import CCZGate
            BlueqatGlobalSetting.register_gate("ccz", CCZGate)
        _ccz.append(1)
    return getattr(c, name)


def append_op(c, op, vals, kind=0, conv=int):
    return called(c, op, vals, kind)[t_obj(op["t"], conv)]


_style = random.Random(99)


def called(c, op, vals, kind=0):
    """c.gate(params), the parameters given by position or by keyword"""
    w = wrapper(c, op["g"])
    if not op["p"]:
        return w() if _style.random() < 0.02 else w
    ps = [angle(p, vals, kind) for p in op["p"]]
    if _style.random() < 0.1:
        from blueqat.circuit import GATE_SET
        import inspect
        names = [n for n, q in inspect.signature(GATE_SET[op["g"]]).parameters.items() if q.kind == q.POSITIONAL_OR_KEYWORD][1:1 + len(ps)]
        if len(names) == len(ps):
            k = _style.randint(0, len(ps) - 1)
            return w(*ps[:k], **dict(zip(names[k:], ps[k:])))
    return w(*ps)


def build(prog, vals, kind=0, Circuit=None):
    if Circuit is None:
        from blueqat import Circuit
    c = Circuit(prog["n0"]) if "n0" in prog else Circuit(prog["n"])
    if "parts" in prog:     # the same operations, as repeated pieces (whose gates are shared)
        for k, ops in prog["parts"]:
            piece = Circuit(prog["n"])
            for op in ops:
                append_op(piece, op, vals, kind)
            for _ in range(k):
                c += piece
        return c
    if _style.random() < 0.08:      # c.gate(params) kept, and used (more than once) later on
        kept = {}
        for op in prog["ops"]:
            k = (op["g"], repr(op["p"]))
            if k not in kept:
                kept[k] = called(c, op, vals, kind)
        for op in prog["ops"]:
            kept[op["g"], repr(op["p"])][t_obj(op["t"])]
        return c
    for op in prog["ops"]:
        append_op(c, op, vals, kind)
    if _style.random() < 0.04:      # the same operations given to the constructor
        return (Circuit if isinstance(Circuit, type) else type(c))(c.n_qubits, list(c.ops))
    return c


def build_used(prog, vals, rng, use, kind=0, p=0.35):
    """The circuit of build(), but grown from a smaller register and used on the way by
    `use` (a run, an export ...; errors on the way don't matter)."""
    from blueqat import Circuit
    n = prog["n"]
    c = Circuit(rng.choice([n, 0, max(0, n - 1), rng.randint(0, n)]))
    for op in prog["ops"]:
        append_op(c, op, vals, kind)
        if rng.random() < p:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                guarded(use, c)
    c += Circuit(n)
    return c


def gate_ops(gates, enc, n):
    """Specification operations of a list of the library's gate objects on n qubits
    (targets as the gate itself resolves them for a backend)."""
    out = []
    for g in gates:
        if hasattr(g, "control_target_iter"):
            pairs = list(g.control_target_iter(n))
            t = T_tup(T_tup(*[T_int(int(a)) for a, _ in pairs]), T_tup(*[T_int(int(b)) for _, b in pairs]))
        elif hasattr(g, "target_iter"):
            t = T_tup(*[T_int(int(a)) for a in g.target_iter(n)])
        else:
            t = obj_t(g.targets)
        out.append({"g": g.lowername, "p": [enc.enc(x) for x in g.params], "t": t})
    return out


# --------------------------------------------------------------- generators
ONEQ0 = ["i", "x", "y", "z", "h", "t", "tdg", "s", "sdg"]
ONEQ1 = ["rx", "ry", "rz", "phase", "u1", "r"]
ONEQ = ONEQ0 + ONEQ1 + ["u2", "u3"]
CTRL0 = ["cx", "cnot", "cz", "cy", "ch", "swap"]
CTRL1 = ["crx", "cry", "crz", "cphase", "cr", "cu1", "rxx", "ryy", "rzz"]
TWOQ = CTRL0 + CTRL1 + ["cu2", "cu3"]
THREEQ = ["ccx", "toffoli", "cswap"]
ALLG = ONEQ + TWOQ + THREEQ
NPARAM = {g: 0 for g in ONEQ0 + CTRL0 + THREEQ + ["ccz"]}
NPARAM.update({g: 1 for g in ONEQ1 + CTRL1})
NPARAM.update(u2=2, cu2=2, u3=3, cu3=3, measure=0, m=0, reset=0)
SPLIT = {"h": 1, "rx": 2, "ry": 2, "u2": 2, "u3": 2, "ch": 1, "crx": 2, "cry": 2, "cu2": 2, "cu3": 2,
         "rxx": 2, "ryy": 2}


class Gen:
    """Seeded random programs within the exponent/term budget of the exact ring."""

    def __init__(self, rng, n, gates=ALLG, consts=(0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -2, -3, -4, -8, 16, 12),
                 p_sym=0.6, qstep=4, forms=True, max_split=9, cstep=1):
        self.rng, self.n, self.gates = rng, n, [g for g in gates if self.arity(g) <= n]
        self.budget = [110] * NSYM
        self.range = [0.0] * NSYM
        self.split = 0
        self.consts, self.p_sym, self.qstep, self.forms = consts, p_sym, qstep, forms
        self.max_split = max_split
        self.cstep = cstep

    @staticmethod
    def arity(g):
        return 3 if g in THREEQ or g == "ccz" else 2 if g in TWOQ else 1

    def param(self, mult):
        rng = self.rng
        q = [0] * NSYM
        if rng.random() < self.p_sym:
            for _ in range(rng.choice((1, 1, 1, 2))):
                j = rng.randrange(NSYM)
                v = rng.choice((1, 1, 1, -1, 2, -2)) * self.qstep
                r = list(self.range)
                r[j] += abs(v) * mult / 4
                # the number of monomials an exact amplitude may get
                if abs(v) * mult * 2 <= self.budget[j] and (1 + r[0]) * (1 + r[1]) * (1 + r[2]) * 2 ** self.n <= 6000:
                    self.range = r
                    self.budget[j] -= abs(v) * mult * 2
                    q[j] += v
        c = rng.choice(self.consts) * self.cstep if (not any(q) or rng.random() < 0.3) else 0
        return (tuple(q), c)

    # target expressions -------------------------------------------------
    def single(self, n):
        """An expression for one index or slice valid on n qubits, with its qubits."""
        rng = self.rng
        r = rng.random()
        if r < 0.45:
            v = rng.randrange(n)
            return T_int(v), [v]
        if r < 0.65:
            v = rng.randrange(n)
            return T_int(v - n), [v]
        a = rng.choice([None, None] + list(range(-n - 1, n)))
        b = rng.choice([None, None] + list(range(-n - 1, n + 1)))
        c = rng.choice([None, None, 1, 2, -1, -2, 3])
        return T_slice(a, b, c), list(range(n))[slice(a, b, c)]

    def one_target(self, n):
        rng = self.rng
        if not self.forms:
            v = rng.randrange(n)
            return T_int(v), [v]
        r = rng.random()
        if r < 0.7:
            return self.single(n)
        parts = [self.single(n) for _ in range(rng.choice((1, 2, 2, 3)))]
        return T_tup(*[p[0] for p in parts]), [q for p in parts for q in p[1]]

    def two_target(self, n):
        rng = self.rng
        if not self.forms or rng.random() < 0.6:
            a, b = rng.sample(range(n), 2)
            f = lambda v: v - n if self.forms and rng.random() < 0.3 else v
            return T_tup(T_int(f(a)), T_int(f(b))), [(a, b)]
        if rng.random() < 0.25:
            # pairs that repeat or share qubits, in either orientation
            prs = [tuple(rng.sample(range(n), 2))]
            for _ in range(rng.choice((1, 1, 2))):
                a, b = rng.choice(prs)
                o = rng.choice([q for q in range(n) if q != a])
                prs.append(rng.choice(((a, b), (b, a), (a, o), (o, a))))
            return T_tup(T_tup(*[T_int(a) for a, _ in prs]), T_tup(*[T_int(b) for _, b in prs])), prs
        for _ in range(60):
            mk = lambda: (T_tup(*[T_int(x) for x in xs]), xs) if rng.random() < 0.5 and (
                xs := [rng.randrange(n) for _ in range(rng.choice((1, 2, 3)))]) else self.single(n)
            (ea, qa), (eb, qb) = mk(), mk()
            if len(qa) == len(qb) and all(x != y for x, y in zip(qa, qb)) and (qa or rng.random() < 0.1):
                return T_tup(ea, eb), list(zip(qa, qb))
        a, b = rng.sample(range(n), 2)
        return T_tup(T_int(a), T_int(b)), [(a, b)]

    def three_target(self, n):
        xs = self.rng.sample(range(n), 3)
        f = lambda v: v - n if self.forms and self.rng.random() < 0.2 else v
        return T_tup(*[T_int(f(x)) for x in xs]), [tuple(xs)]

    def op(self, g=None):
        rng = self.rng
        for _ in range(50):
            gg = g or rng.choice(self.gates)
            ar = self.arity(gg)
            t, q = (self.one_target, self.two_target, self.three_target)[ar - 1](self.n)
            sp = SPLIT.get(gg, 0) * len(q)
            if sp and self.split + sp > 2 * self.max_split:
                if g is None:
                    continue
                t, q = (T_int(0), [0]) if ar == 1 else (T_tup(T_int(0), T_int(1)), [(0, 1)])
                sp = SPLIT.get(gg, 0)
            self.split += sp
            return {"g": gg, "p": [self.param(max(1, len(q))) for _ in range(NPARAM[gg])], "t": t}
        return {"g": "x", "p": [], "t": T_int(0)}

    def ops(self, m):
        return [self.op() for _ in range(m)]


def val_sets(rng, count=2):
    """Numeric values for the symbols: generic and special ones."""
    pi = math.pi
    special = [(0.0, pi, 2 * pi), (pi / 2, -pi / 2, pi), (4 * pi, -4 * pi, 3 * pi), (1e-9, -1e-9, 1e-7),
               (3.0, -2.0, 1.0), (7.3 * pi, 100.0, -55.5), (pi / 4, pi / 8, pi / 3), (2 * pi, 2 * pi, 2 * pi),
               (-pi, 0.0, -2 * pi), (1e-5, pi - 1e-6, -pi / 2 + 1e-7)]
    out = [Vals([rng.uniform(-7, 7) for _ in range(NSYM)])]
    while len(out) < count:
        r = rng.random()
        out.append(Vals(rng.choice(special)) if r < 0.5 else near_vals(rng) if r < 0.75 else
                   Vals([rng.uniform(-20, 20) for _ in range(NSYM)]))
    return out


# ---------------------------------------------------------------- reporting
class Check:
    """Collects coverage and violations of one property and writes the evidence."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.viol = []
        self.assumptions = []
        self.known = load_known(pid)
        self.known_hit = {}
        self.notes = {}
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, pid)))

    def tlc_stats(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states

    def trace(self, k=1):
        self.cov["traces_validated_against_impl"] += k

    def count(self, name, k=1):
        self.cov[name] = self.cov.get(name, 0) + k

    def sample(self, s, limit=8):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def violation(self, what, replay, key=None):
        """key: identity used to match known findings."""
        if key is not None and key in self.known:
            self.known_hit.setdefault(key, what)
            return
        if len(self.viol) < 20:
            self.viol.append((what, replay))
        else:
            self.viol.append((what, None))

    def finish(self):
        os.makedirs(EVIDENCE_ROOT, exist_ok=True)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        if not self.cov["samples"]:
            self.cov["samples"] = ["(no sample recorded)"]
        path = os.path.join(EVIDENCE_ROOT, self.pid + ".json")
        txt = json.dumps(ev, indent=1, default=str)
        if len(txt) > 60000:
            self.cov["samples"] = [str(s)[:800] for s in self.cov["samples"]][:5]
            txt = json.dumps(ev, indent=1, default=str)
        with open(path, "w") as f:
            f.write(txt)
        for k, what in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {self.known[k]}")
        if self.viol:
            d = os.path.join(EVIDENCE_ROOT, "replay")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, f"{self.pid}.json")
            with open(rp, "w") as f:
                json.dump([{"what": w, "replay": r} for w, r in self.viol[:20] if r is not None], f, indent=1, default=str)
            for w, _ in self.viol[:5]:
                print("  " + str(w)[:600])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} " + json.dumps({k: v for k, v in self.cov.items() if k != 'samples'}, default=str)
              + f" wall={time.time() - self.t0:.1f}s")
        return 0


def load_known(pid):
    """known_findings.txt: lines 'KNOWN property=<id> key=<key> <text>' (and 'fixed:' lines, ignored)."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                parts = line.split(" ", 3)
                if parts[1] == "property=" + pid and parts[2].startswith("key="):
                    out[parts[2][4:]] = parts[3]
    return out


def guarded(f, *a, **k):
    """Run f; returns (value, None) or (None, exception)."""
    try:
        return f(*a, **k), None
    except Exception as e:  # noqa
        return None, e


def short_prog(prog):
    return {"n": prog["n"], "ops": [f"{o['g']}{o['p'] if o['p'] else ''}{_st(o['t'])}" for o in prog["ops"]]}


def _st(t):
    o = t_obj(t)
    def s(x):
        if isinstance(x, slice):
            g = lambda v: "" if v is None else str(v)
            return f"{g(x.start)}:{g(x.stop)}:{g(x.step)}"
        if isinstance(x, tuple):
            return "(" + ",".join(s(y) for y in x) + ")"
        return str(x)
    return "[" + s(o) + "]"


def pmap(f, items, procs=8):
    """ordered parallel map in forked processes; f(item) returns something picklable"""
    import multiprocessing
    if len(items) < 2:
        return [f(x) for x in items]
    global _PF, _HUNG
    _PF = f
    ctx = multiprocessing.get_context("fork")
    _HUNG = ctx.Value("i", 0)
    with ctx.Pool(min(procs, len(items))) as pool:
        out = pool.map(_call, list(items), chunksize=max(1, len(items) // (4 * procs)))
    for r in out:
        if isinstance(r, Remote):
            raise r.error()
    return out


class Hang(Exception):
    """the library keeps computing long after it should have finished"""


class LibraryError(Exception):
    """an exception that came out of the library in a worker process"""


class Remote:
    def __init__(self, e, text, lib):
        self.machinery, self.lib = isinstance(e, MachineryError), lib
        self.text = f"{e!r}\n{text}"

    def error(self):
        return MachineryError(self.text) if self.machinery or not self.lib else LibraryError(self.text)


def in_library(frame):
    root = os.path.realpath(REPO) + "/"
    while frame is not None:
        if os.path.realpath(frame.f_code.co_filename).startswith(root):
            return True
        frame = frame.f_back
    return False


def watch(seconds, on_hang=None):
    """raise Hang in library code that uses more than `seconds` of processor time (0: stop watching)"""
    import signal

    def ring(sig, frame):
        if in_library(frame):
            if on_hang:
                on_hang()
            raise Hang(f"not finished after {seconds} s of processor time")
    if seconds:
        signal.signal(signal.SIGVTALRM, ring)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds, 5 if seconds else 0)


def _call(x):
    import traceback

    def hung():
        _HUNG.value = 1
    watch(8 if _HUNG.value else 120 * (3 if THOROUGH else 1), hung)
    try:
        return _PF(x)
    except Exception as e:
        root = os.path.realpath(REPO) + "/"
        lib = isinstance(e, Hang) or any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(e.__traceback__))
        return Remote(e, traceback.format_exc(), lib)
    finally:
        watch(0)


def side_json(s):
    if s["k"] == "qasm":
        return {"k": "qasm", "ops": [{"g": o["g"], "p": [[pack_q(q), c] for q, c in o["p"]], "q": o["q"]} for o in s["ops"]]}
    if s["k"] == "cat":
        return {"k": "cat", "parts": [side_json(x) for x in s["parts"]]}
    return {"k": s["k"], "ops": [op_json(o) for o in s["ops"]]}


def tlc_equiv(cases, **kw):
    """Verdicts ('same'/'differ'/'invalid') of Equiv.tla for cases [n, phase, l, r]."""
    data = [{"n": c["n"], "phase": bool(c["phase"]), "l": side_json(c["l"]), "r": side_json(c["r"])} for c in cases]
    r = tlc("Equiv", "SPECIFICATION Spec\nINVARIANT UnitaryL UnitaryR\nCHECK_DEADLOCK FALSE\n", data, **kw)
    out = [None] * len(cases)
    for rec in r.records:
        out[rec["p"] - 1] = rec["v"]
    if any(v is None for v in out):
        raise MachineryError("Equiv: missing verdict")
    return out, r
