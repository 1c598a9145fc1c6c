"""Stand-ins for packages that are not installed here, so that the backends that need them
can be executed: `numba` (interpreted: decorators are identities, unsigned types are Python
integers, prange visits its indices in a random order since parallel iterations have none)
and `qgate` (a recorder with a small exact simulator, see checks/c23.py)."""
import sys, types, random
import numpy as _np

RNG = random.Random(12345)


class _Type:
    """a numba type: usable in signatures (t(t, t), t[:]) and as a cast"""

    def __init__(self, name, mask=None, cast=int):
        self.name, self.mask, self.cast = name, mask, cast

    def __call__(self, *args):
        if len(args) == 1 and not isinstance(args[0], _Type):
            v = self.cast(args[0])
            return v & self.mask if self.mask is not None else v
        return self

    def __getitem__(self, _):
        return self

    def __repr__(self):
        return self.name


def _decorator(*args, **kw):
    if len(args) == 1 and not kw and isinstance(args[0], types.FunctionType):
        return args[0]
    return lambda f: f


def prange(*a):
    r = list(range(*(int(x) for x in a)))
    RNG.shuffle(r)
    return r


class _NumpyShim(types.ModuleType):
    """numpy, with unsigned integer arrays held as Python integers (numba's uint64
    arithmetic has no promotion to float, numpy's has)"""

    def __init__(self):
        super().__init__("numpy")
        for name in ("empty", "array", "zeros", "ones", "full", "arange", "asarray", "empty_like"):
            setattr(self, name, self._wrap(getattr(_np, name)))

    @staticmethod
    def _wrap(f):
        def g(*a, **k):
            def conv(d):
                try:
                    return object if not isinstance(d, (list, tuple, _np.ndarray, int, float, complex)) and _np.dtype(d).kind == "u" else d
                except TypeError:
                    return d
            k = {x: conv(v) for x, v in k.items()}
            a = tuple(conv(v) if isinstance(v, (type, _np.dtype)) else v for v in a)
            r = f(*a, **k)
            if isinstance(r, _np.ndarray) and r.dtype == object:
                for i in range(r.size):
                    if isinstance(r.flat[i], _np.integer):
                        r.flat[i] = int(r.flat[i])
            return r
        return g

    def __getattr__(self, k):
        return getattr(_np, k)


class _Numba(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _Type(k)


def install_numba():
    """-> the NumbaBackend class, imported against the stand-in"""
    m = _Numba("numba")
    m.__path__ = []
    m.__version__ = "0.60.0"
    for n in ("jit", "njit", "vectorize", "guvectorize", "stencil"):
        setattr(m, n, _decorator)
    m.prange = prange
    for b in (8, 16, 32, 64):
        setattr(m, f"uint{b}", _Type(f"uint{b}", (1 << b) - 1))
        setattr(m, f"int{b}", _Type(f"int{b}"))
    m.uintp, m.intp, m.boolean = m.uint64, m.int64, _Type("boolean", cast=bool)
    m.float32 = m.float64 = m.double = _Type("float64", cast=float)
    m.complex64 = m.complex128 = _Type("complex128", cast=complex)
    m.types = m
    sys.modules["numba"] = m
    sys.modules["numba.types"] = m
    import blueqat.backends                                    # everything else with the real numpy
    shim = _NumpyShim()
    real = sys.modules["numpy"]
    sys.modules["numpy"] = shim
    try:
        import blueqat.backends._numba_backend_impl as impl
    finally:
        sys.modules["numpy"] = real
    return impl.NumbaBackend


# ---------------------------------------------------------------------- qgate
class _GT:
    """a gate type: called with the angles"""

    def __init__(self, name):
        self.name = name

    def __call__(self, *params):
        r = _GT(self.name)
        r.params = params
        return r


class Qreg:
    pass


class Reference:
    pass


def _seq(a):
    out = []
    for x in a:
        out += _seq(x) if isinstance(x, (list, tuple)) else [x]
    return out


class Gate:
    def __init__(self, gtype):
        self.gtype, self.adjoint, self.ctrls, self.qregs = gtype, False, [], []

    def set_adjoint(self, b):
        self.adjoint = bool(b)

    def set_ctrllist(self, *c):
        self.ctrls = _seq(c)

    def set_qreg(self, q):
        self.qregs = [q]

    def set_qreglist(self, *q):
        self.qregs = _seq(q)


class MultiQubitGate(Gate):
    pass


class Measure:
    def __init__(self, ref, qreg):
        self.ref, self.qreg = ref, qreg


def _matrix(gt):
    """OpenQASM's definitions"""
    p = [float(x) for x in getattr(gt, "params", ())]
    e, c, s = lambda x: _np.exp(1j * x), _np.cos, _np.sin

    def U(t, f, l):
        return _np.array([[c(t / 2), -e(l) * s(t / 2)], [e(f) * s(t / 2), e(f + l) * c(t / 2)]])
    n = gt.name
    if n == "ID":
        return _np.eye(2, dtype=complex)
    if n in "XYZ":
        return {"X": _np.array([[0, 1], [1, 0]], complex), "Y": _np.array([[0, -1j], [1j, 0]]), "Z": _np.diag([1, -1]).astype(complex)}[n]
    if n == "H":
        return _np.array([[1, 1], [1, -1]], complex) / _np.sqrt(2)
    if n in ("T", "S"):
        return _np.diag([1, e(_np.pi / (4 if n == "T" else 2))])
    if n == "RX":
        return U(p[0], -_np.pi / 2, _np.pi / 2)
    if n == "RY":
        return U(p[0], 0, 0)
    if n == "RZ":
        return _np.diag([e(-p[0] / 2), e(p[0] / 2)])
    if n == "U1":
        return _np.diag([1, e(p[0])])
    if n == "U2":
        return U(_np.pi / 2, p[0], p[1])
    if n == "U":
        return U(p[0], p[1], p[2])
    raise NotImplementedError(n)


class Obs:
    def __init__(self, v):
        self.int = v


class ObservationList:
    def __init__(self, ordering, obs, mask=0):
        self.ordering, self.obs, self.mask = list(ordering), list(obs), mask

    def histgram(self):
        h = {}
        for v in self.obs:
            h[int(v)] = h.get(int(v), 0) + 1
        return h


class Pool:
    script = None                   # set by a check: the integers a sampling returns

    def __init__(self, prob, empty_lanes, ordering):
        self.prob, self.empty, self.ordering = prob, list(empty_lanes), ordering

    def sample(self, n):
        if Pool.script is not None:
            return ObservationList(self.ordering, Pool.script(len(self.ordering), n))
        p = self.prob / self.prob.sum()
        obs = _np.random.choice(len(p), size=n, p=p)
        lanes = [i for i in range(len(self.ordering)) if i not in self.empty]
        return ObservationList(self.ordering, [sum((int(v) >> j & 1) << l for j, l in enumerate(lanes)) for v in obs])


class _Qubits:
    def __init__(self, sim):
        self.sim = sim

    def set_ordering(self, qregs):
        self.sim.order = list(qregs)

    @property
    def states(self):
        return self.sim.state.copy()

    def create_sampling_pool(self, qregs, cls=None):
        sim = self.sim
        qregs = list(qregs)
        empty = [i for i, q in enumerate(qregs) if id(q) not in sim.used]
        lanes = [sim.order.index(q) for i, q in enumerate(qregs) if i not in empty]
        pr = _np.abs(sim.state) ** 2
        prob = _np.zeros(2 ** len(lanes))
        for x in range(len(pr)):
            prob[sum((x >> l & 1) << j for j, l in enumerate(lanes))] += pr[x]
        return (cls or Pool)(prob, empty, qregs)


class Sim:
    log = []

    def __init__(self, **prefs):
        self.prefs = prefs
        self.order, self.used, self.bits = [], set(), {}
        self.qubits = _Qubits(self)

    def run(self, ops):
        ops = list(ops)
        n = len(self.order)
        Sim.log.append((list(self.order), ops))
        self.state = _np.zeros(2 ** n, complex)
        self.state[0] = 1
        for o in ops:
            if isinstance(o, Measure):
                q = self.order.index(o.qreg)
                on = _np.array([x >> q & 1 for x in range(2 ** n)], bool)
                p1 = float((_np.abs(self.state[on]) ** 2).sum())
                b = int(_np.random.random() < p1)
                self.state[on != bool(b)] = 0
                self.state /= _np.linalg.norm(self.state)
                self.bits[id(o.ref)] = b
                continue
            qs = [self.order.index(q) for q in o.qregs]
            cs = [self.order.index(q) for q in o.ctrls]
            for q in o.qregs + o.ctrls:
                self.used.add(id(q))
            cm = sum(1 << c for c in cs)
            new = self.state.copy()
            if o.gtype.name == "SWAP":
                a, b = qs
                ix = _np.arange(2 ** n)
                ix = ix[(ix & cm == cm) & ((ix >> a & 1) != (ix >> b & 1))]
                new[ix ^ (1 << a) ^ (1 << b)] = self.state[ix]
            else:
                m = _matrix(o.gtype)
                if o.adjoint:
                    m = m.conj().T
                (q,) = qs
                x = _np.arange(2 ** n)
                x = x[(x & cm == cm) & (x >> q & 1 == 0)]
                y = x | 1 << q
                new[x] = m[0, 0] * self.state[x] + m[0, 1] * self.state[y]
                new[y] = m[1, 0] * self.state[x] + m[1, 1] * self.state[y]
            self.state = new

    def obs(self, refs):
        return Obs(sum(self.bits.get(id(r), 0) << i for i, r in enumerate(_seq([refs]))))


def install_qgate():
    q = types.ModuleType("qgate")
    q.__path__ = []
    q.model = types.ModuleType("qgate.model")
    q.simulator = types.ModuleType("qgate.simulator")
    q.prefs = types.ModuleType("qgate.prefs")
    q.prefs.dynamic, q.prefs.static, q.prefs.one_static = "dynamic", "static", "one_static"
    gt = types.ModuleType("qgate.model.gate_type")
    for n in ("ID", "X", "Y", "Z", "H", "T", "S", "RX", "RY", "RZ", "U1", "U2", "U", "SWAP", "ExpiI", "ExpiZ"):
        setattr(gt, n, _GT(n))
    gt.U3 = gt.U
    q.model.gate_type = gt
    for c in (Qreg, Reference, Gate, MultiQubitGate, Measure):
        setattr(q.model, c.__name__, c)
    q.simulator.cpu = q.simulator.cuda = q.simulator.py = Sim
    q.simulator.observation = types.ModuleType("qgate.simulator.observation")
    q.simulator.observation.ObservationList = ObservationList
    q.simulator.observation.Observation = Obs
    for m in (q, q.model, q.simulator, q.prefs, gt, q.simulator.observation):
        sys.modules[m.__name__] = m
    return q
