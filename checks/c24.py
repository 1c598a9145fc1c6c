"""C24: the hand-over of a problem to an Ising machine.  IsingBridge.tla generates histories of
edits, annealing runs and submissions with the Ising form and the bits to be returned; they
are replayed on wq.Opt with a stand-in for the D-Wave client that records what it is given."""
import sys, types
import numpy as np
from qv import *
from stochastic import seed_all

CFG = "SPECIFICATION Spec\nCONSTANTS MaxN = {n}\nDepth = {d}\nINVARIANT EnergyOK SizeOK\nCHECK_DEADLOCK FALSE\n"


class Computation:
    def __init__(self, row, rng):
        self.samples = [row]
        self._more = rng

    def __getitem__(self, k):
        return getattr(self, k)


class Solver:
    def __init__(self, ev, rng):
        self.ev, self.rng, self.got = ev, rng, []
        nodes = list(range(ev["nodes"]))
        edges = [tuple(p) for p in ev["edges"]]
        rng.shuffle(nodes)
        rng.shuffle(edges)
        self.nodes = set(nodes) if rng.random() < 0.5 else tuple(nodes)
        self.undirected_edges = set(edges) if rng.random() < 0.5 else tuple(edges)
        self.edges = {p for a, b in edges for p in ((a, b), (b, a))}
        self.num_qubits = len(nodes)
        self.properties = {"qubits": sorted(nodes), "couplers": sorted(map(list, edges))}

    def sample_ising(self, linear, quad=None, *more, **params):
        if not isinstance(linear, dict):
            linear = dict(enumerate(linear))
        self.got.append(({int(k): float(x) for k, x in linear.items()}, {tuple(map(int, k)): float(x) for k, x in dict(quad or {}).items()}, params))
        row = list(self.ev["spins"])
        used = set(self.got[-1][0]) | {q for p in self.got[-1][1] for q in p}
        # qubits that were not used have no spin: the machine reports 3
        return Computation([s if i in used or i < len(self.ev["bits"]) else 3 for i, s in enumerate(row)], self.rng)


def install():
    made = []
    cur = {}

    class Client:
        @classmethod
        def from_config(cls, *a, **kw):
            made.append(kw)
            return cls()

        def get_solver(self, *a, **kw):
            made[-1] = {**kw, **made[-1]}
            return cur["solver"]

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    pkg, cloud = types.ModuleType("dwave"), types.ModuleType("dwave.cloud")
    pkg.cloud, cloud.Client = cloud, Client
    pkg.__path__ = cloud.__path__ = []
    sys.modules["dwave"], sys.modules["dwave.cloud"] = pkg, cloud
    return made, cur


def work(a):
    hist, seed = a
    rng = random.Random(seed)
    seed_all(seed)
    warnings.simplefilter("ignore")
    from blueqat import wq
    made, cur = install()
    form = lambda m: rng.choice((lambda m: m, np.array, lambda m: np.array(m, dtype=float), lambda m: [[float(x) for x in r] for r in m]))([list(r) for r in m])
    opt = wq.Opt()
    opt.ite, opt.R, opt.Ts, opt.tro = 2, 0.5, 1.0, 2
    if rng.random() < 0.5:
        opt.dwavetoken, opt.dwavesolver, opt.dwaveendpoint = "tok", "SOLVER", "http://localhost/none"
    n, log, done = 0, [], 0
    scale = 2.0 ** rng.choice((0, 0, -1, -4, -20, 3, 20))       # the Ising form is linear in the problem
    tol = 1e-12 * scale * 1e6
    for e in hist:
        log.append(f"{e['a']} {e.get('m', '')}{'*' + str(e['f']) if 'f' in e else ''}")
        try:
            if "m" in e and scale != 1:
                e = {**e, "m": [[x * scale for x in r] for r in e["m"]]}
            if e["a"] == "set":
                opt.qubo = form(e["m"])
            elif e["a"] == "add":
                if e["f"] == 1 and rng.random() < 0.5:
                    opt.add(form(e["m"]))
                else:
                    opt.add(form(e["m"]), e["f"]) if rng.random() < 0.5 else opt.add(form(e["m"]), M=e["f"])
            elif e["a"] == "run":
                rng.choice((opt.run, opt.sa, opt.sqa))()
            else:
                done += 1
                s = cur["solver"] = Solver(e, rng)
                keep = np.array(opt.qubo, dtype=float).copy()
                res = opt.dw()
                here = f"after {'; '.join(log[-4:])} on nodes {s.nodes}"
                if len(s.got) != 1:
                    return f"dw() submitted {len(s.got)} problems {here}", done
                lin, quad, params = s.got[0]
                wl = {i: x * scale / 4 for i, x in enumerate(e["h"])}
                wq_ = {(i, j): x * scale / 4 for i, j, x in e["j"]}
                if any(abs(lin.get(k, 0) - wl.get(k, 0)) > tol for k in set(lin) | set(wl)):
                    return f"dw() gives the machine the linear coefficients {lin}; the problem has {wl} {here}", done
                qs = {}
                for (i, j), x in quad.items():
                    qs[min(i, j), max(i, j)] = qs.get((min(i, j), max(i, j)), 0) + x
                if any(abs(qs.get(k, 0) - wq_.get(k, 0)) > tol for k in set(qs) | set(wq_)):
                    return f"dw() gives the machine the couplings {quad}; the problem has {wq_} {here}", done
                if not isinstance(res, (list, tuple, np.ndarray)) or [int(b) for b in res] != e["bits"] or any(b not in (0, 1) for b in res):
                    return f"dw() returns {res} for the spins {e['spins']} of a problem with {len(e['bits'])} variables {here}", done
                if not np.array_equal(np.array(opt.qubo, dtype=float), keep):
                    return f"dw() changed the QUBO {here}", done
                kw = made[-1]
                if (kw.get("endpoint"), kw.get("token"), kw.get("solver")) != (opt.dwaveendpoint, opt.dwavetoken, opt.dwavesolver):
                    return f"dw() opened {kw} instead of the configured solver {here}", done
        except Exception as ex:
            import traceback
            return f"{ex!r} at {traceback.extract_tb(ex.__traceback__)[-1][:3]} after {'; '.join(log[-4:])}", done
    return None, done


def run(chk):
    rng = chk.rng
    import blueqat.wq
    hs = []
    for k, (n, d, num) in enumerate([(3, 8, 250), (4, 12, 150), (6, 6, 40)] if not THOROUGH else [(3, 8, 2000), (5, 12, 1500), (8, 16, 500)]):
        r = tlc("IsingBridge", CFG.format(n=n, d=d), simulate=num, depth=d + 2, seed=SEED * 10 + k, workers=1, timeout=800)
        chk.tlc_stats(r)
        hs += r.records
    if len(hs) < 400:
        raise MachineryError(f"{len(hs)} histories")
    for h, (err, done) in zip(hs, pmap(work, [(h, rng.randrange(2 ** 31)) for h in hs])):
        chk.trace(done)
        if err:
            chk.violation(err, {"history": h})
    chk.count("histories", len(hs))
    chk.count("submissions", sum(e["a"] == "dw" for h in hs for e in h))
    chk.sample(hs[0][:4])
    chk.assumptions.append("dwave.cloud is replaced by a recorder (it is not installed and there is no network); problems fit the machine's graph: nodes 0..n-1 and an edge for every coupling exist")
