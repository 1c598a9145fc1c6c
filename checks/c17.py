"""C17: registries.  Registry.tla is explored exhaustively on a small instance (laws of
the registry) and generates histories that are replayed on the real settings object."""
from qv import *

BFS = "SPECIFICATION Spec\nINVARIANT TypeOK\nPROPERTY ReservedKept OneName DefaultsRegistered\nCHECK_DEADLOCK FALSE\n"
SIM = "SPECIFICATION Spec\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n"
RESERVED = ["run", "copy", "to_qasm", "dagger", "make_cache"]
BUILTIN = ["x", "cnot", "u3", "m"]
BN = ["numpy", "b1", "_b2", "qasm_output"]
NAMES = ["g1", "bell", "_p"] + BUILTIN + RESERVED + ["run_with_b1", "run_with_numpy", "run_with_zz", "run_with_"]


def instance(rng, small):
    if small:
        names, bn, slots, vals = ["g1", "x", "run", "run_with_b1"], ["numpy", "b1"], 2, 1
    else:
        names = sorted(rng.sample(["g1", "bell", "_p"], 2) + rng.sample(BUILTIN, 2) + rng.sample(RESERVED, 1) + rng.sample(["run_with_b1", "run_with_numpy", "run_with_zz", "run_with_"], 1))
        bn, slots, vals = rng.sample(["numpy", "qasm_output"], 1) + rng.sample(["b1", "_b2", "zz", ""], 2), 3, 3
    return {"names": names, "reserved": [x for x in names if x in RESERVED], "gates": [x for x in names if x in BUILTIN],
            "rw": [[x, x[9:]] for x in names if x.startswith("run_with_")] if True else [],
            "bnames": sorted(set(bn + [x[9:] for x in names if x.startswith("run_with_")])),
            "builtin": [x for x in sorted(set(bn + [x[9:] for x in names if x.startswith("run_with_")])) if x in ("numpy", "qasm_output")],
            "default": [x for x in bn if x in ("numpy", "qasm_output")][0], "vals": vals, "slots": slots, "depth": 40, "bfs": small}


class Registries:
    """the module's registries, put back afterwards"""

    def __enter__(self):
        from blueqat import circuit
        self.c = circuit
        self.saved = [(d, dict(d)) for d in (circuit.GATE_SET, circuit.GLOBAL_MACROS, circuit.BACKENDS)]
        self.name = circuit.DEFAULT_BACKEND_NAME
        return self

    def __exit__(self, *a):
        for d, old in self.saved:
            d.clear()
            d.update(old)
        self.c.DEFAULT_BACKEND_NAME = self.name


def make_values(vals):
    from blueqat import gate
    from blueqat.backends.backendbase import Backend
    gates = [None] + [type(f"Gate{v}", (gate.OneQubitGate,), {"lowername": f"gate{v}", "tag": v}) for v in range(1, vals + 1)]
    macros = [None]
    for v in range(1, vals + 1):
        def macro(c, *a, v=v, **k):
            return ("macro", v, c, a, k)
        macros.append(macro)

    def backend(v):
        class Fake(Backend):
            def run(self, gates, n_qubits, *a, **k):
                return ("backend", v, gates, n_qubits, a, k)

            def make_cache(self, gates, n_qubits):
                return ("cache", v, gates, n_qubits)

            def copy(self):
                return Fake()
        return Fake
    return gates, macros, [None] + [backend(v) for v in range(1, vals + 1)]


def work(a):
    inst, hist, seed = a
    from blueqat import Circuit, BlueqatGlobalSetting as S
    from blueqat import circuit as mod, gate
    warnings.simplefilter("ignore")
    rng = random.Random(seed)
    gates, macros, backends = make_values(inst["vals"])
    fresh = lambda: Circuit(2, [gate.XGate(0), gate.HGate(1)])
    done = 0
    trail = []

    def expect(e, f, ok, exc=ValueError):
        try:
            r = f()
        except exc:
            return None if not ok else "raised an error"
        except Exception as ex:
            return f"raised {ex!r}"
        return None if ok else f"returned {r!r} instead of raising {exc.__name__}"

    with Registries():
        mod.DEFAULT_BACKEND_NAME = inst["default"]
        S.set_default_backend(inst["default"])
        start_gates = dict(mod.GATE_SET)
        circ = [None] + [fresh() for _ in range(inst["slots"])]
        for e in hist:
            done += 1
            trail.append({k: v for k, v in e.items()})
            k = e["a"]
            kw = {"allow_overwrite": e["ow"]} if "ow" in e and (e["ow"] or rng.random() < 0.3) else {}
            err = None
            ow_pos = rng.random() < 0.2

            def reg(fn, x, v):
                return fn(x, v, e["ow"]) if ow_pos else fn(x, v, **kw)
            try:
                if k == "reg_gate":
                    err = expect(e, lambda: reg(S.register_gate, e["x"], gates[e["v"]]), e["ok"])
                elif k == "reg_macro":
                    err = expect(e, lambda: reg(S.register_macro, e["x"], macros[e["v"]]), e["ok"])
                elif k == "reg_backend":
                    err = expect(e, lambda: reg(S.register_backend, e["x"], backends[e["v"]]), e["ok"])
                elif k == "un_gate":
                    err = expect(e, lambda: S.unregister_gate(e["x"]), e["ok"])
                elif k == "un_macro":
                    err = expect(e, lambda: S.unregister_macro(e["x"]), e["ok"])
                elif k == "un_backend":
                    err = expect(e, lambda: (S.remove_backend if e["old"] else S.unregister_backend)(e["x"]), e["ok"])
                elif k == "set_global":
                    err = expect(e, lambda: S.set_default_backend(e["x"]), e["ok"])
                elif k == "set_circuit":
                    err = expect(e, lambda: circ[e["s"]].set_default_backend(None if e["x"] == "-" else e["x"]), e["ok"])
                elif k == "derive":
                    c = circ[e["s"]]
                    if e["how"] == "new":
                        n = fresh() if rng.random() < 0.6 else rng.choice((Circuit, lambda: Circuit(2), lambda: Circuit(1, [])))()
                    elif e["how"] in ("add", "iadd"):
                        o = circ[e["t"]] if rng.random() < 0.7 else Circuit(1, [gate.ZGate(0)])
                        if len(c.ops) + len(o.ops) > 60:
                            o = Circuit(1)
                        before = o.get_default_backend_name()
                        if e["how"] == "add":
                            n = c + o
                        else:
                            # a copy of c takes the other's operations
                            n = c.copy(copy_backends=rng.random() < 0.5)
                            k0 = n
                            n += o
                            err = None if n is k0 else "+= makes another circuit"
                        if o.get_default_backend_name() != before:
                            err = "the right operand's default backend changed"
                        if len(n.ops) != len(c.ops) + len(o.ops) or n.n_qubits != max(c.n_qubits, o.n_qubits):
                            err = f"the sum has {len(n.ops)} operations on {n.n_qubits} qubits"
                    elif e["how"] == "copy":
                        n = c.copy(copy_backends=rng.random() < 0.5, copy_default_backend=e["keep"]) if not e["keep"] or rng.random() < 0.5 else c.copy()
                    else:
                        n = c.dagger(copy_backends=rng.random() < 0.5, copy_default_backend=e["keep"], ignore_measurement=True)
                    circ[e["z"]] = n
                elif k == "resolve":
                    c = circ[e["s"]]
                    kind, v = e["res"]
                    x = e["x"]
                    err = expect(e, lambda: getattr(c, x), kind != "none", AttributeError)
                    if not err and (hasattr(c, x) != (kind != "none")):
                        err = f"hasattr is {hasattr(c, x)}"
                    if not err and kind == "gate":
                        t = c.copy()
                        p = (0.1, 0.2, 0.3) if x == "u3" and v == 0 else ()
                        w = getattr(t, x)
                        w = w(*p) if p else w
                        r = w[0, 1] if x == "cnot" and v == 0 else w[1]
                        if r is not t or len(t.ops) != len(c.ops) + 1:
                            err = f"appending gives {r!r}"
                        elif type(t.ops[-1]) is not (gates[v] if v else start_gates[x]):
                            err = f"resolves to {type(t.ops[-1])}"
                    elif not err and kind == "macro":
                        r = getattr(c, x)(1, 2, z=3)
                        if not isinstance(r, tuple) or r[:2] != ("macro", v) or r[2] is not c or r[3:] != ((1, 2), {"z": 3}):
                            err = f"calling gives {r!r}"
                    elif not err and kind == "attr":
                        f = getattr(c, x)
                        if getattr(f, "__func__", None) is not getattr(Circuit, x):
                            err = f"resolves to {f!r}"
                    elif not err and kind == "backend":
                        err = ran(getattr(c, x)(5, q=6) if v else getattr(c, x)(), v, x[9:], c, (5,), {"q": 6})
                elif k == "run":
                    c = circ[e["s"]]
                    kind, v, name = e["res"]
                    given = None if e["x"] == "-" else e["x"]
                    how = e["how"] if given is not None or e["how"] != "run_with" else "run"
                    arg = {"backend": given} if given is not None or rng.random() < 0.3 else {}
                    exc = ValueError
                    if how == "run_with":
                        if any(nm == "run_with_" + given for nm in list(mod.GATE_SET) + list(mod.GLOBAL_MACROS)):
                            continue
                        f = lambda: getattr(c, "run_with_" + given)(*((5,) if v else ()), **({"q": 6} if v else {}))
                        exc = AttributeError
                    elif how == "make_cache":
                        f = lambda: c.make_cache(**arg)
                    else:
                        f = lambda: c.run(*((5,) if v else ()), **arg, **({"q": 6} if v else {}))
                    if kind == "none":
                        err = expect(e, f, False, exc)
                    elif how == "make_cache":
                        r = f()
                        if v and (not isinstance(r, tuple) or r[:2] != ("cache", v) or r[2] is not c.ops):
                            err = f"make_cache gives {r!r}"
                    else:
                        err = ran(f(), v, name, c, (5,), {"q": 6})
                elif k == "run_object":
                    c = circ[e["s"]]
                    err = ran(c.run(5, backend=backends[e["v"]](), q=6), e["v"], None, c, (5,), {"q": 6})
                elif k == "defaults":
                    if S.get_default_backend_name() != e["gd"]:
                        err = f"the global default is {S.get_default_backend_name()!r}"
                    elif circ[e["s"]].get_default_backend_name() != e["cd"]:
                        err = f"the circuit's default is {circ[e['s']].get_default_backend_name()!r}"
            except Exception as ex:
                import traceback
                err = f"raised {ex!r} at {traceback.extract_tb(ex.__traceback__)[-1][:3]}"
            if err:
                return f"{trail[-1]} {err}, after {trail[:-1]}", done
        # the whole registry at the end of the history is what resolves
    return None, done


def ran(r, v, name, c, a, k):
    if v:
        if not isinstance(r, tuple) or r[:2] != ("backend", v) or r[3] != c.n_qubits or r[4:] != (a, k):
            return f"gives {r!r} instead of running backend {v}"
        if len(r[2]) != len(c.ops) or any(x is not y for x, y in zip(r[2], c.ops)):
            return "runs other operations"
    elif name == "numpy":
        import numpy as np
        if not isinstance(r, np.ndarray) or len(r) != 2 ** c.n_qubits:
            return f"gives {r!r} instead of running the simulator"
    elif name == "qasm_output" and (not isinstance(r, str) or "OPENQASM" not in r):
        return f"gives {r!r} instead of the QASM text"


def run(chk):
    rng = chk.rng
    import blueqat.circuit
    r = tlc("Registry", BFS, instance(rng, True))
    chk.tlc_stats(r)
    chk.count("exhaustive_states", r.distinct)
    items = []
    for k in range(6 if THOROUGH else 3):
        inst = instance(rng, False)
        inst["depth"] = 60
        r = tlc("Registry", SIM, inst, simulate=1500 if THOROUGH else 150, depth=63, seed=rng.randrange(10 ** 6))
        chk.tlc_stats(r)
        items += [(inst, h, rng.randrange(2 ** 31)) for h in r.records]
    for it, (err, done) in zip(items, pmap(work, items)):
        chk.trace(done)
        if err:
            chk.violation(err, {"history": it[1]})
    chk.count("histories", len(items))
    for it in items[:3]:
        chk.sample(it[1][:8])
