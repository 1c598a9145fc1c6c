"""C26: the printed form of a circuit.  PrintForm.tla is a reader for the text (grammar of
Python expressions restricted to circuits) and compares what it denotes with the circuit
printed, for every register size from the circuit's own on; the text has to be accepted by
Python itself as well, with the same outcome."""
import io, tokenize
from qv import *
from unitary import *
from checks.c04 import rand_t, conv_safe, CONVS
import history

CFG = "SPECIFICATION Spec\nINVARIANT Inside\nPROPERTY Forward\nCHECK_DEADLOCK FALSE\n"
NUMBERS = (0.1, 0.25, 1, 2, 3, 0, 1e-17, 1e300, 3.141592653589793, 2 / 3, 1e22, 12345678901234567, 0.30000000000000004, 1.5e-5, 7.0, 2 ** 40)


def values(rng):
    """parameters with the numbers under which they occur"""
    i = rng.randrange(len(NUMBERS))
    v, f = NUMBERS[i], i + 1
    if rng.random() < 0.3 and v:
        v, f = -v, -f
    r = rng.random()
    if r < 0.2 and isinstance(v, float):
        v = np.float64(v)
    elif r < 0.4 and isinstance(v, int) and abs(v) < 2 ** 60:
        v = np.int64(v)
    return v, f


def toks(text):
    out = []
    for t in tokenize.generate_tokens(io.StringIO(text).readline):
        if t.type in (tokenize.NEWLINE, tokenize.NL, tokenize.ENDMARKER):
            continue
        r = {"k": "op", "s": t.string, "i": [], "f": 0}
        if t.type == tokenize.NAME:
            r["k"] = "name"
        elif t.type == tokenize.NUMBER:
            r["k"] = "num"
            v = complex(t.string)
            if v.imag == 0:
                if t.string.isdigit() and int(t.string) < 2 ** 31:
                    r["i"] = [int(t.string)]
                for j, w in enumerate(NUMBERS):
                    if (int(t.string) == w if t.string.isdigit() and isinstance(w, int) else float(t.string) == w):
                        r["f"] = j + 1
        elif t.type != tokenize.OP:
            return None
        out.append(r)
    return out


def cases(rng, count):
    from blueqat import Circuit
    from blueqat.experimental import Ops
    for k in range(count):
        n0 = rng.choice((0, 0, 1, 2, 3, 5, 12))
        frozen = k % 5 == 0     # an immutable operation list
        c = Ops(n0) if frozen else Circuit(n0)
        ops = []
        for _ in range(rng.choice((0, 1, 1, 2, 3, 5, 9))):
            ar = rng.choice((1, 1, 2, 2, 3))
            g = rng.choice({1: ONEQ + ["m", "measure", "reset"], 2: TWOQ, 3: THREEQ}[ar])
            t = rand_t(rng, ar, rng.choice((1, 2, 3, 4, 11)))
            ps = [values(rng) for _ in range(NPARAM[g])]
            conv = conv_safe(t, rng.choice(CONVS))
            if frozen and not hasattr(c, g):
                continue
            w = getattr(c, g)
            if ps:
                w = w(*[v for v, _ in ps])
            r, err = guarded(lambda: w[t_obj(t, conv)])
            if frozen and err is None:
                c = r
            if err is None:
                ops.append({"g": g, "p": [f for _, f in ps], "t": t})
                if rng.random() < 0.1:
                    guarded(lambda: (repr(c), str(c.ops[-1])))
        r = rng.random()
        if frozen:
            if r < 0.3:
                c, ops = c + c, ops + ops
        elif r < 0.1:
            c = c.copy()
        elif r < 0.2:
            c = c + Circuit(rng.choice((0, c.n_qubits)))
        elif r < 0.3:
            c, ops = c + c, ops + ops
        yield c, {"n": c.n_qubits, "ops": ops}


def obs(c):
    return (c.n_qubits, [(g.lowername, tuple(g.params), obj_t(g.targets)) for g in c.ops])


def run(chk):
    from blueqat import Circuit
    from blueqat.experimental import Ops
    rng = chk.rng
    data, texts, what = [], [], []
    for c, case in cases(rng, 8000 if THOROUGH else 1500):
        chk.trace()
        before = obs(c)
        text, err = guarded(repr, c)
        here = {"n": case["n"], "ops": [f"{o['g']}{o['p'] or ''}{t_obj(o['t'])!r}" for o in case["ops"]]}
        if err is not None:
            chk.violation(f"printing {here} raised {err!r}", here)
            continue
        if str(c) != text or any(str(g) not in text for g in c.ops):
            chk.violation(f"{here} is printed as {text!r}, {str(c)!r} and {[str(g) for g in c.ops]}", here)
        if obs(c) != before:
            chk.violation(f"printing changed {here}", here)
        # Python accepts it, with the same outcome as the reader of the specification
        back, err = guarded(eval, text, {"Circuit": Circuit, "Ops": Ops, "slice": slice, "__builtins__": {}})
        if err is not None:
            chk.violation(f"{here} is printed as {text!r}, which is not an expression: {err!r}", here)
            continue
        ts, err = guarded(toks, text)
        if not ts:
            chk.violation(f"{here} is printed as {text!r}", here)
            continue
        if type(back) is not type(c) or back.n_qubits != c.n_qubits or len(back.ops) != len(c.ops) or [g.lowername for g in back.ops] != [g.lowername for g in c.ops]:
            chk.violation(f"{here} is printed as {text!r}, which is another circuit", here)
        data.append({**case, "head": type(c).__name__, "toks": ts})
        texts.append(text)
        what.append(here)
    r = tlc("PrintForm", CFG, data, timeout=600)
    chk.tlc_stats(r)
    if len(r.records) != len(data):
        raise MachineryError("missing verdicts")
    for x in r.records:
        i = x["id"] - 1
        if x["v"] != "same":
            chk.violation(f"{what[i]} is printed as {texts[i]!r}: {x['v']} (read: {x['ops']})", what[i])
    chk.count("texts", len(texts))
    for t in texts[3:6]:
        chk.sample(t)
