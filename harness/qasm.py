"""A small OpenQASM 2.0 reader for the exporter's output."""
import re, math, ast, operator


class QasmError(Exception):
    pass


_OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
        ast.Pow: operator.pow, ast.USub: operator.neg, ast.UAdd: operator.pos}
_FN = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp, "ln": math.log, "sqrt": math.sqrt}


def ev(txt):
    def go(e):
        if isinstance(e, ast.Expression):
            return go(e.body)
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
            return float(e.value)
        if isinstance(e, ast.Name) and e.id == "pi":
            return math.pi
        if isinstance(e, ast.BinOp) and type(e.op) in _OPS:
            return _OPS[type(e.op)](go(e.left), go(e.right))
        if isinstance(e, ast.UnaryOp) and type(e.op) in _OPS:
            return _OPS[type(e.op)](go(e.operand))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in _FN and len(e.args) == 1:
            return _FN[e.func.id](go(e.args[0]))
        raise QasmError("bad expression " + txt)
    try:
        return go(ast.parse(txt.strip().replace("^", "**"), mode="eval"))
    except (SyntaxError, ZeroDivisionError) as e:
        raise QasmError(f"bad expression {txt!r}: {e}")


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "(":
            depth += 1
        if ch == ")":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip() or out:
        out.append(cur)
    return out


def parse(text, prologue=True, n=None):
    """-> (n, [{'g','p': [float], 'q': [int]}]); raises QasmError."""
    src = re.sub(r"//[^\n]*", "", text)
    stmts = [s.strip() for s in src.split(";")]
    if stmts[-1] != "":
        raise QasmError(f"unterminated statement {stmts[-1]!r}")
    stmts = stmts[:-1]
    q = c = None
    i = 0
    if prologue:
        if len(stmts) < 4 or not re.fullmatch(r"OPENQASM\s+2\.0", stmts[0]):
            raise QasmError("missing version")
        if not re.fullmatch(r'include\s*"qelib1\.inc"', stmts[1]):
            raise QasmError("missing include")
        for s in stmts[2:4]:
            m = re.fullmatch(r"(qreg|creg)\s+([a-z][A-Za-z0-9_]*)\s*\[\s*(\d+)\s*\]", s)
            if not m:
                raise QasmError("bad declaration " + s)
            if m.group(1) == "qreg":
                q = (m.group(2), int(m.group(3)))
            else:
                c = (m.group(2), int(m.group(3)))
        if q is None or c is None:
            raise QasmError("missing register")
        if q[1] != c[1]:
            raise QasmError("register sizes differ")
        n = q[1]
        i = 4
    else:
        q, c = ("q", n), ("c", n)
    lines = []

    def ref(t, reg):
        m = re.fullmatch(re.escape(reg[0]) + r"\s*\[\s*(\d+)\s*\]", t.strip())
        if not m or int(m.group(1)) >= reg[1]:
            raise QasmError("bad operand " + t)
        return int(m.group(1))
    for s in stmts[i:]:
        m = re.fullmatch(r"measure\s+(.+?)\s*->\s*(.+)", s)
        if m:
            a, b = ref(m.group(1), q), ref(m.group(2), c)
            if a != b:
                raise QasmError("measurement into another bit: " + s)
            lines.append({"g": "measure", "p": [], "q": [a]})
            continue
        m = re.match(r"([a-z][A-Za-z0-9_]*)", s)
        if not m:
            raise QasmError("bad statement " + s)
        g, rest = m.group(1), s[m.end():].strip()
        ps = []
        if rest.startswith("("):
            d = 0
            for k, ch in enumerate(rest):
                d += ch == "("
                d -= ch == ")"
                if d == 0:
                    break
            ps = [ev(x) for x in split_args(rest[1:k])]
            rest = rest[k + 1:].strip()
        qs = [ref(x, q) for x in split_args(rest)]
        if not qs or len(set(qs)) != len(qs):
            raise QasmError("bad operands " + s)
        lines.append({"g": g, "p": ps, "q": qs})
    return n, lines


ARITY = {"cz": 2, "cx": 2, "cy": 2, "ch": 2, "swap": 2, "crx": 2, "cry": 2, "crz": 2, "cu1": 2, "cu2": 2, "cu3": 2,
         "rxx": 2, "rzz": 2, "ccx": 3, "cswap": 3}
NPAR = {"rx": 1, "ry": 1, "rz": 1, "u1": 1, "u2": 2, "u3": 3, "crx": 1, "cry": 1, "crz": 1, "cu1": 1, "cu2": 2,
        "cu3": 3, "rxx": 1, "rzz": 1}
KNOWN = set(ARITY) | set(NPAR) | {"id", "x", "y", "z", "h", "t", "tdg", "s", "sdg", "measure", "reset"}


def check_shape(lines):
    for l in lines:
        if l["g"] not in KNOWN:
            raise QasmError("statement not in qelib1.inc: " + l["g"])
        if len(l["q"]) != ARITY.get(l["g"], 1) or len(l["p"]) != NPAR.get(l["g"], 0):
            raise QasmError(f"wrong number of operands or parameters: {l}")
