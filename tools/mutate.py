"""Mutation survey: python3 tools/mutate.py gen N SEED | test | check [file-substr]
Keeps its state in /tmp/mut: mutants.json (id, file, line, desc, offsets, tests, checks)."""
import ast, concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, time
D = "/tmp/mut"; PY = "/opt/venv/bin/python"
FILES = {  # file -> (weight, checks cheap first)
 "circuit.py": (2, "C03 C17 C02 C04 C07 C08 C19 C01 C18".split()), "gate.py": (4, "C07 C08 C18 C04 C01 C09 C19 C23 C21".split()),
 "pauli.py": (6, "C10 C12 C13 C11 C15 C14".split()), "vqe.py": (4, "C13 C14 C20".split()), "wq.py": (4, "C16 C15 C22".split()),
 "utils.py": (1, ["C22"]), "experimental/operations.py": (1, ["C19"]), "experimental/utils.py": (1, ["C19"]),
 "backends/numpy_backend.py": (4, "C05 C02 C06 C01 C18".split()), "backends/_numba_backend_impl.py": (3, ["C21"]),
 "backends/sympy_backend.py": (2, ["C09"]), "backends/qasm_output_backend.py": (2, ["C08", "C20"]), "backends/ibmq_backend.py": (1, ["C20"]),
 "backends/qgate_backend.py": (2, ["C23"]), "backends/backendbase.py": (1, "C18 C01 C08".split()), "backends/qasm_parser_backend_generator.py": (1, ["C08", "C20"])}
SKIP = re.compile(r"__str__|__repr__|plot|create_global_phase|draw")
CMP = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="), ast.Is: ("is", "is not"), ast.IsNot: ("is not", "is"), ast.In: ("in", "not in"), ast.NotIn: ("not in", "in")}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.Mod: ("%", "//"), ast.FloorDiv: ("//", "%"), ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&"), ast.LShift: ("<<", ">>"), ast.Pow: ("**", "*"), ast.BitXor: ("^", "|")}

def mutants(fn):
    src = open(f"/tmp/mut/base/blueqat/{fn}").read()
    tree = ast.parse(src)
    offs = [0]
    for l in src.splitlines(True):
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []
    def add(n, new, what, rng=None):
        s, e = rng or pos(n)
        out.append({"file": fn, "line": n.lineno, "s": s, "e": e, "new": new, "what": what, "old": b[s:e].decode()[:80]})
    def visit(n, fun):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fun = n.name
            if SKIP.search(n.name):
                return
        if isinstance(n, ast.Raise) or isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if fun:
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                add(n, f"{seg(n.left)} {CMP[type(n.ops[0])][1]} {seg(n.comparators[0])}", "cmp")
            if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(n, f"{seg(n.left)} {BIN[type(n.op)][1]} {seg(n.right)}", "bin")
            if isinstance(n, ast.BoolOp) and len(n.values) == 2:
                op = "or" if isinstance(n.op, ast.And) else "and"
                add(n, f"({seg(n.values[0])} {op} {seg(n.values[1])})", "bool")
                add(n, f"({seg(n.values[0])})", "bool-left"); add(n, f"({seg(n.values[1])})", "bool-right")
            if isinstance(n, ast.Constant) and type(n.value) in (int, float):
                add(n, repr(n.value + 1), "const+1")
                if n.value: add(n, repr(type(n.value)(0)) if random.random() < .5 else f"(-{n.value!r})", "const")
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(n, repr(not n.value), "bool-const")
            if isinstance(n, ast.UnaryOp):
                add(n, f"({seg(n.operand)})", "unary")
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                add(n.test, "True" if not isinstance(n, ast.While) else "False", "cond-true"); add(n.test, "False", "cond-false")
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) :
                add(n, "pass", "del")
            if isinstance(n, (ast.Continue, ast.Break)): add(n, "pass", "del")
            if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant): 
                if isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2: add(n, f"return {seg(n.value.elts[1])}, {seg(n.value.elts[0])}", "swap")
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "simplify", "conjugate", "to_expr", "to_term", "expand", "sort", "lower") and not n.args:
                    add(n, seg(n.func.value), "dropcall")
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                    s, e = pos(n.args[0])[0], pos(n.args[1])[1]
                    add(n, f"{seg(n.args[1])}, {seg(n.args[0])}", "swapargs", (s, e))
                if n.keywords and n.keywords[0].arg:
                    pass
            if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
                add(n, f"{seg(n.target)} {BIN[type(n.op)][1]}= {seg(n.value)}", "aug")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("reversed", "sorted", "abs", "tuple", "list"):
                if n.args: add(n, f"({seg(n.args[0])})", "dropcall")
        for c in ast.iter_child_nodes(n):
            visit(c, fun)
    visit(tree, None)
    return out

def apply(m, d):
    p = f"{d}/blueqat/{m['file']}"
    b = open(f"/tmp/mut/base/blueqat/{m['file']}", "rb").read()
    open(p, "wb").write(b[:m["s"]] + m["new"].encode() + b[m["e"]:])
    return p

def sh(cmd, cwd="/", env=None, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {})), timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, "timeout"

def fresh(d):  # copies the frozen tree that the mutants were generated from
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f"cp -a {D}/base/. {d}/")

def load(): return json.load(open(f"{D}/mutants.json"))
def save(ms): json.dump(ms, open(f"{D}/mutants.json.tmp", "w")); os.replace(f"{D}/mutants.json.tmp", f"{D}/mutants.json")

BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def test(m, slot):
    d = f"{D}/t{slot}"
    apply(m, d)
    try:
        rc, out = sh(f"timeout 200 {PY} -m pytest -q -x -p no:cacheprovider -p vp_seed --disable-warnings tests 2>&1 | tail -3", cwd=d,
                 env={"PYTHONPATH": f"/opt/vp/plugin:{d}", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1"}, timeout=300)
        m["tests"] = "pass" if re.search(r"\d+ passed", out) and "failed" not in out and "error" not in out else "fail"
    finally:
        shutil.copy(f"/tmp/mut/base/blueqat/{m['file']}", f"{d}/blueqat/{m['file']}")
    return m

def main():
    a = sys.argv
    if a[1] == "gen":
        N, seed = int(a[2]), int(a[3]); random.seed(seed)
        ms = []
        tot = sum(w for w, _ in FILES.values())
        for fn, (w, _) in FILES.items():
            c = mutants(fn)
            good = []
            for m in c:
                b = open(f"/tmp/mut/base/blueqat/{fn}", "rb").read()
                try:
                    compile(b[:m["s"]] + m["new"].encode() + b[m["e"]:], fn, "exec"); good.append(m)
                except SyntaxError: pass
            k = min(len(good), round(N * w / tot))
            print(fn, len(good), k)
            ms += random.sample(good, k)
        for i, m in enumerate(ms): m["id"] = i
        save(ms)
    if a[1] == "test":
        ms = load(); todo = [m for m in ms if "tests" not in m]
        import queue
        q = queue.Queue()
        for i in range(7): fresh(f"{D}/t{i}"); q.put(i)
        def go(m):
            s = q.get()
            try: return test(m, s)
            finally: q.put(s)
        with cf.ThreadPoolExecutor(7) as ex:
            for k, _ in enumerate(ex.map(go, todo)):
                if k % 20 == 0: save(ms)
        save(ms)
        print({x: sum(m["tests"] == x for m in ms) for x in ("pass", "fail")})
    if a[1] == "check":
        ms = load(); sub = a[2] if len(a) > 2 else ""
        W = int(os.environ.get("W", "3"))
        import queue
        q = queue.Queue()
        for i in range(W): fresh(f"{D}/c{i}"); q.put(i)
        def go(m):
            s = q.get(); d = f"{D}/c{s}"
            try:
                apply(m, d)
                m["checks"] = []
                for c in FILES[m["file"]][1]:
                    rc, out = sh(f"timeout 600 python3 check.py {c}", cwd="/verif", env={"VERIF_REPO": d, "VERIF_EVIDENCE": f"{D}/ev{s}"})
                    m["checks"].append([c, rc, out[-400:] if rc not in (0, 1) else ""])
                    if rc == 1: break
                save(ms)
                print(m["id"], m["file"], m["line"], m["what"], m["old"][:40].replace("\n", " "), "->", m["new"][:40].replace("\n", " "), "|", [x[:2] for x in m["checks"]], flush=True)
            finally:
                shutil.copy(f"/tmp/mut/base/blueqat/{m['file']}", f"{d}/blueqat/{m['file']}"); q.put(s)
        with cf.ThreadPoolExecutor(W) as ex:
            list(ex.map(go, [m for m in ms if m.get("tests") == "pass" and "checks" not in m and sub in m["file"]]))
if __name__ == "__main__": main()
