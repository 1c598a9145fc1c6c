"""Plants changes: python3 tools/mkseed.py DEFS.py [id...] [-r]

DEFS.py holds SEEDS, a list of dict(id, prop, edits=[(file, old, new)], demo, needs, breaks).
Each change is applied to a scratch copy of /repo under /tmp; it is kept in seeded/<id>
when the 255 stable tests pass with it, its demonstration passes without and fails with it,
and it touches lines of the original repository only.  Then the property's check is run
against the copy, and the outcome is noted in tools/seeds.json.
With -r, DEFS are the directories of seeded/ and only the checks are run again."""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORIG = "9c2798e"
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd="/", env=None, timeout=1200):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8")
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def copy(name):
    d = f"/tmp/seed_{name}"
    shutil.rmtree(d, ignore_errors=True)
    sh(f"cp -a /repo {d}")
    sh(f"git checkout -q -- .; git clean -fdxq -e '*.egg-info'", cwd=d)
    return d


def tests(d):
    rc, out = sh(f"timeout 600 {PY} -m pytest -q -p no:cacheprovider -p vp_seed --timeout=300 -o junit_family=xunit2 "
                 f"--disable-warnings --junitxml={d}.xml tests", cwd=d,
                 env={"PYTHONPATH": f"/opt/vp/plugin:{d}", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "2"})
    rc, out2 = sh(f"{PY} /opt/vp/results.py {d}.json junit:{d}.xml")
    r = json.load(open(f"{d}.json"))
    for f in (f"{d}.json", f"{d}.xml"):
        os.path.exists(f) and os.remove(f)
    ok = set(r.get("passed", r.get("pass", [])))
    base = BASE["stable"]
    return sorted(set(base) - ok), len(base)


def blame_ok(d):
    """Removed lines must stem from the original repository."""
    rc, out = sh("git diff -U0", cwd=d)
    fn, bad, good = None, [], 0
    for l in out.splitlines():
        if l.startswith("--- a/"):
            fn = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            for k in range(a, a + n):
                rc, b = sh(f"git blame -s -L{k},{k} HEAD -- {fn}", cwd=d)
                if b.lstrip("^").startswith(ORIG):
                    good += 1
                else:
                    bad.append(f"{fn}:{k}")
    return good, bad


def check(prop, d):
    t = time.time()
    rc, out = sh(f"timeout 880 python3 {VERIF}/check.py {prop}", cwd=VERIF,
                 env={"VERIF_REPO": d, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_EVIDENCE": f"{d}.ev"})
    shutil.rmtree(f"{d}.ev", ignore_errors=True)
    caught = rc == 1 and f"VIOLATION property={prop}" in out
    return caught, rc, time.time() - t, [l for l in out.splitlines() if "VIOLATION" in l][:2] or out.splitlines()[-3:]


def plant(s):
    d = copy(s["id"])
    try:
        for fn, old, new in s["edits"]:
            p = os.path.join(d, fn)
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], f"edit of {fn} matches {t.count(old)} times: {old[:50]!r}"
            open(p, "w").write(t.replace(old, new))
        good, bad = blame_ok(d)
        if bad or not good:
            return s["id"], f"not original lines: {bad} good={good}"
        failed, n = tests(d)
        if failed:
            return s["id"], f"TESTS fail {failed[:4]} ({len(failed)}/{n})"
        tmp = f"/tmp/sd/{s['id']}"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        if s.get("stubs"):
            shutil.copy(VERIF + "/harness/stubs.py", tmp + "/stubs.py")
        open(tmp + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                           'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(tmp + "/meta.json", "w"), indent=1)
        open(tmp + "/patch.diff", "w").write(sh("git diff", cwd=d)[1])
        rc0, o0 = sh(f"bash {tmp}/demo.sh", cwd="/repo", timeout=300)
        rc1, o1 = sh(f"bash {tmp}/demo.sh", cwd=d, env={"PYTHONPATH": d}, timeout=300)
        if rc0 != 0 or rc1 == 0:
            return s["id"], f"DEMO clean={rc0} patched={rc1} {o0[-300:]} {o1[-300:]}"
        dst = f"{VERIF}/seeded/{s['id']}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(tmp, dst)
        caught, rc, dt, msg = check(s["prop"], d)
        return s["id"], {"property": s["prop"], "caught": caught, "rc": rc, "seconds": round(dt, 1), "msg": msg}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def recheck(i):
    d = copy(i)
    try:
        rc, out = sh(f"git apply {VERIF}/seeded/{i}/patch.diff", cwd=d)
        if rc:
            return i, "patch does not apply: " + out[:200]
        prop = json.load(open(f"{VERIF}/seeded/{i}/meta.json"))["property"]
        caught, rc, dt, msg = check(prop, d)
        return i, {"property": prop, "caught": caught, "rc": rc, "seconds": round(dt, 1), "msg": msg}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if a != "-r"]
    res_file = f"{VERIF}/tools/seeds.json"
    if "-r" in sys.argv:
        ids = args or sorted(os.path.basename(p) for p in glob.glob(f"{VERIF}/seeded/*"))
        jobs, f = ids, recheck
    else:
        ns = {}
        exec(open(args[0]).read(), ns)
        jobs, f = [s for s in ns["SEEDS"] if not args[1:] or s["id"] in args[1:]], plant
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for fut in cf.as_completed([ex.submit(f, j) for j in jobs]):
            try:
                i, r = fut.result()
            except Exception as e:
                print("ERROR", e, flush=True)
                continue
            if isinstance(r, dict):
                print("CAUGHT" if r["caught"] else "MISSED", i, r["rc"], r["seconds"], str(r["msg"])[:230], flush=True)
                res = json.load(open(res_file)) if os.path.exists(res_file) else {}
                res[i] = {"property": r["property"], "caught": r["caught"]}
                json.dump(dict(sorted(res.items())), open(res_file, "w"), indent=1)
            else:
                print("REJECT", i, r[:600], flush=True)


main()
