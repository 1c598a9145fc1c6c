#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.txt from the fix commits in /repo."""
import subprocess, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("inverse of a multi-pair", "C07"), ("Opt.add", "C15"), ("wq.optm", "C15"), ("Opt.sqa", "C16"), ("Vqe.result", "C14"),
       ("wq.net", "C15"), ("wq.mul", "C15"), ("QaoaAnsatz", "C14"), ("QUBO given as NumPy", "C16"), ("qn_to_qubo", "C15"),
       ("symbolic unitary of repeated", "C09"), ("state cache", "C02"), ("zero expression", "C11"), ("adding to an expression", "C10"),
       ("arithmetic between", "C10"), ("comparing a Term", "C10"), ("identity operator is hashable", "C10"),
       ("set_default_backend", "C17"), ("unregister_backend", "C17"), ("qiskit sampler", "C13"), ("measurement sampler", "C13"),
       ("+Y basis", "C13"), ("time evolution of Y", "C12"), ("three-qubit gate targets", "C04"), ("out-of-range negative", "C04"),
       ("leave the circuit unchanged", "C03"), ("nested target tuples", "C04"), ("symbolic unitary keeps angles", "C09"),
       ("unsimplified zero", "C09")]
EXTRA = dict(l.rstrip("\n").split("\t") for l in open(os.path.join(H, "tools", "fixmap.tsv"))) if os.path.exists(os.path.join(H, "tools", "fixmap.tsv")) else {}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
path = os.path.join(H, "known_findings.txt")
keep = [l for l in open(path).read().splitlines() if l.startswith("known: ")]
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    pid = next((v for k, v in list(EXTRA.items()) + MAP if k in s), None)
    assert pid, s
    out.append(f"fixed: property={pid} {h} {s[5:]}")
open(path, "w").write("\n".join(keep + out) + "\n")
