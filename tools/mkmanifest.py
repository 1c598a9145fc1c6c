#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check is claimed."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("TLA+ exact symbolic execution (TLC) of generated circuits replayed on the simulator", "Every supported gate on every placement up to 3 qubits plus seeded circuits up to 11 qubits; amplitudes exact polynomials in the angles, real runs sampled at generic and special angles."),
 "C02": ("TLA+ state machine of circuits, runs and caches (TLC); generated histories replayed on the real objects", "Cache design model-checked exhaustively for small histories; long seeded histories replayed; results compared with exact amplitudes."),
 "C03": ("TLA+ state machine of circuit values (TLC); generated histories replayed on the real objects", "Seeded histories of append/add/iadd/copy/failed append over several circuits; each state compared after every step."),
 "C04": ("TLA+ definition of target resolution, enumerated by TLC and replayed into every backend", "All integer/slice/tuple expressions in a small range on all register sizes, growth included; all backends compared."),
 "C05": ("TLA+ exact branching semantics of measurement and reset (TLC); returned states matched with terminal states", "Seeded circuits with measurements anywhere; all branches enumerated exactly; every real outcome must be one of them with its state vector."),
 "C06": ("TLA+ exact branching probabilities (TLC); counts of the real sampler tested against them", "Membership exact; frequencies with 7-sigma bounds over fixed seeds."),
 "C07": ("TLA+ translation validation (TLC, all angles symbolic) of real dagger() output, plus replay", "Gate lists of the real inverse validated for all angles."),
 "C08": ("TLA+ translation validation (TLC, all angles symbolic) of the exported OpenQASM text", "The text is parsed and its meaning under qelib1 compared with the circuit for all angles; measurement branches compared exactly."),
 "C09": ("TLA+ exact symbolic unitary (TLC Choi state) compared with the real sympy matrix", "All gates, 1-3 qubits, seeded circuits; entries compared at generic and special values."),
 "C10": ("TLA+ specification of the Pauli operator algebra (TLC); histories of expressions replayed", "Seeded expression histories with every operand type; the represented operator is exact in the specification."),
 "C11": ("TLA+ Pauli operators as exact matrices (TLC) compared with to_matrix in every format", "All sparse formats and explicit sizes."),
 "C12": ("TLA+ exact exponential of Pauli strings (TLC, symbolic time) replayed on the real evolution circuits", "All Pauli strings up to 3 qubits, symbolic t."),
 "C13": ("TLA+ exact expectation and marginal polynomials (TLC) compared with every sampler", "Exact for matrix and probability routes, 7-sigma bounds for sampling routes."),
 "C14": ("TLA+ definition of QAOA circuits (TLC, symbolic angles) validated against get_circuit; state machine of VQE results replayed", "Seeded Hamiltonians, mixers, initial circuits, steps."),
 "C15": ("TLA+ definition of QUBO builders and conversions, enumerated by TLC for all assignments", "Every builder on seeded and small exhaustive inputs, all assignments."),
 "C16": ("TLA+ model of the annealer (TLC) whose trajectories are checked against recorded real runs", "Recorded E/bit histories validated as behaviours; Metropolis frequencies with 7-sigma bounds."),
 "C17": ("TLA+ state machine of the registry (TLC) with generated histories replayed", "Seeded histories over gates, macros, backends, defaults; every lookup compared after every step."),
 "C18": ("TLA+ translation validation (TLC, all angles symbolic) of gate lists received by partial backends", "Decomposition laws model-checked for all angles; recorded lists of real runs validated."),
 "C19": ("TLA+ state machine of immutable operation lists (TLC); branching histories replayed", "Seeded branching histories; all values re-checked after every step."),
 "C20": ("TLA+ exact branching semantics (TLC) compared with the results of the Qiskit route", "Counts, unitary and state results through the installed Aer simulator."),
 "C21": ("TLA+ exact execution (TLC) compared with the numba simulator's functions (JIT replaced by plain Python)", "numba is not installed: the code runs with a stub decorator."),
 "C22": ("TLA+ definition of the helpers, enumerated by TLC and replayed", "All bit strings up to a bound, seeded vectors."),
 "C24": ("TLA+ state machine of problems handed to an Ising machine (TLC); histories replayed with a recording solver", "dwave.cloud is not installed: a recording stand-in takes its place; problems fit the solver's graph."),
 "C25": ("TLA+ machine of RBM training with a symbolic logistic function (TLC); behaviours replayed, recorded real epochs validated", "Up to 3+3 units (5+4 thorough), 2-5 epochs; samples scripted by the specification or taken from the real annealer."),
 "C26": ("TLA+ reader (grammar) of printed circuits, compared with the specification's target resolution (TLC); texts printed by the real code are validated", "Circuits of up to 18 operations, all target forms, register sizes n..n+4; 1500 texts (8000 thorough)."),
 "C27": ("TLA+ reader (grammar) of printed Pauli expressions, compared with the value in the Pauli algebra (TLC); texts printed by the real code are validated", "Up to about ten terms of up to a dozen operators, qubits up to 1000; 2500 values (12000 thorough)."),
 "C23": ("TLA+ exact semantics of recorded operations handed to a qgate stand-in", "qgate is not installed: a recording stand-in module takes its place."),
}
LEVEL = {"C07": "translation_validation", "C08": "translation_validation", "C18": "translation_validation"}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
done = [p["id"] for p in props if os.path.exists(os.path.join(H, "checks", p["id"].lower() + ".py"))]
NA = {}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in done:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                            "technique": TECH[i][0], "level": "model_checking", "level_note": TECH[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(done), "claimed")
