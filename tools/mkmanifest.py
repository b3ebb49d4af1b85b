"""Writes ../MANIFEST.json from ../properties.jsonl."""
import json, os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
HOW = {
    "C25": "property-based testing: seeded generators against independent "
           "algebra (Wick, Heisenberg action) and moment tests",
    "C26": "property-based testing: validity laws and moment tests over draws",
    "C27": "stateful property-based testing over call histories",
    "C29": "stateful property-based testing: call sequences against a "
           "history-free process",
    "C30": "property-based testing with generated invalid arguments",
    "C31": "property-based testing of returned graphs and drawn figures",
}
TRUST = ("Exploration: every law is searched with thousands of generated cases "
         "per run (counts in the evidence file) against oracles that do not "
         "call the library; failures are shrunk and replayed in a fresh "
         "process. No guarantee beyond the cases generated. Trusts numpy, "
         "scipy, networkx primitives and the oracles in pbt/ref.py; sizes are "
         "bounded (see the table in DESIGN.md: 4-9 sites or qubits, graphs "
         "of 15-120 nodes).")
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "./check %s --tier quick" % i,
        "thorough_cmd": "./check %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": HOW.get(i, "property-based testing: generated inputs "
                                "against an independent oracle and "
                                "metamorphic relations"),
        "level": "exploration",
        "level_note": TRUST})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks,
     "not_applicable": [],
     "notes": "No hooks: the checks import the package from /repo/src and see "
              "only its public behaviour. Known findings and repairs: "
              "known_findings.json."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
