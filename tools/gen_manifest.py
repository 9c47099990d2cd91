"""writes MANIFEST.json from the registry of checks and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import check, props  # noqa: F401
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
    "C40": "A statement about the distribution of a random experiment over f64 noise; no static argument in reach bounds it.  Its static preconditions (additive independent draws, exact waveforms, decision rules) are C08-C10 and C22.",
    "C41": "The claim needs the sum of several users' symbols to stay on the right side of every threshold; on the current decision rule this is false for balanced ties and for some key sets and holds only for enough users' energies, so there is no universally quantified statement to decide.  Its static part, orthogonality of the codes, is C18.",
    "C42": "Recovery depends on margins: non-coherent FSK tones of a 5 percent spacing are not orthogonal, and the FH-OFDM-DCSK receiver does not remove the chaotic factor it was sent with (its only round-trip test is ignored upstream).  The sign of the decision variable is a numerical inequality over unbounded message spaces that this analysis does not bound.",
    "C43": "The filter is designed numerically by a dependency (sci-rs) at run time; its coefficients and response are not derivable from the source by this analysis.",
    "C44": "The decision is computed by scipy at run time and is statistical.",
}
PENDING = "no check built yet"
TECH = {
    "C05": "abstract interpretation of rustc MIR: demand analysis (items taken from the input while building and before each output)",
    "C06": "whole-crate call-graph effect analysis over rustc MIR (entropy, clock, environment, files, global state)",
    "C07": "whole-crate query over type-checked HIR/MIR for unsafe code, raw pointers and mutable statics",
    "C17": "abstract interpretation of rustc MIR: panic conditions derived in closed form and compared with the stated guards",
    "C27": "abstract interpretation of rustc MIR of the bindings plus call-site query of the module registration",
}
DEF = "abstract interpretation of rustc MIR: inductive stream invariants, closed forms compared by normalisation"
NOTE = ("Decides the property from the type-checked MIR of the current source for the obligations listed in the evidence; "
        "symbolic in all data and in the parameters named there, enumerated in the others.  Treats f64 as real numbers; trusts the MIR "
        "construction of rustc, the models of library callees (kv/models.py) and the normaliser.  An obligation the analysis cannot "
        "decide is reported as undecided in the evidence and raises no alarm.")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in check.REG:
        checks.append({"property": i, "quick_cmd": "python3 -m kv.check %s" % i,
                       "thorough_cmd": "python3 -m kv.check %s --tier thorough" % i,
                       "technique": TECH.get(i, DEF), "level": "other", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
m = {"version": 1, "setup_cmd": "python3 -m kv.dump", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only; see DESIGN.md.  Repairs of defects the checks found are the fix: commits in /repo, listed in known-findings.jsonl."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
