"""Write MANIFEST.json."""
import json
CMP = "value-graph dataflow comparison of every function in scope with the reviewed reference"
T = {
 "C02": CMP + "; gate matrices decided in an exact trigonometric ring (unitarity, flags, group laws, relations)",




 "C12": CMP + "; ownership, write/validate/rollback and validation-bypass rules",
 "C06": CMP + "; free-symbol rule",
 "C18": CMP + "; phase of the U3 replacement in an exact trigonometric ring",
 "C20": "interprocedural write-effect and aliasing analysis",
}
NOTE = ("Static, from source only. A difference from the reference graph is an alarm only when a "
        "rule shows it is a different value, input, write or rejection; differences no rule "
        "interprets are listed as undecided in the evidence and raise no alarm. The argument that "
        "the reference satisfies the property is by review; external libraries are trusted.")
NOTES = {
 "C20": ("Static, from source only. Writes are tracked through repository code and modelled "
         "library calls; unmodelled library calls are assumed not to mutate their arguments."),
}
checks = []
for i in range(1, 21):
    p = "C%02d" % i
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": T.get(p, CMP),
        "level": "other",
        "level_note": NOTES.get(p, NOTE)})
json.dump({"version": 1, "setup_cmd": "python3 -m py_compile check.py sa/core.py",
           "checks": checks, "not_applicable": []},
          open("/verif/MANIFEST.json", "w"), indent=1)
