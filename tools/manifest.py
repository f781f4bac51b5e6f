"""Writes MANIFEST.json from the rule modules present (run by hand, the result is committed)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECH = {
 "C01": "abstract interpretation with leftover taint + interprocedural alias/effect analysis",
 "C02": "call-graph and suspension-point (await/thread hand-off) analysis with lock discipline",
 "C03": "syntax-tree dominance and value-origin analysis of the engine call and its options; cross-language option comparison",
 "C04": "exception-flow resolution, response folding, interface extraction and comparison (Python and JavaScript)",
 "C05": "abstract interpretation with path formulas: partial operations discharged by path facts",
 "C06": "abstract interpretation with type/finite-set narrowing of every hole of the generated program (injection taint)",
 "C07": "abstract interpretation into rule templates, grammar, safety and predicate signature analysis",
 "C08": "predicate dependency graph over rule templates, decoder table extraction",
 "C09": "polarity and key provenance analysis of rule templates emitted from drawn marks",
 "C10": "abstract interpretation on boards with two clues at unknown places; coverage of the accepting condition by the emitting conditions (integer linear arithmetic)",
 "C11": "sort inference (row/column) over program expressions and rule templates",
 "C12": "mirror images of canonical rule templates: every rule must have its counterpart in the same program",
 "C13": "normal forms of the shared rule builders' templates against their contracts",
 "C14": "symbolic inversion of index arithmetic and code tables",
 "C15": "data-flow of the answer encoder: guarded packing and untouched parts",
 "C16": "constant propagation over the deployment script and import-graph closure",
 "C17": "abstract interpretation of the registry and of every solver under the values the front end can send; metadata cross-checks with the front end",
 "C21": "abstract interpretation into rule templates; coverage of all places by the emitting conditions (integer linear arithmetic)",
 "C18": "constant propagation of the catalogue; abstract evaluation of the orientation generator and shape-rule builder over all symmetry groups",
}
REASON = json.load(open(os.path.join(HERE, "tools/not_applicable.json")))
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(HERE, f"nqsa/rules/{p.lower()}.py")):
        m = importlib.import_module(f"nqsa.rules.{p.lower()}")
        checks.append({"property": p, "quick_cmd": f"python3 -m nqsa.check {p}", "thorough_cmd": f"python3 -m nqsa.check {p} --thorough", "technique": TECH[p], "level": "other", "level_note": m.EXPLANATION})
    else:
        na.append({"property": p, "reason": REASON.get(p, "not yet built")})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import nqsa.check\"", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
