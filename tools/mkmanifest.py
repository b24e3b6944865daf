"""Writes MANIFEST.json from the property modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ["ff63bd963fa1f0166077688d804a0a396aea5e60"]
CHK = "TLA+/TLC: "
TECH = {
 "C01": "Earley state machine + derivability in TLA+, TLC model checking; recorded parses validated by TLC against the specification",
 "C02": "forest soundness in TLA+, Earley model checked; recorded forests validated by TLC",
 "C03": "forest completeness (greatest fixed point) in TLA+, Earley model checked; recorded forests validated by TLC",
 "C04": "bisimilarity of forests in TLA+; recorded histories of one tree validated by TLC",
 "C05": "builder and well-formedness in TLA+; recorded build results validated by TLC",
 "C06": "grammar contents in TLA+; recorded reads validated by TLC",
 "C07": "wrapping as a TLA+ function; recorded grammars validated by TLC",
 "C08": "nullability in TLA+ (algorithm and definition), TLC; recorded analyses validated by TLC",
 "C09": "first sets in TLA+, TLC; recorded analyses validated by TLC",
 "C10": "follow sets in TLA+, TLC; recorded analyses validated by TLC",
 "C11": "removal of empty productions in TLA+, TLC; recorded transformations validated by TLC",
 "C12": "pass context state machine in TLA+, TLC; recorded pass executions validated by TLC",
 "C13": "forest store state machine in TLA+, TLC; recorded operations validated by TLC",
 "C14": "lock-level model of the forest store in TLA+, TLC; recorded concurrent histories linearized by TLC",
 "C15": "reachable forest in TLA+; recorded DOT renderings validated by TLC",
 "C16": "token stream state machine in TLA+, TLC; recorded reads validated by TLC",
 "C17": "text buffer state machine in TLA+, TLC; recorded operations validated by TLC",
 "C18": "text positions in TLA+, TLC; recorded positions validated by TLC",
 "C19": "multi-map state machine in TLA+, TLC; recorded operations validated by TLC",
 "C20": "work-list algorithms in TLA+, TLC; recorded results validated by TLC",
 "C21": "items and item sets in TLA+; recorded observations validated by TLC",
 "C22": "typed map state machine in TLA+, TLC; recorded operations validated by TLC",
 "C23": "names with shared storage in TLA+, TLC; recorded operations validated by TLC",
 "C24": "expected text as a TLA+ function; recorded texts validated by TLC",
 "C25": "merging map state machine in TLA+, TLC; recorded operations validated by TLC",
 "C26": "identity and orders in TLA+; recorded comparisons validated by TLC",
 "C28": "values and orders in TLA+, TLC; recorded comparisons validated by TLC",
 "C29": "expected texts as TLA+ functions, TLC; recorded texts validated by TLC",
 "C27": "LR(1) item sets in TLA+, TLC; recorded item sets validated by TLC",
}
NOTE = ("The verdict is TLC's: every recorded execution of the code in /repo must be a behaviour of the specification. "
        "Bounded: the executions are those generated (enumerated by the specification, or random and structured with "
        "the given seed); the design legs are exhaustive for their constants. Trusted: TLC, the recording harness, the generators' reach.")
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "lib", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 lib/check.py %s quick" % i,
                       "thorough_cmd": "python3 lib/check.py %s thorough" % i,
                       "technique": TECH[i], "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
     "hooks": {"guard": "bongo_verif (cfg)", "enable": "RUSTFLAGS='--cfg bongo_verif=\"lr\"' (or \"follows\", \"textpos\", \"merge\"); most checks need none",
               "source_commits": HOOKS},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
