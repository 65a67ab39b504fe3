#!/opt/venv/bin/python
"""Write MANIFEST.json from properties.jsonl and the modules present in pbt/props."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = {
 "C01": ("property-based testing: equality/hash of generated chunks and patterns against a canonical-form model", ""),
 "C02": ("property-based testing: generated patterns and chunks against a declarative reference matcher", ""),
 "C03": ("property-based testing: partial-match scores against an independently computed sum, histories of similarity declarations", ""),
 "C04": ("property-based testing: round trip and differential between string and programmatic notation, including simulation traces", ""),
 "C05": ("stateful property-based testing: histories of type declarations and chunk creations against a model of types", ""),
 "C06": ("stateful property-based testing: histories of memory operations against a dictionary model", ""),
 "C07": ("stateful property-based testing: histories of buffer operations and simulations against a conservation model", ""),
 "C08": ("property-based testing: buffer modifications and creations against a slot-map model", ""),
 "C09": ("property-based testing: generated request sequences in simulations against a reference of the allowed outcomes", ""),
 "C10": ("property-based testing: generated memories, contexts and parameters against independently computed activations and latencies", ""),
 "C11": ("property-based testing: base level against the closed formula, metamorphic relations on histories", ""),
 "C12": ("stateful property-based testing: spreading activation over growing memories against an independent fan count", ""),
 "C13": ("stateful property-based testing: retrieval sequences against a queue model of the finst", ""),
 "C14": ("property-based testing: random production systems, every conflict resolution re-decided by a reference", ""),
 "C15": ("property-based testing: utilities replayed from the event log by the temporal-difference equation", ""),
 "C16": ("differential property-based testing: random production systems against a reference interpreter", ""),
 "C17": ("property-based testing: grammar and clock invariants over event traces of random models of all modules", ""),
 "C18": ("metamorphic property-based testing: repeated, split, stepped, time-shifted and re-hashed runs of random models", ""),
 "C19": ("property-based testing: generated key sequences against a reference timeline of the motor module", ""),
 "C20": ("property-based testing: generated keys and commands against the documented key set", ""),
 "C21": ("property-based testing: generated stimulus schedules and key presses against a reference timeline", ""),
 "C22": ("property-based testing: generated screens and searches against a brute-force search", ""),
 "C23": ("property-based testing: generated attention shifts against the EMMA equations and event order", ""),
 "C24": ("property-based testing: generated screens against a reference of what must be noticed and buffered", ""),
 "C25": ("differential property-based testing: generated rule pairs, compiled rule against its parents in sequence", ""),
 "C26": ("property-based testing: generated rule pairs against a reference of the blocking conditions", ""),
 "C27": ("property-based testing / grammar fuzzing: mutated inputs must be rejected, valid ones accepted, state compared before and after", ""),
 "C28": ("metamorphic property-based testing: interleaved models against the same models run alone", ""),
 "C29": ("stateful property-based testing: copies and originals driven by diverging histories against two models", ""),
 "C30": ("statistical property-based testing: samples of noise against the configured distributions at fixed significance, with seeds derived from the case", ""),
 "C31": ("property-based testing: quiescence and wake-up invariants over runs of random models of all modules", ""),
 "C33": ("property-based testing: model-based test of configuration steps against a reference model, and runs of rules that use all buffers by name", ""),
 "C32": ("property-based testing: differential test of a re-used model against a new one, over random models and abandonment points", ""),
}
NOTE = ("Holds on all generated cases of the run (counts in the evidence file); assurance is that of sampling, not proof. "
        "Trusts the reference written in pbt/, CPython, simpy and numpy.")
NA = {}
checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    ids = [json.loads(x)["id"] for x in f if x.strip()]
for i in ids:
    if i not in NA and os.path.exists(os.path.join(HERE, "pbt", "props", i.lower() + ".py")):
        t, extra = TECH[i]
        checks.append({"property": i, "quick_cmd": "%s run.py %s" % (PY, i), "thorough_cmd": "%s run.py %s --tier thorough" % (PY, i),
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": (extra + " " + NOTE).strip()})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "%s -m compileall -q run.py pbt && mkdir -p evidence replays" % PY, "checks": checks, "not_applicable": na,
     "notes": "run.py is the entry point of every check; pbt/core.py the engine; see DESIGN.md. No hooks in /repo are needed."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
