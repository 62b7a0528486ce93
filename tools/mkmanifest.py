"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, "harness", "checks.py")).read()
have = {m.upper() for m in re.findall(r"^def (c\d\d)\(", src, re.M)}
NOTE = ("TLC explores the specification's own model exhaustively within the stated bounds and judges every recorded "
        "history of the real library, line by line, against the same specification operators (exact integer/rational "
        "expectations, float32 rounding bounded by a tolerance the specification caps at 2%). Configurations, weights, "
        "inputs and operation sequences are generated (seeded); assurance is for those explored, not a proof for all. "
        "Trusted: TLC, the Json module, the harness that records values.")
MODELS = {"C01": "MCWalk", "C02": "MCWalk", "C03": "MCWalk", "C04": "MCWalk", "C05": "MCRaise", "C06": "MCSplit",
          "C07": "MCSmooth", "C09": "MCSlide", "C10": "MCNet", "C11": "MCObjects", "C12": "MCLion", "C13": "MCNorm",
          "C14": "MCCalls", "C15": "MCProd", "C16": "MCWalk", "C17": "MCSlide", "C19": "MCMask", "C20": "MCTail"}
man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in have:
        man["checks"].append({
            "property": p,
            "quick_cmd": f"/opt/venv/bin/python harness/run.py {p}",
            "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python harness/run.py {p}",
            "technique": "TLA+ specification; " + (f"TLC explores the finite model {MODELS[p]} and its behaviours are replayed into the library; "
                          if p in MODELS else "TLC explores the finite model MCVae; " if p == "C21" else "")
                         + "recorded library histories are validated against the specification by TLC (trace validation)",
            "level": "model_checking", "level_note": NOTE})
    else:
        man["not_applicable"].append({"property": p, "reason": "check not built yet"})
if not man["not_applicable"]:
    man["not_applicable"] = []
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
