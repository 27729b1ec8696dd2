import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks import C
NA = {}
claimed = [i for i in C if i not in NA]
if len(sys.argv) > 1:
    claimed = sys.argv[1].split(",")
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": [{"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i}",
                "evidence_file": f"evidence/{i}.json", "technique": C[i]["technique"], "level": "exploration",
                "level_note": C[i]["note"]} for i in claimed],
    "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in C if i not in claimed],
    "notes": "No hooks in /repo: the checks use the public interface only. Findings and repairs: KNOWN_FINDINGS.txt. Replay a saved failure: python3 run.py --replay FILE.",
}
with open(os.path.join(os.path.dirname(here), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
