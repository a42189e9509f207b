"""Records a repair in known_findings.json: addfixed.py PROPERTY COMMIT."""

import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, commit = sys.argv[1:]
title = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%s", commit], capture_output=True, text=True, check=True).stdout.strip()
path = os.path.join(HERE, "known_findings.json")
with open(path, encoding="utf-8") as f:
    data = json.load(f)
what = title.removeprefix("fix:").strip()
data["findings"].append({"property": prop, "id": f"fixed-{commit}", "status": "fixed", "commit": commit,
                         "what": f"fixed: property={prop} {commit} before this commit, the following did not hold: {what}"})
with open(path, "w", encoding="utf-8") as f:
    json.dump(data, f, indent=1)
    f.write("\n")
