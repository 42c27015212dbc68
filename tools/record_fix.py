"""Development helper: commit the edits in /repo as one "fix:" commit and record it.

usage: record_fix.py PROPERTY "commit subject (without fix:)" "what failed"
"""
import json
import os
import subprocess
import sys

prop, subject, what = sys.argv[1:4]
if subject == "HEAD":
    pass
else:
    subprocess.run(["git", "-C", "/repo", "commit", "-qam", "fix: " + subject], check=True)
h = subprocess.run(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], capture_output=True, text=True).stdout.strip()
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
with open(path, "a") as f:
    f.write(json.dumps({"status": "fixed", "property": prop, "commit": h, "what": what,
                        "line": f"fixed: property={prop} {h} {what}"}) + "\n")
print(h)
