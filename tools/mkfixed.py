"""Lists the repairs made in /repo in known_findings.json ("fixed" entries)."""

import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = os.path.join(ROOT, "known_findings.json")
# one property per fix: commit, in the order of the commits
PROPS = """C06 C01 C01 C01 C15 C17 C04 C04 C17 C01 C14 C06 C06 C05 C16 C06 C05
C12 C17 C16 C01 C07 C08 C07 C07 C07 C07 C23 C09 C09 C10 C11 C12 C12 C12 C13
C06 C08 C17 C17 C16 C15 C15 C15 C15 C12 C19 C19 C19 C22 C22 C22 C22 C20 C20
C20 C20 C20""".split()
EXTRA = os.path.join(ROOT, "tools", "fixed_props.txt")
if os.path.exists(EXTRA):
    PROPS += open(EXTRA).read().split()
log = subprocess.run(
    ["git", "-C", "/repo", "log", "--format=%h %s", "--reverse",
     "--grep=^fix: "], capture_output=True, text=True, check=True
).stdout.splitlines()
assert len(log) == len(PROPS), (len(log), len(PROPS))
doc = json.load(open(PATH))
doc["fixed"] = [
    f"fixed: property={prop} {line.split(' ', 1)[0]} "
    + line.split("fix: ", 1)[1]
    for prop, line in zip(PROPS, log)
]
with open(PATH, "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(log), "fixes")
