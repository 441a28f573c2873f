"""mkbug.py ID PROPERTY FILE <<< json {old,new,needs,breaks,demo}: writes seeded/ID from an edit of /repo."""
import difflib
import json
import os
import subprocess
import sys

ident, prop, path = sys.argv[1:4]
spec = json.load(sys.stdin)
root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", ident)
full = os.path.join("/repo", path)
original = text = open(full).read()
for old, new in spec["edits"]:
    assert text.count(old) == 1, (text.count(old), old)
    text = text.replace(old, new)
diff = "".join(difflib.unified_diff(original.splitlines(True), text.splitlines(True), "a/" + path, "b/" + path))
base = subprocess.run(["git", "-C", "/repo", "show", "da1fc97:" + path], stdout=subprocess.PIPE, text=True).stdout
added = [x for x in diff.splitlines() if x.startswith("-") and not x.startswith("---")
         and x[1:].strip() and x[1:] not in base.splitlines()]
if added:
    print("not in the original repository:", added)
os.makedirs(root, exist_ok=True)
open(os.path.join(root, "patch.diff"), "w").write(diff)
json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
          open(os.path.join(root, "meta.json"), "w"), indent=1)
demo = os.path.join(root, "demo.sh")
open(demo, "w").write(spec["demo"])
os.chmod(demo, 0o755)
