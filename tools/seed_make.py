#!/usr/bin/env python3
"""seed_make.py ID PROPERTY [features]: takes the working-tree diff of /tmp/sw and /tmp/demo.rs, with
needs/breaks text on stdin (two lines), and stores /verif/seeded/ID; then restores /tmp/sw."""
import sys, subprocess, os, json, shutil
sid, prop = sys.argv[1:3]
feats = sys.argv[3] if len(sys.argv) > 3 else ""
needs, breaks = [l for l in sys.stdin.read().splitlines() if l.strip()][:2]
d = os.path.join("/verif/seeded", sid)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/tmp/sw", "diff"], stdout=subprocess.PIPE, text=True).stdout
assert diff.strip(), "no change"
open(d + "/patch.diff", "w").write(diff)
t = open("/verif/tools/demo_template.sh").read().replace("FEATURES", ', features = [%s]' % ", ".join('"%s"' % f for f in feats.split(",")) if feats else "")
open(d + "/demo.sh", "w").write(t)
os.chmod(d + "/demo.sh", 0o755)
shutil.copy("/tmp/demo.rs", d + "/demo.rs")
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
subprocess.run(["git", "-C", "/tmp/sw", "checkout", "-q", "--", "."])
print("stored", d)
