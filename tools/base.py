"""Run the repository's tests (cwd irrelevant) and compare with the stable list."""
import json, subprocess, sys, tempfile, os
out = tempfile.mktemp(suffix=".json")
subprocess.run(["bash", "/opt/vp/test.sh", out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(out)); os.unlink(out)
bad = sorted(set(b["stable"]) - set(o["passed"]))
print("stable broken:", len(bad), bad[:5])
sys.exit(bool(bad))
