"""seedcheck.py [ID...]: runs each planted bug's check against a scratch copy with the bug applied."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import V, S, fresh, run
for n in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
    d = "%s/seeded/%s" % (V, n); prop = json.load(open(d + "/meta.json"))["property"]; fresh()
    r = run(["git", "apply", d + "/patch.diff"], S)
    if r.returncode: print(n, "DOES NOT APPLY", r.stdout); continue
    r = run(["./check", prop, "quick"], V, t=900, env=dict(os.environ, WSS_REPO=S, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
    last = r.stdout.strip().splitlines()
    print(n, prop, {1: "CAUGHT", 0: "MISSED"}.get(r.returncode, "ERROR %d" % r.returncode), "|", (last[0] if last else "")[:150], "|", (last[-1] if last else "")[:100], flush=True)
run(["git", "checkout", "-q", "--", "."], S)
