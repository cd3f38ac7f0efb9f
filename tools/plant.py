"""plant.py BUG.py...: makes, confirms and stores planted bugs. BUG.py defines prop, needs, breaks, edits [(file, old, new)], demo (Python text using wsdemo) or demo_c / demo_sh."""
import json, os, shutil, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SCRATCH", "/tmp/seedrepo")
def run(cmd, cwd, t=300, **kw): return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **kw)
def scripts():
    os.makedirs(S + ".sh", exist_ok=True)
    for n in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + n).read().replace("cd /repo", "cd " + S).replace("/repo/_build", S + "/_build").replace("B=/repo", "B=" + S).replace("bash /opt/vp/build.sh", "bash %s.sh/build.sh" % S)
        open("%s.sh/%s" % (S, n), "w").write(t)
def fresh():
    if not os.path.isdir(S): run(["cp", "-a", "/repo", S], "/")
    run(["git", "checkout", "-q", "--", "."], S)
    if run(["git", "rev-parse", "HEAD"], S).stdout != run(["git", "rev-parse", "HEAD"], "/repo").stdout:
        run(["git", "fetch", "-q", "/repo", "HEAD"], S); run(["git", "reset", "-q", "--hard", "FETCH_HEAD"], S)
stable = json.load(open("/opt/vp/BASELINE.json"))
stable = stable.get("stable", stable.get("passed", stable)) if isinstance(stable, dict) else stable
def main():
    keep = "--keep" in sys.argv; nochk = "--nocheck" in sys.argv
    for bf in [a for a in sys.argv[1:] if not a.startswith("--")]:
        name = os.path.basename(bf)[:-3]; b = {}; exec(open(bf).read(), b)
        scripts(); fresh(); bad = False
        for f, old, new in b["edits"]:
            p = S + "/" + f; t = open(p).read()
            if t.count(old) != 1: print(name, "EDIT matches %d times in %s: %r" % (t.count(old), f, old[:80])); bad = True; break
            open(p, "w").write(t.replace(old, new))
        if bad: continue
        d = V + "/seeded/" + name; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(run(["git", "diff"], S).stdout)
        if "demo" in b:
            shutil.copy(V + "/tools/seedlib/wsdemo.py", d)
            open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom wsdemo import *\n" + b["demo"])
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
        elif "demo_c" in b:
            open(d + "/demo.c", "w").write(b["demo_c"])
            open(d + "/demo.sh", "w").write('#!/bin/bash\nt=$(mktemp -d) || exit 2\ntrap \'rm -rf "$t"\' EXIT\ngcc -O1 -g -std=gnu11 -w -march=x86-64-v3 -pthread %s -D_DEFAULT_SOURCE \'-DWSS_SERVER_VERSION="v2.0.0"\' \'-DFIPS_mode_set(x)=(0)\' -DUSE_OPENSSL -DNDEBUG %s -Iinclude -Isrc -Iextensions -Isubprotocols "$(dirname "$0")/demo.c" %s -o "$t/demo" -lm -ldl -lssl -lcrypto || exit 2\ntimeout 200 "$t/demo"\n'
                % (b.get("san", "-fsanitize=address"), b.get("cflags", ""), b.get("srcs", "$(ls src/*.c src/*/*.c 2>/dev/null | grep -v -e main.c -e rpmalloc)")))
        for n, t in b.get("files", {}).items(): open(d + "/" + n, "w").write(t)
        if "demo_sh" in b: open(d + "/demo.sh", "w").write(b["demo_sh"])
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = run(["bash", S + ".sh/test.sh", S + '.json'], "/")
        try: ok = set(json.load(open(S + '.json'))["passed"])
        except Exception: ok = set()
        miss = [t for t in stable if t not in ok]
        if miss: print(name, "TESTS FAIL:", miss[:5], r.stdout[-800:]); shutil.rmtree(d) if not keep else 0; continue
        try: rb = run(["bash", d + "/demo.sh"], S, t=300)
        except subprocess.TimeoutExpired: rb = None
        try: rg = [run(["bash", d + "/demo.sh"], "/repo", t=300) for _ in range(2)]
        except subprocess.TimeoutExpired: print(name, "DEMO HANGS on the good tree"); shutil.rmtree(d) if not keep else 0; continue
        if any(x.returncode for x in rg): print(name, "DEMO FAILS on good tree", rg[0].stdout[-1500:], rg[1].stdout[-500:]); shutil.rmtree(d) if not keep else 0; continue
        if rb and rb.returncode == 0: print(name, "DEMO PASSES on bad tree", rb.stdout[-1500:]); shutil.rmtree(d) if not keep else 0; continue
        print(name, "confirmed:", (rb.stdout.strip().splitlines() or ["(no output)"])[-1][:200] if rb else "hangs")
        if nochk: continue
        r = run(["./check", b["prop"], "quick"], V, t=900, env=dict(os.environ, WSS_REPO=S, VERIF_SEED="1"))
        print("   ", b["prop"], "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR %d %s" % (r.returncode, r.stdout[-1500:]), "|", r.stdout.strip().splitlines()[0][:200] if r.stdout.strip() else "")
    run(["git", "checkout", "-q", "--", "."], S)
if __name__ == "__main__": main()
