"""check <property> [quick|thorough]: builds the harness from /repo, runs it, writes the evidence file."""
import json, os, subprocess, sys, time, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from checks import CHECKS

VERIF = build.VERIF

def findings():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = CHECKS[pid]
    t0 = time.time()
    known = [f for f in findings() if f["property"] == pid and f["status"] == "open"]
    total = float(os.environ.get("VERIF_SECS", ck.get("secs", 16) if tier == "quick" else ck.get("thorough_secs", 420)))
    wsum = float(sum(r.get("weight", 1) for r in ck["runs"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    parts, violation, errors, skipped = [], [], [], []
    for r in ck["runs"]:
        if r.get("needs") and not r["needs"]():
            skipped.append(r["variant"]); continue
        exe = r["build"]()
        fd, out = tempfile.mkstemp(prefix="pbt-out."); os.close(fd)
        cmd = [exe, r["check"], "--secs", "%.1f" % (total * r.get("weight", 1) / wsum), "--workers", str(r.get("workers", 8)), "--seed", str(seed),
               "--tier", tier, "--replay-dir", os.path.join(VERIF, "replay"), "--out", out, "--variant", r.get("variant", "")] + (["--property", r["as"]] if "as" in r else [])
        for k in known: cmd += ["--known", k["signature"]]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=VERIF)
        try: d = json.load(open(out))
        except Exception: d = None
        os.unlink(out)
        txt = p.stdout
        if p.returncode == 1 and "VIOLATION property=" in txt:
            violation.append(txt)
        elif p.returncode != 0:
            errors.append("%s exited with %d\n%s" % (" ".join(cmd), p.returncode, txt[-3000:]))
        elif txt.strip(): sys.stdout.write(txt)
        if d: parts.append(d)
        if violation or errors: break
    labels, samples, known_hits = {}, [], {}
    for d in parts:
        for k, v in d["labels"].items(): labels[k] = labels.get(k, 0) + v
        for k, v in d["known_hits"].items(): known_hits[k] = known_hits.get(k, 0) + v
        samples += [s for s in d["samples"] if s][:3]
    cov = {
        "evaluations": sum(d["evaluations"] for d in parts),
        "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in parts),
        "rule": "; ".join(dict.fromkeys(d["rule"] for d in parts)) or "none",
        "samples": samples[:12],
        "classes": labels,
        "runs": [{k: d[k] for k in ("check", "variant", "evaluations", "nontrivial", "distinct_nontrivial", "mutated_from_corpus", "corpus", "wall", "unconfirmed")} for d in parts],
    }
    if skipped: cov["skipped_variants"] = skipped
    if known_hits: cov["known_finding_hits"] = known_hits
    ev = {"property": pid, "tier": tier, "seed": seed, "level": ck.get("level", "exploration"), "coverage": cov,
          "assumptions": ck.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violation)}
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    for k in known: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for v in violation: print(v.rstrip())
    if errors and not violation:
        sys.stderr.write("\n".join(errors) + "\n"); sys.exit(2)
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s, %s" % (pid, tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, "VIOLATED" if violation else "held"))
    sys.exit(1 if violation else 0)

if __name__ == "__main__":
    main()
