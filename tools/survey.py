#!/usr/bin/env python3
"""Development aid: run a property for a while and list every kind of violation seen.  survey.py PROP SECS [SEED] [TIER]"""
import sys, os, json, subprocess, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
pid, secs = sys.argv[1], sys.argv[2]
seed = sys.argv[3] if len(sys.argv) > 3 else "1"
tier = sys.argv[4] if len(sys.argv) > 4 else "0"
exe, _ = check.build(check.PROPS[pid]["harness"])
ps = [subprocess.Popen([exe, "batch", pid, seed, str(i), "8", str(10**9), secs, tier], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for i in range(8)]
seen, runs, ctr = {}, 0, {}
for p in ps:
    for ln in p.stdout:
        if ln.startswith("V "):
            v = json.loads(ln[2:])
            k = (v["class"], re.sub(r"[-\d.]+", "#", v["detail"]))
            n, s = seen.get(k, (0, None))
            if s is None or len(v["plan"]) < len(s["plan"]):
                s = v
            seen[k] = (n + 1, s)
        elif ln.startswith("A "):
            a = json.loads(ln[2:]); runs += a["runs"]
            for q, (n, w) in a["ctr"].items():
                c = ctr.setdefault(q, [0, 0]); c[0] += n; c[1] += w
print(pid, "runs", runs, {k: v for k, v in sorted(ctr.items())})
for k, (n, s) in sorted(seen.items(), key=lambda x: -x[1][0]):
    print("%6d %s | %s | idx %s" % (n, k[0], s["detail"][:400], s["idx"]))
    if os.environ.get("PLANS"):
        print(s["plan"])
