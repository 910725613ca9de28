#!/usr/bin/env python3
"""Seeded deterministic-simulation checks.   check.py run PROP | replay FILE | build [HARNESS...] | props"""
import sys, os, json, hashlib, subprocess, time, re, shutil, threading, queue, signal, tempfile

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
from catalog import HARNESSES, PROPS, COMPONENTS   # noqa: E402
BUILD = os.path.join(V, "build")
NCPU = int(os.environ.get("VERIF_JOBS", "8"))
RED = ["--redefine-sym", "memcpy=__wrap_memcpy", "--redefine-sym", "memmove=__wrap_memmove",
       "--redefine-sym", "memset=__wrap_memset", "--redefine-sym", "memcmp=__wrap_memcmp"]
INC = ["libdiskpp/include", "libdiskpp/contrib", "libdiskpp/contrib/triangle", "libdiskpp/contrib/jburkardt/include",
       "contrib/sgr", "contrib/sgr/include", "libdiskpp/contrib/solver_wrappers"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def die(msg, code=3):
    log("ERROR:", msg)
    sys.exit(code)


# ------------------------------------------------------------------ build
def tree_key(h):
    m = hashlib.sha256()
    m.update(json.dumps(h, sort_keys=True).encode())
    roots = [os.path.join(V, "sim"), os.path.join(V, "harness"), os.path.join(V, "stubs")] + [os.path.join(R, d) for d in ("libdiskpp/include", "libdiskpp/src", "libdiskpp/contrib", "contrib/sgr")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith((".h", ".hpp", ".c", ".cpp", ".cc", ".hh", ".inc", ".txt")) and "." in f:
                    continue
                p = os.path.join(d, f)
                try:
                    b = open(p, "rb").read()
                except OSError:
                    continue
                m.update(os.path.relpath(p, r).encode() + b"\0" + hashlib.sha256(b).digest())
    return m.hexdigest()[:24]


def build(name):
    h = HARNESSES[name]
    key = tree_key(h)
    out = os.path.join(BUILD, name + "-" + key)
    exe = os.path.join(out, name)
    if os.path.exists(exe):
        return exe, key
    os.makedirs(BUILD, exist_ok=True)
    for d in os.listdir(BUILD):          # one build per harness is kept
        if d.startswith(name + "-"):
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-" + name + "-", dir=BUILD)
    inc = ["-I" + os.path.join(V, "stubs"), "-I" + os.path.join(V, "sim"), "-I" + os.path.join(V, "harness")] + ["-I" + os.path.join(R, i) for i in INC] + ["-I/usr/include/eigen3"]
    jobs = []
    for i, tu in enumerate(h["tus"]):
        src, extra = (tu, []) if isinstance(tu, str) else (tu[0], list(tu[1:]))
        src = os.path.join(V, "harness", src)
        jobs.append((src, ["g++", "-std=gnu++20", *h["flags"], *extra, "-w", *inc, "-c", src, "-o", os.path.join(tmp, "t%d.o" % i)], os.path.join(tmp, "t%d.o" % i), h.get("instrument", True)))
    for i, s in enumerate(h.get("repo_srcs", [])):
        src = os.path.join(R, s)
        cc = ["gcc"] if s.endswith(".c") else ["g++", "-std=gnu++20"]
        jobs.append((src, [*cc, *h.get("src_flags", h["flags"]), "-w", *inc, "-c", src, "-o", os.path.join(tmp, "s%d.o" % i)], os.path.join(tmp, "s%d.o" % i), h.get("instrument", True)))
    jobs.append((os.path.join(V, "sim/rt.cpp"), ["g++", "-std=gnu++20", "-O2", "-g", "-w", "-c", os.path.join(V, "sim/rt.cpp"), "-o", os.path.join(tmp, "rt.o")], os.path.join(tmp, "rt.o"), False))
    t0 = time.time()
    ps = []
    occ = ["python3", os.path.join(V, "tools/occ.py"), os.environ["VERIF_OBJCACHE"]] if os.environ.get("VERIF_OBJCACHE") else []
    for src, cmd, o, ins in jobs:
        cmd = occ + cmd
        ps.append((src, o, ins, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for src, o, ins, p in ps:
        txt, _ = p.communicate()
        if p.returncode:
            shutil.rmtree(tmp, ignore_errors=True)
            die("cannot compile %s:\n%s" % (src, txt[-4000:]), 2)
        if ins:
            subprocess.check_call(["objcopy", *RED, o])
    objs = [o for _, _, o, _ in jobs]
    p = subprocess.run(["g++", *objs, "-rdynamic", "-Wl,-z,muldefs", *h.get("libs", []), "-ldl", "-pthread", "-o", os.path.join(tmp, name)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        die("cannot link %s:\n%s" % (name, p.stdout[-4000:]), 2)
    for o in objs:
        os.remove(o)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    log("built %s in %.1f s" % (name, time.time() - t0))
    return exe, key


# ------------------------------------------------------------------ plans
def lines_of(text):
    return [l for l in text.split("\n") if l.strip() and not l.startswith("#")]


class Runner:
    def __init__(self, exe, prop):
        self.exe, self.prop, self.n = exe, prop, 0
        self.dir = tempfile.mkdtemp(prefix="simrun-")

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, lines):
        self.n += 1
        f = os.path.join(self.dir, "p%d" % threading.get_ident())
        with open(f, "w") as o:
            o.write("\n".join(lines) + "\n")
        p = subprocess.run([self.exe, "exec", self.prop, f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        try:
            return json.loads(p.stdout.strip().split("\n")[-1])
        except Exception:
            return {"status": "ERR", "class": "no-output", "detail": p.stdout[-300:], "hash": "0"}

    def many(self, plans):
        res = [None] * len(plans)
        it = iter(range(len(plans)))
        lock = threading.Lock()

        def w():
            while True:
                with lock:
                    i = next(it, None)
                if i is None:
                    return
                res[i] = self.run(plans[i])
        ts = [threading.Thread(target=w) for _ in range(min(NCPU, len(plans)))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return res


def minimise(rn, plan, cls, budget):
    """ddmin over lines, then numbers towards zero; same violation class throughout"""
    t_end = time.time() + budget
    ok = lambda v: v["status"] == "V" and v["class"] == cls
    cur = list(plan)
    fixed = lambda l: l.startswith("cfg ")
    n = 2
    while time.time() < t_end:                       # 1. drop chunks of lines
        mov = [i for i, l in enumerate(cur) if not fixed(l)]
        if not mov:
            break
        n = min(n, len(mov))
        chunks = [mov[i * len(mov) // n:(i + 1) * len(mov) // n] for i in range(n)]
        cands = [[l for i, l in enumerate(cur) if i not in set(c)] for c in chunks if c]
        if n == 1:
            cands = [[l for l in cur if fixed(l)]]
        rs = rn.many(cands)
        hit = next((i for i, v in enumerate(rs) if ok(v)), None)
        if hit is not None:
            cur = cands[hit]
            n = max(2, n - 1)
        else:
            if n >= len(mov):
                break
            n = min(len(mov), n * 2)
    changed = True
    while changed and time.time() < t_end:           # 2. shrink numbers
        changed = False
        for i in range(len(cur)):
            if time.time() > t_end:
                break
            w = cur[i].split()
            if w[0] == "cfg":
                continue
            for k in range(1, len(w)):
                if not re.fullmatch(r"\d+", w[k]) or int(w[k]) == 0:
                    continue
                v = int(w[k])
                alts = sorted({0, 1, v // 2, v - 1} - {v})
                cands = [cur[:i] + [" ".join(w[:k] + [str(a)] + w[k + 1:])] + cur[i + 1:] for a in alts]
                rs = rn.many(cands)
                hit = next((j for j, r in enumerate(rs) if ok(r)), None)
                if hit is not None:
                    cur = cands[hit]
                    w = cur[i].split()
                    changed = True
                if time.time() > t_end:
                    break
    return cur


def known_findings():
    r = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/ (.*)$", l)
            if m:
                r.append(m.groups())
    return r


# ------------------------------------------------------------------ run one check
def run_check(pid):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 3:
        tier = sys.argv[3]
    P = PROPS[pid]
    exe, key = build(P["harness"])
    t_built = time.time()
    secs = float(os.environ.get("VERIF_SECS", P.get("quick_s", 25) if tier == "quick" else P.get("thorough_s", 480)))
    maxruns = 10 ** 9
    tn = 0 if tier == "quick" else 1
    rn = Runner(exe, pid)
    known = [k for k in known_findings() if k[0] == pid]
    H, S, A, viol, errs = {}, [], [], [], []
    lock = threading.Lock()
    first = [None]
    procs = []
    knownhit = {}

    def is_known(v):
        for k in known:
            if k[1] == v["class"] and re.search(k[2], v["detail"]):
                return k
        return None

    def reader(p):
        for ln in p.stdout:
            with lock:
                if ln.startswith("H "):
                    _, i, h = ln.split()
                    H[int(i)] = h
                elif ln.startswith("S "):
                    S.append(ln[2:].strip().replace("\\n", "\n"))
                elif ln.startswith("A "):
                    A.append(json.loads(ln[2:]))
                elif ln.startswith("V "):
                    v = json.loads(ln[2:])
                    k = is_known(v)
                    if k:
                        knownhit[k] = knownhit.get(k, 0) + 1
                    else:
                        viol.append(v)
                        if first[0] is None:
                            first[0] = time.time()
        p.wait()
    ths = []
    for i in range(NCPU):
        p = subprocess.Popen([exe, "batch", pid, str(seed), str(i), str(NCPU), str(maxruns), str(secs), str(tn)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
        procs.append(p)
        t = threading.Thread(target=reader, args=(p,))
        t.start()
        ths.append(t)
    killed = False
    while any(t.is_alive() for t in ths):
        time.sleep(0.05)
        now = time.time()
        if (first[0] and now - first[0] > 6) or now - t_built > secs + 120:
            killed = True
            for p in procs:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
    [t.join() for t in ths]
    t_explored = time.time()
    # determinism: the same indices, other processes, another partition; the complete event logs must agree
    det_n = det_bad = 0
    idxs = sorted(H)
    contiguous = []
    for i in idxs:
        if i == len(contiguous):
            contiguous.append(i)
    if contiguous and not viol:
        per = max(1, len(contiguous) // NCPU)
        jobs = []
        for a in range(0, len(contiguous), per):
            jobs.append(subprocess.Popen([exe, "hashes", pid, str(seed), str(a), str(min(per, len(contiguous) - a)), str(tn)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
        for j in jobs:
            o, _ = j.communicate()
            for ln in o.split("\n"):
                w = ln.split()
                if len(w) >= 2:
                    det_n += 1
                    if H.get(int(w[0])) != w[1]:
                        det_bad += 1
                        log("nondeterminism: index", w[0], H.get(int(w[0])), w[1])
    # confirm and minimise violations
    confirmed = []
    classes = {}
    for v in viol:
        classes.setdefault(v["class"], []).append(v)
    for cls, vs in classes.items():
        vs = sorted(vs, key=lambda v: len(v["plan"]))
        done = False
        for v in vs[:4]:
            plan = lines_of(v["plan"])
            r1, r2 = rn.many([plan, plan])
            if cls.startswith("harness:"):
                errs.append("%s (%s) plan:\n%s" % (cls, v["detail"], v["plan"]))
                break
            if not (r1["status"] == r2["status"] == "V" and r1["class"] == r2["class"] == cls and r1["hash"] == r2["hash"]):
                errs.append("violation %s of index %s does not replay: %s / %s" % (cls, v["idx"], r1, r2))
                continue
            small = minimise(rn, plan, cls, float(os.environ.get("VERIF_MINIMISE_S", "25")))
            r3, r4 = rn.many([small, small])
            if not (r3["status"] == r4["status"] == "V" and r3["class"] == r4["class"] == cls and r3["hash"] == r4["hash"]):
                small, r3 = plan, r1
            if is_known(r3):
                small, r3 = plan, r1
            rd = os.path.join(V, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s-%s.plan" % (pid, re.sub(r"\W+", "_", cls), hashlib.sha1("\n".join(small).encode()).hexdigest()[:10]))
            with open(path, "w") as o:
                o.write("# property %s\n# class %s\n# detail %s\n# hash %s\n# seed %d index %s tier %s build %s\n# minimised from %d to %d lines\n" % (pid, cls, r3["detail"], r3["hash"], seed, v["idx"], tier, key, len(plan), len(small)))
                o.write("\n".join(small) + "\n")
            confirmed.append((cls, r3["detail"], path, v["idx"]))
            done = True
            break
        if len(confirmed) >= 3:
            break
    rn.close()
    # evidence
    ctr, sigs, hl = {}, set(), set()
    seeds = runs = steps = simns = 0
    maxsteps = 0
    for a in A:
        seeds += a["seeds"]; runs += a["runs"]; steps += a["steps"]; simns += a["simns"]
        maxsteps = max(maxsteps, a["maxsteps"])
        sigs.update(a["sigs"]); hl.update(a["hl"])
        for k, (n, w) in a["ctr"].items():
            c = ctr.setdefault(k, [0, 0]); c[0] += n; c[1] += w
    expl = max(1e-6, t_explored - t_built)
    faults = {k[6:]: {"fired": c[0], "runs": c[1]} for k, c in sorted(ctr.items()) if k.startswith("fault:")}
    probes = {k[6:]: {"count": c[0], "runs": c[1]} for k, c in sorted(ctr.items()) if k.startswith("probe:")}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hl),
            "rule": "Every seed index generates one plan (workload, then faults and preemptions placed inside the events a fault-free dry run of that plan showed) and executes it in its own process; evaluations counts executed runs, dry runs included. A final run is non-trivial when a fault or preemption fired in it, threads were switched, or a comparison with the reference model or an oracle probe was reached, and distinct when its complete event log (every system call, fault, switch and observed result) hashes differently from that of all others. " + P.get("rule", ""),
            "samples": S[:4],
            "seeds": seeds, "seeds_per_hour": int(seeds / expl * 3600), "runs_per_hour": int(runs / expl * 3600),
            "exploration_s": round(expl, 1), "build_s": round(t_built - t0, 1),
            "simulated_time_s": round(simns * 1e-9, 3), "instrumented_steps": steps, "max_steps_in_a_run": maxsteps,
            "faults_injected": faults, "reach_probes": probes,
            "distinct_behaviours": len(sigs),
            "distinct_behaviours_measure": "hash over the sequence of operation outcomes and fired fault kinds of a run (payload values left out)",
            "determinism": {"indices_rerun_in_other_processes": det_n, "event_log_mismatches": det_bad},
            "known_findings_hit": {k[3]: n for k, n in knownhit.items()},
            "stopped_early": killed,
            "components": COMPONENTS[P["harness"]],
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    for cls, det, path, idx in confirmed:
        print("%s: %s (seed %d, index %s)" % (cls, det, seed, idx))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    log("%s: %d seeds, %d runs, %d distinct, %d behaviours, %.1f s, %d violation(s)" % (pid, seeds, runs, len(hl), len(sigs), time.time() - t0, len(confirmed)))
    if confirmed:
        for e in errs:
            log("note:", e)
        sys.exit(1)
    if errs:
        die("\n".join(errs))
    if det_bad:
        die("event logs differ between two executions of the same seed")
    if not A:
        die("no worker finished")
    sys.exit(0)


def replay(path):
    txt = open(path).read()
    pid = re.search(r"# property (\S+)", txt).group(1)
    cls = re.search(r"# class (\S+)", txt).group(1)
    h = re.search(r"# hash (\S+)", txt).group(1)
    exe, _ = build(PROPS[pid]["harness"])
    rn = Runner(exe, pid)
    v = rn.run(lines_of(txt))
    rn.close()
    print(json.dumps(v))
    if v["status"] == "V":
        print("exact" if (v["class"] == cls and v["hash"] == h) else "violates, but not with the recorded event log")
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    c = sys.argv[1] if len(sys.argv) > 1 else ""
    if c == "run":
        run_check(sys.argv[2])
    elif c == "replay":
        replay(sys.argv[2])
    elif c == "build":
        for n in sys.argv[2:] or HARNESSES:
            build(n)
    elif c == "props":
        print(" ".join(PROPS))
    else:
        print(__doc__)
        sys.exit(3)
