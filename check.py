#!/usr/bin/env python3
"""Runs one property check: builds the simulator from /repo's working tree, searches seeds in parallel, gates, minimises
and reports violations, and writes evidence/<id>.json.

usage: check.py ID [--tier quick|thorough] [--seed N] [--runs N] [--build-only]
       check.py --replay FILE            re-executes a replay file (fresh process) and prints what it shows
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
CFG = json.load(open(os.path.join(HERE, "checks.json")))
NPROC = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))
T0 = time.time()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


# ------------------------------------------------------------------ build
def tree_hash():
    h = hashlib.sha256()
    for base in (REPO, os.path.join(HERE, "sim"), os.path.join(HERE, "matrix")):
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "test", "build", "evidence", "seeded", "replays"))
            for f in sorted(files):
                if f.endswith((".cpp", ".h", ".hpp", "Makefile")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def build(san):
    out = os.path.join(BUILD, "san" if san else "rel")
    os.makedirs(out, exist_ok=True)
    stamp, want = os.path.join(out, "stamp"), tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    exe = os.path.join(out, "simcheck")
    if have == want and os.path.exists(exe):
        return exe
    # never trust time stamps alone: objects whose sources changed are found by make through them, everything else by
    # rebuilding when the content hash moved in a way make did not notice
    if os.path.exists(stamp):
        os.remove(stamp)
    cmd = ["make", "-s", "-j%d" % NPROC, "-C", os.path.join(HERE, "sim"), "REPO=" + REPO, "OUT=" + out, "SAN=%d" % (1 if san else 0)]
    if have and have != want:
        cmd.append("-B")
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-4000:])
        die("build failed")
    with open(stamp, "w") as f:
        f.write(want)
    return exe


# ------------------------------------------------------------------ execution
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=4096",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1")
stop = threading.Event()


def run_chunk(exe, cid, base, start, count, thorough, budget, only=None):
    cmd = [exe, "run", cid, str(base), str(start), str(count), "1" if thorough else "0", "%.1f" % budget]
    if only is not None:
        cmd.append(str(only))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
    o, e = p.communicate()
    return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")


class Agg:
    def __init__(self):
        self.runs = self.nontriv = 0
        self.sim = self.cpu = 0.0
        self.faults, self.ops, self.cnt = {}, {}, {}
        self.states = set()
        self.viol = []      # (seed, kind, text)
        self.nondet = []
        self.hash = {}
        self.crash = []

    def add(self, rc, o, e):
        last = None
        ended = False
        for line in o.splitlines():
            if not line.startswith("@@"):
                continue
            t = line.split(" ")
            k = t[0]
            if k == "@@RUN":
                last = int(t[1])
            elif k == "@@DONE":
                self.hash[int(t[1])] = t[2]
                last = None
            elif k == "@@VIOL":
                kind, text = line.split(" ", 2)[2].split(" | ", 1)
                self.viol.append((int(t[1]), kind, text))
            elif k == "@@NONDET":
                self.nondet.append(line)
            elif k == "@@SUM":
                self.runs += int(t[2]); self.nontriv += int(t[4]); self.sim += float(t[6]); self.cpu += float(t[8])
            elif k == "@@FAULT":
                self.faults[t[1]] = self.faults.get(t[1], 0) + int(t[2])
            elif k == "@@OP":
                self.ops[t[1]] = self.ops.get(t[1], 0) + int(t[2])
            elif k == "@@CNT":
                self.cnt[t[1]] = self.cnt.get(t[1], 0) + int(t[2])
            elif k == "@@ST":
                self.states.add(t[1])
            elif k == "@@END":
                ended = True
        if not ended:
            if last is None:
                die("simulator ended without a summary and outside a run (rc %d): %s" % (rc, e[-1500:]))
            why = "hang" if rc in (-14, 142) else "crash"
            m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: .*|Assertion .*failed.*|terminate called.*)", e)
            loc = re.search(r"#\d+ .* in (\S+) (\S+/repo/\S+|/repo/\S+)", e)
            text = (m.group(1) if m else "signal %d" % -rc) + (" at " + loc.group(2) if loc else "")
            self.crash.append((last, why, text))


def replay(exe, f, limit=400):
    try:
        p = subprocess.run([exe, "replay", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=limit)
    except subprocess.TimeoutExpired:
        return {"hang"}, "hang", ""
    o = p.stdout.decode("utf-8", "replace")
    kinds, hsh, texts = set(), None, []
    for line in o.splitlines():
        if line.startswith("@@VIOL"):
            kind, text = line.split(" ", 2)[2].split(" | ", 1)
            kinds.add(kind)
            texts.append("%s: %s" % (kind, text))
        elif line.startswith("@@DONE"):
            hsh = line.split(" ")[2]
    if "@@END" not in o:
        why = "hang" if p.returncode in (-14, 142) else "crash"
        kinds.add(why)
        hsh = why
        e = p.stderr.decode("utf-8", "replace")
        m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: .*|Assertion .*failed.*)", e)
        texts.append(why + ": " + (m.group(1) if m else "signal %d" % -p.returncode))
    return kinds, hsh, "\n".join(texts)


def load_known(cid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=/(.*)/ (.*)$", line)
            if m and m.group(1) == cid:
                out.append({"kind": m.group(2), "re": re.compile(m.group(3)), "what": m.group(4), "seen": 0})
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    if a.build_only:
        for s in (0, 1):
            build(s)
        return 0
    if a.replay:
        cid = open(a.replay).readline().split()[1]
        exe = build(CFG["checks"][cid].get("san", 0))
        k, h, t = replay(exe, a.replay)
        print(t or "no violation")
        print("trace hash", h)
        return 1 if k else 0
    cid = a.id
    c = CFG["checks"][cid]
    thorough = a.tier == "thorough"
    exe = build(c.get("san", 0))
    tb = time.time() - T0
    runs = a.runs or (c["thorough"] if thorough else c["quick"])
    budget = float(c.get("budget_thorough" if thorough else "budget_quick", 600 if thorough else 300))
    chunk = max(1, min(c.get("chunk", 16), (runs + NPROC - 1) // NPROC))
    jobs = [(s, min(chunk, runs - s)) for s in range(0, runs, chunk)]
    agg, lock = Agg(), threading.Lock()
    known = load_known(cid)

    def is_known(v):
        return any(k["kind"] == v[1] and k["re"].search(v[2]) for k in known)

    tstart = time.time()

    def work(j):
        left = budget - (time.time() - tstart)
        if left <= 0.5 or stop.is_set():
            return
        r = run_chunk(exe, cid, a.seed, j[0], j[1], thorough, left)
        with lock:
            agg.add(*r)
            if len({v[0] for v in agg.viol if not is_known(v)}) > 24 or len(agg.crash) > 8:
                stop.set()

    with cf.ThreadPoolExecutor(NPROC) as ex:
        for f in [ex.submit(work, j) for j in jobs]:
            f.result()
    tsearch = time.time() - tstart

    fresh, seen_known = [], {}
    for v in agg.viol + agg.crash:
        for k in known:
            if k["kind"] == v[1] and k["re"].search(v[2]):
                k["seen"] += 1
                break
        else:
            fresh.append(v)

    # determinism gate: the same seeds again, one at a time in fresh processes
    gate = {"in_process_repeats_ok": not agg.nondet, "fresh_process_seeds": 0, "mismatches": []}
    sample = sorted(agg.hash)[:: max(1, len(agg.hash) // 6)][:6]
    for sd in sample:
        rc, o, e = run_chunk(exe, cid, a.seed, 1, 1, thorough, 300, sd)
        m = re.search(r"@@DONE %d (\S+)" % sd, o)
        gate["fresh_process_seeds"] += 1
        if not m or m.group(1) != agg.hash[sd]:
            gate["mismatches"].append(sd)

    reported, unrepro = [], []
    by_kind = {}
    for v in sorted(fresh):
        by_kind.setdefault(v[1], []).append(v)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    tmin = time.time()
    for kind, vs in sorted(by_kind.items(), key=lambda kv: -len(kv[1])):
        if len(reported) >= 3 or time.time() - T0 > 700:
            break
        done = False
        for seed, _, text in vs[:4]:
            raw = os.path.join(HERE, "replays", "%s-%s-%d.raw" % (cid, re.sub(r"\W", "_", kind), seed))
            g = subprocess.run([exe, "gen", cid, str(seed), "1" if thorough else "0"], stdout=subprocess.PIPE, env=ENV)
            with open(raw, "wb") as f:
                f.write(g.stdout)
            rs = [replay(exe, raw) for _ in range(2)]
            if not all(kind in r[0] for r in rs):
                unrepro.append((kind, seed, text, raw))
                continue
            exact = rs[0][1] == rs[1][1] and (kind in ("crash", "hang") or agg.hash.get(seed) in (None, rs[0][1]))
            out = raw[:-4] + ".scn"
            mb = max(5.0, min(60.0, 780 - (time.time() - T0)))
            subprocess.run([exe, "min", raw, out, kind, "%.0f" % mb], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
            final = raw
            if os.path.exists(out):
                m = [replay(exe, out) for _ in range(2)]
                if all(kind in r[0] for r in m) and m[0][1] == m[1][1]:
                    final = out
                    rs = m
            reported.append((kind, seed, rs[0][2] or text, final, exact, len(vs)))
            done = True
            break
        if not done and vs:
            pass

    wall = time.time() - T0
    rule = subprocess.run([exe, "rule", cid], stdout=subprocess.PIPE, text=True).stdout.strip()
    h = max(1e-9, tsearch) / 3600
    samples = []
    for sd in sorted(agg.hash)[:2]:
        g = subprocess.run([exe, "gen", cid, str(sd), "1" if thorough else "0"], stdout=subprocess.PIPE, text=True, env=ENV).stdout
        samples.append({"seed": sd, "trace_hash": agg.hash[sd], "scenario": g.splitlines()})
    ev = {
        "property": cid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": c["level"],
        "coverage": {
            "evaluations": agg.runs, "distinct_nontrivial": min(agg.nontriv, len(set(agg.hash.values()))), "rule": rule, "samples": samples,
            "runs_per_hour": round(agg.runs / h), "seeds_per_hour": round(len(agg.hash) / h),
            "simulated_seconds": round(agg.sim, 1), "simulated_over_wall": round(agg.sim / max(1e-9, tsearch), 1),
            "faults_injected": agg.faults, "operations_issued": agg.ops, "reach_counters": agg.cnt,
            "distinct_states": len(agg.states),
            "distinct_states_measure": "distinct (control mode flags, innovation failure flags, validity flags) vectors seen after a fusion step",
            "distinct_executions": len(set(agg.hash.values())),
            "determinism_gate": gate,
            "real_components": c.get("real", CFG["real"]), "stub_components": CFG["stub"] + c.get("stub", []),
            "sanitizers": "address,undefined" if c.get("san") else "none", "build_s": round(tb, 1), "search_s": round(tsearch, 1), "workers": NPROC,
        },
        "assumptions": CFG["assumptions"] + c.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len({(v[0], v[1]) for v in fresh}),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    print("%s %s: %d runs (%d nontrivial), %.0f simulated s in %.1f s, %d distinct states, build %.1f s" % (
        cid, a.tier, agg.runs, agg.nontriv, agg.sim, tsearch, len(agg.states), tb))
    for k in known:
        if k["seen"]:
            print("KNOWN-FINDING: property=%s %s (%d runs)" % (cid, k["what"], k["seen"]))
    for kind, seed, text, path, exact, n in reported:
        print("  %s seed=%d (%d seeds)%s\n    %s" % (kind, seed, n, "" if exact else " [trace hash differs between replays]", text.replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (cid, path))
    if not reported and unrepro:
        # the simulator owns every input, so what does not repeat comes from the code itself (uninitialised memory);
        # the scenario is reported as it is
        for kind, seed, text, raw in unrepro[:2]:
            print("  %s seed=%d [does not repeat exactly: the code under test depends on something outside its inputs]\n    %s" % (kind, seed, text))
            print("VIOLATION property=%s replay=%s" % (cid, raw))
        return 1
    if reported:
        return 1
    if cid == "P03" and (agg.nondet or gate["mismatches"]):
        sd = gate["mismatches"][0] if gate["mismatches"] else int(agg.nondet[0].split()[1])
        raw = os.path.join(HERE, "replays", "P03-nondeterministic-%d.raw" % sd)
        with open(raw, "wb") as f:
            f.write(subprocess.run([exe, "gen", cid, str(sd), "1" if thorough else "0"], stdout=subprocess.PIPE, env=ENV).stdout)
        print("  nondeterministic seed=%d: executing the same scenario again gives a different trace" % sd)
        print("VIOLATION property=P03 replay=%s" % raw)
        return 1
    if fresh:
        die("violations left unreported: %r" % (fresh[:2],))
    if agg.nondet or gate["mismatches"]:
        die("determinism gate failed: %s %s" % (agg.nondet[:2], gate["mismatches"]))
    if agg.runs == 0 or agg.nontriv == 0:
        die("nothing was explored")
    for name in c.get("require", []):
        if agg.cnt.get(name, 0) == 0:
            log("note: reach counter %s stayed at zero" % name)
    return 0


sys.exit(main())
