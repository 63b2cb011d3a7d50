#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property by symbolic execution of /repo's current source: builds
the engine and the harness IR (both from the current working trees), runs every
entry of the property under khsym, replays every counterexample natively, and
writes evidence/<property>.json.
Exit 0: held on everything explored.  1: VIOLATION (replayed natively).
2: no answer (build failure, vacuous run, counterexample that does not replay).
"""
import argparse, concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, "build")
sys.path.insert(0, V)
from props import PROPS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            h.update(b"<gone>")
        h.update(b"\1")
    return h.hexdigest()

def tree(d):
    r = []
    for root, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        r += [os.path.join(root, f) for f in fs]
    return r

def repo_sources():
    r = [os.path.join(REPO, "Cargo.lock"), os.path.join(REPO, "Cargo.toml")]
    for d in ("crates", "rustme", "xtask"):
        if os.path.isdir(os.path.join(REPO, d)):
            r += [f for f in tree(os.path.join(REPO, d)) if not f.endswith((".md", ".html"))]
    return r

class Locked:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, name + ".lock"), "w")
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def stamped(name, key, outputs, cmd):
    """runs cmd unless `name` was built from the same inputs; returns the seconds it took"""
    with Locked(name):
        st = os.path.join(B, name + ".stamp")
        if all(os.path.exists(o) for o in outputs) and os.path.exists(st) and open(st).read() == key:
            return 0.0
        if os.path.exists(st):
            os.unlink(st)
        t = time.time()
        p = sh(cmd)
        if p.returncode:
            sys.stdout.write(p.stdout[-6000:])
            raise SystemExit("build of %s failed" % name)
        open(st, "w").write(key)
        return time.time() - t

def build(harness):
    eng = tree(os.path.join(V, "engine"))
    ek = hash_files(eng)
    hk = hash_files(repo_sources() + tree(os.path.join(V, "harness", harness)) + [os.path.join(V, "harness", "kh.rs"), os.path.join(V, "irbuild.sh")])
    khsym, runner = os.path.join(B, "khsym"), os.path.join(B, "runner")
    bc, so = os.path.join(B, harness + ".bc"), os.path.join(B, "lib%s.so" % harness)
    with concurrent.futures.ThreadPoolExecutor() as ex:
        jobs = [
            ex.submit(stamped, "khsym", ek, [khsym], ["bash", os.path.join(V, "engine/build.sh"), khsym]),
            ex.submit(stamped, "runner", ek, [runner], ["gcc", "-O1", "-w", "-rdynamic", os.path.join(V, "engine/runner.c"), "-o", runner, "-ldl", "-lpthread"]),
            ex.submit(stamped, harness, hk, [bc, so], ["bash", os.path.join(V, "irbuild.sh"), harness, B]),
        ]
        times = [j.result() for j in jobs]
    return khsym, runner, bc, so, hk, sum(times)

def build_points(bc, so):
    """the harness with the scheduler's decision points, for entries that explore schedules"""
    src = os.path.join(V, "engine", "points.cpp")
    tool, out = os.path.join(B, "points"), so[:-3] + ".points.so"
    stamped("points", hash_files([src]), [tool], ["bash", "-c", "g++ -O1 -w $(llvm-config-18 --cxxflags) -fexceptions %s -o %s $(llvm-config-18 --ldflags --libs core irreader bitwriter support)" % (src, tool)])
    pbc, po = out[:-3] + ".bc", out[:-3] + ".o"
    stamped(os.path.basename(out), hash_files([bc, src]), [out], ["bash", "-c", "set -e; %s %s %s; clang -c -O1 -w -Xclang -disable-llvm-passes -fPIC %s -o %s; clang -shared -o %s %s -lgcc_s -lm -lpthread -ldl -lc; rm -f %s %s" % (tool, bc, pbc, pbc, po, out, po, pbc, po)])
    return out

def native(runner, so, entry, params, inputs, known, path=None, alarm=30):
    """replays recorded inputs against the natively compiled code; (exit, output)"""
    txt = "# entry %s\n" % entry
    for k, v in params.items():
        txt += "param %s %s\n" % (k, v)
    for k in known:
        txt += "known %s\n" % k
    for i in inputs:
        txt += "in %s=%s\n" % (i["n"], i["b"])
    d = tempfile.mkdtemp(prefix="khrun.")
    try:
        rp = path or os.path.join(d, "replay")
        with open(rp, "w") as f:
            f.write(txt)
        wd = os.path.join(d, "w")
        os.mkdir(wd)
        env = {"PATH": os.environ.get("PATH", ""), "KH_ALARM": str(alarm), "HOME": wd, "TMPDIR": wd}
        try:
            p = subprocess.run([runner, so, entry, rp], cwd=wd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=alarm + 30)
            return p.returncode, p.stdout.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            return 3, "timeout"
    finally:
        shutil.rmtree(d, ignore_errors=True)

def known_findings(prop):
    r = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--entry")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.build:
        for h in sorted({p["harness"] for p in PROPS.values()}):
            r = build(h)
            if any(e.get("schedules") for p in PROPS.values() if p["harness"] == h for e in p["entries"]):
                build_points(r[2], r[3])
        return 0
    prop, tier = a.property, a.tier
    P = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    khsym, runner, bc, so, hk, built = build(P["harness"])
    known = known_findings(prop)
    pool = concurrent.futures.ThreadPoolExecutor(1)
    points = pool.submit(build_points, bc, so) if any(e.get("schedules") for e in P["entries"]) else None
    rdir = os.path.join(B, "replays")
    os.makedirs(rdir, exist_ok=True)
    entries = [e for e in P["entries"] if tier in e.get("tiers", ("quick", "thorough")) and (not a.entry or e["name"] == a.entry)]
    ev_entries, samples, confirmed, unconfirmed, problems = [], [], [], [], []
    fns_sym, fns_run = set(), set()
    tot = dict(paths=0, assume_pruned=0, incomplete=0, forks=0, branches=0, queries=0, sat=0, unsat=0, unknown=0, model_reuse=0, instructions=0, checks=0, symbolic_checks=0)
    solver_s, validated, diverged, exhaustive, known_seen = 0.0, 0, 0, True, {}
    for ei, e in enumerate(entries):
        params = dict(e.get("params", {}))
        params.update(e.get("quick" if tier == "quick" else "thorough", {}))
        timeout = e.get("timeout", {}).get(tier, 240 if tier == "quick" else 3000)
        out = os.path.join(B, "out-%s-%s-%d.jsonl" % (prop, e["name"], ei))
        cmd = [khsym, "--bc", bc, "--entry", e["name"], "--out", out, "--jobs", "8", "--timeout", str(timeout), "--samples", str(e.get("samples", 12 if tier == "quick" else 60))]
        cmd += ["--pathsec", str(e.get("pathsec", 60 if tier == "quick" else 600))]
        for k, v in params.items():
            cmd += ["--param", "%s=%s" % (k, v)]
        for k in known:
            cmd += ["--known", k]
        cmd += e.get("args", [])
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        recs = []
        try:
            recs = [json.loads(l) for l in open(out, errors="replace")]
        except (OSError, ValueError) as x:
            problems.append("%s: engine output unreadable: %s" % (e["name"], x))
        summ = [r for r in recs if r["kind"] == "summary"]
        if not summ:
            problems.append("%s: engine gave no summary: %s" % (e["name"], p.stdout.decode("utf8", "replace")[-500:]))
            continue
        s = summ[-1]
        names = {}
        for l in open(out + ".fns", errors="replace"):
            i, n = l.rstrip("\n").split("\t", 1)
            names[int(i)] = re.sub(r"::h[0-9a-f]{16}$", "", n)
        mine = re.compile(r"bonsaidb|nebari|ordered_varint|khonsu|pot::|transmog|arc_bytes|circulate")
        fns_sym |= {names[i] for i in s["fn_sym"] if i in names and mine.search(names[i])}
        fns_run |= {names[i] for i in s["fn_run"] if i in names and mine.search(names[i])}
        for k in tot:
            tot[k] += s[k]
        solver_s += s["solver_s"]
        inc = {}
        for r in recs:
            if r["kind"] == "incomplete":
                inc[r["msg"]] = inc.get(r["msg"], 0) + 1
        crashes = [r["msg"] for r in recs if r["kind"] == "crash"]
        if crashes:
            problems.append("%s: engine process died: %s" % (e["name"], crashes[0]))
        complete = not s["timedout"] and s["incomplete"] == 0 and not crashes
        exhaustive &= complete
        missing = [l for l in e.get("labels", []) if not s["labels"].get(l)]
        viols = [r for r in recs if r["kind"] == "violation"]
        if (missing or (s["checks"] == 0)) and not viols:
            problems.append("%s: vacuous: unreached %s" % (e["name"], missing or "checks"))
        if e.get("schedules"):
            lib = points.result()
        else:
            lib = so
        # translator validation: completed paths must also end quietly natively
        smp = [r for r in recs if r["kind"] == "sample"] if e.get("native", True) else []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for r, (rc, txt) in zip(smp, ex.map(lambda r: native(runner, lib, e["name"], params, r["inputs"], known), smp)):
                if rc == 0:
                    validated += 1
                else:
                    diverged += 1
                    print("note: %s: sample path ended natively with %d: %s" % (e["name"], rc, txt[-300:].strip()))
        for r in smp[:2]:
            samples.append({"entry": e["name"], "inputs": [[i["n"], i["b"]] for i in r["inputs"]][:24]})
        for r in recs:
            if r["kind"] == "known":
                known_seen.setdefault(r["known"], (e["name"], r))
        for n, r in enumerate(viols[:8]):
            path = os.path.join(rdir, "%s-%s-%d-%d.replay" % (prop, e["name"], ei, n))
            ok = False
            for attempt in range(3):
                rc, txt = native(runner, lib, e["name"], params, r["inputs"], known, path)
                if rc in (1, 3) or rc < 0 or rc == 101:
                    ok = True
                    break
            (confirmed if ok else unconfirmed).append({"entry": e["name"], "msg": r["msg"], "known": r["known"], "at": r.get("at"), "replay": path, "native": rc, "native_output": txt[-600:]})
        ev_entries.append({"entry": e["name"], "params": params, "paths": s["paths"], "pruned_by_assumptions": s["assume_pruned"], "complete": complete, "timed_out": s["timedout"], "incomplete_paths": inc, "checks": s["checks"], "checks_on_symbolic_terms": s["symbolic_checks"], "solver_queries": s["queries"], "unsat": s["unsat"], "solver_s": s["solver_s"], "longest_query_s": s["max_query_s"], "threads": s["threads"], "wall_s": s["wall_s"], "reached": s["labels"]})
        if a.verbose:
            print(json.dumps(ev_entries[-1], indent=1))
    for k, (en, r) in sorted(known_seen.items()):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[k], k))
    for c in confirmed:
        print("violated: %s: %s (native exit %d) at %s" % (c["entry"], c["msg"], c["native"], (c["at"] or "")[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, c["replay"]))
    for c in unconfirmed:
        print("inconclusive: %s: %s: counterexample did not replay natively (exit %d) %s at %s" % (c["entry"], c["msg"], c["native"], c["native_output"][-200:].strip(), (c["at"] or "")[:600]))
    for m in problems:
        print("problem: " + m)
    if tot["paths"] == 0 and not problems:
        problems.append("no path completed")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["branches"],
            "traces_validated_against_impl": validated, "samples": samples[:12],
            "exhaustive": exhaustive and not unconfirmed and not problems,
            "explanation": "states = symbolic paths executed to their end over the compiled code's LLVM IR; transitions = symbolic branch decisions; every path stands for all inputs satisfying its path condition; exhaustive = every path within the bounds was finished.",
            "bounds": P["bounds"] if isinstance(P["bounds"], str) else P["bounds"][tier],
            "outside": P.get("outside", ""),
            "entries": ev_entries, "solver": {"name": "z3", "queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"], "answered_by_known_model": tot["model_reuse"], "seconds": round(solver_s, 3)},
            "instructions": tot["instructions"], "checks": tot["checks"], "checks_on_symbolic_terms": tot["symbolic_checks"],
            "native_replays_diverged": diverged,
            "functions_encoded_with_symbolic_data": sorted(fns_sym)[:400], "functions_encoded": len(fns_run), "functions_encoded_symbolic": len(fns_sym),
            "known_findings_seen": sorted(known_seen), "source_digest": hk, "build_s": round(built, 1),
            "inconclusive": unconfirmed, "problems": problems,
        },
        "assumptions": P.get("assumptions", []) + ["the compiler (rustc 1.76, opt-level 1, panic=abort, overflow checks on) and khsym's IR semantics are trusted; khsym is validated by replaying sample paths and every counterexample natively", "allocation never fails; threads switch only at blocking operations unless stated"],
        "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d checks (%d symbolic), %d queries, %.1fs solver, %d native replays agree, exhaustive=%s, %.1fs" % (prop, tier, tot["paths"], tot["checks"], tot["symbolic_checks"], tot["queries"], solver_s, validated, ev["coverage"]["exhaustive"], time.time() - t0))
    if confirmed:
        return 1
    if unconfirmed or problems:
        return 2
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit as x:
        if isinstance(x.code, str):
            print(x.code)
            sys.exit(2)
        raise
