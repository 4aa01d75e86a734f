#!/usr/bin/env python3
"""check.py Cxx: decide one property by discharging the obligations generated from /repo's current source.

exit 0: every obligation of the property was discharged; exit 1 + VIOLATION line: an obligation failed;
exit 2: the check itself could not run (build error, tool missing).
"""
import fcntl, json, os, subprocess, sys, time, shutil, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if len(sys.argv) > 2:
    TIER = sys.argv[2]
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()


def die(msg, rc=2):
    print("check error: " + msg)
    sys.exit(rc)


def build():
    govc = os.path.join(VERIF, "govc", "govc")
    with open(os.path.join(VERIF, "govc", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
        r = subprocess.run(["go", "build", "-o", govc, "."], cwd=os.path.join(VERIF, "govc"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            die("cannot build the verifier:\n" + r.stdout)
    return govc


def run_verifier(govc):
    out = os.path.join(VERIF, "evidence", ".%s.%d.json" % (PROP, os.getpid()))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cmd = [govc, "-prop", PROP, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-out", out]
    if TIER == "thorough":
        cmd += ["-t", "20000", "-deep", "60"]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=600 if TIER == "quick" else 3000)
    except subprocess.TimeoutExpired:
        die("verifier timed out")
    if not os.path.exists(out):
        die("verifier gave no result (exit %d):\n%s" % (r.returncode, r.stdout[-4000:]))
    with open(out) as f:
        res = json.load(f)
    os.unlink(out)
    return res, " ".join(["govc", "-prop", PROP, "-repo", REPO])


def replay(failed):
    """Search for a failing input on the real code.  Returns (found, text)."""
    d = os.path.join(VERIF, "replay")
    files = [f for f in sorted(os.listdir(d)) if f.endswith("_verif_test.go")]
    ov = {"Replace": {}}
    for f in files:
        with open(os.path.join(d, f)) as g:
            if "common" not in f and "TestVerif_%s_" % PROP not in g.read():
                continue
        sub = "memcache"
        if f.startswith("stats_"):
            sub = "memcache/stats"
        if f.startswith("netconn_"):
            sub = "memcache/netconn"
        ov["Replace"][os.path.join(REPO, sub, "zz_" + f)] = os.path.join(d, f)
    ovf = os.path.join(VERIF, "evidence", ".ov.%s.%d.json" % (PROP, os.getpid()))
    with open(ovf, "w") as f:
        json.dump(ov, f)
    env = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", VERIF_SEED=str(SEED), VERIF_TIER=TIER)
    texts, found = [], False
    try:
        modes = (["-gcflags=all=-d=checkptr"], ["-race"]) if PROP in CONCURRENT else (["-gcflags=all=-d=checkptr"],)
        for extra in modes:
            cmd = ["go", "test", "-overlay", ovf, "-vet=off", "-count=1", "-run", "^TestVerif_%s_" % PROP,
                   "-timeout", "170s"] + extra + ["./memcache", "./memcache/stats", "./memcache/netconn"]
            try:
                r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   timeout=200)
            except subprocess.TimeoutExpired as e:
                texts.append("$ %s\n(timed out)" % " ".join(cmd))
                continue
            texts.append("$ %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
            if r.returncode != 0 and "[build failed]" not in r.stdout and "[setup failed]" not in r.stdout \
                    and ("--- FAIL: TestVerif_" in r.stdout or "panic: " in r.stdout or "fatal error: " in r.stdout
                         or "WARNING: DATA RACE" in r.stdout):
                found = True
                break
    finally:
        os.unlink(ovf)
    return found, "\n".join(texts)


def main():
    manifest = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    entry = next((c for c in manifest["checks"] if c["property"] == PROP), None)
    level = entry["level"] if entry else "proof"
    govc = build()
    res, cmd = run_verifier(govc)
    obls, bad, fns, inlined, externs, trusted = 0, [], [], set(), set(), set()
    engines, kinds, exits, queries, solver_ns = {}, {}, 0, 0, 0
    for r in res["Results"]:
        if r["Key"].startswith("builders:"):
            continue
        n = len(r["Obls"] or [])
        fns.append({"function": r["Key"], "obligations": n, "returning_paths": r["Exits"],
                    "solver_s": round(r["SolverNS"] / 1e9, 2)})
        exits += r["Exits"]
        queries += r["Queries"]
        solver_ns += r["SolverNS"]
        inlined.update(r["Inlined"] or [])
        externs.update(r["Externs"] or [])
        trusted.update(r["Trusted"] or [])
        for o in r["Obls"] or []:
            obls += 1
            kinds[o["Kind"]] = kinds.get(o["Kind"], 0) + 1
            if o["OK"]:
                engines[o["Engine"]] = engines.get(o["Engine"], 0) + 1
            else:
                bad.append((r["Key"], o))
    if obls == 0:
        die("no obligations were generated")
    known = load_known()
    unlisted, listed = [], []
    for k, o in bad:
        name = "%s/%s/%s" % (k, o["Kind"], o["Text"])
        (listed if (PROP, name) in known else unlisted).append((k, o, name))
    for k, o, name in listed:
        print("KNOWN-FINDING: property=%s %s" % (PROP, name))
    ev = {
        "property": PROP, "tier": TIER, "seed": SEED, "level": level,
        "coverage": {
            "obligations": obls, "discharged": obls - len(bad), "checker_cmd": cmd,
            "trusted_base": sorted(externs | trusted) + TRUSTED,
            "functions_under_contract": fns,
            "inlined_functions": sorted(inlined),
            "by_back_end": engines, "by_kind": kinds,
            "returning_paths": exits, "solver_queries": queries, "solver_s": round(solver_ns / 1e9, 1),
            "explanation": "Every obligation generated by the verifier govc from the SSA form of the current source of the "
                           "functions listed, against the contracts in /verif/contracts; callers are checked against the "
                           "contracts of the functions listed, other helpers are executed in place.",
        },
        "assumptions": TRUSTED + sorted(externs | trusted),
        "violations": len(unlisted),
        "wall_s": round(time.time() - T0, 2),
    }
    rc = 0
    if unlisted:
        rc = 1
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, PROP + ".txt")
        found, text = replay(unlisted)
        with open(path, "w") as f:
            f.write("property %s\n\nfailed obligations (%d):\n" % (PROP, len(unlisted)))
            for k, o, name in unlisted:
                f.write("\n* %s\n  kind %s, at %s\n  path %s\n" % (name, o["Kind"], o["Pos"], o["Trace"]))
            f.write("\nsearch for a failing input on the real code: %s\n\n%s\n" % ("FOUND" if found else "none found", text))
            for k, o, name in unlisted[:3]:
                if o.get("Query"):
                    f.write("\n; obligation not discharged: %s\n%s\n" % (name, o["Query"][:200000]))
        for k, o, name in unlisted[:10]:
            print("failed obligation: %s [%s]" % (name, o["Pos"]))
        print("VIOLATION property=%s replay=%s%s" % (PROP, path, "" if found else " no-failing-input-found"))
    with open(os.path.join(VERIF, "evidence", PROP + ".json"), "w") as f:
        ev["wall_s"] = round(time.time() - T0, 2)
        json.dump(ev, f, indent=1)
    if rc == 0:
        print("%s: %d obligations in %d functions, all discharged (%.1fs)" % (PROP, obls, len(fns), time.time() - T0))
    sys.exit(rc)


def load_known():
    out = set()
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property="):
                rest = l[len("KNOWN-FINDING: property="):]
                prop, _, name = rest.partition(" ")
                out.add((prop, name))
    return out


CONCURRENT = {"C07", "C08", "C09", "C10", "C11", "C12", "C14", "C15", "C19"}

TRUSTED = [
    "the verifier govc (symbolic execution of go/ssa, /verif/govc) and the Go SSA builder",
    "the SMT solvers z3 4.8.12, z3 5.3.2 and cvc5 1.1.2",
    "64-bit platform; slices, strings and maps hold fewer than 2^48 elements",
    "no memory is shared with code outside the functions under contract other than through the declared monitors and atomics",
]

if __name__ == "__main__":
    main()
