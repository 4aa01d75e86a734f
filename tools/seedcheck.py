#!/usr/bin/env python3
"""seedcheck.py ID...: confirms a planted change in a scratch copy (applies, builds, passes the stable tests, demo
passes without and fails with it), then runs the property's check against it.  Options: -n skips the check."""
import json, os, subprocess, sys, shutil, re
V = "/verif"
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
def run(cmd, cwd, t=600, e=env):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, shell=isinstance(cmd, str))
    return r.returncode, r.stdout
def stable(cwd):
    bypkg = {}
    for n in base:
        n = n if isinstance(n, str) else n["name"]
        top = n.split("::")[-1] if "::" in n else n
        bypkg.setdefault(n, 0)
    names = sorted({re.split(r"[/]", re.sub(r"^github.com/QuangTung97/go-memcache/?", "", n)) [-1] if False else n for n in bypkg})
    pk = {}
    for n in names:
        m = re.match(r"(?:github.com/QuangTung97/go-memcache/)?(.*?)[/.:]+((?:Test|Example|Fuzz)[^/]*)", n)
        if not m: continue
        pk.setdefault(m.group(1), set()).add(m.group(2))
    bad = []
    for d, ts in pk.items():
        rc, out = run(["go", "test", "-vet=off", "-count=1", "-timeout", "120s", "-run", "^(" + "|".join(sorted(ts)) + ")$", "./" + d], cwd)
        if rc: bad.append(d + "\n" + out[-1500:])
    return bad
skip = "-n" in sys.argv
for i in [a for a in sys.argv[1:] if a != "-n"]:
    d = os.path.join(V, "seeded", i)
    T = "/tmp/seedcheck_" + i
    shutil.rmtree(T, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", T])
    meta = json.load(open(os.path.join(d, "meta.json")))
    msg = [i, meta["property"]]
    rc, out = run(["bash", os.path.join(d, "demo.sh")], T)
    msg.append("demo-clean=%d" % rc)
    if rc: print(out[-2000:])
    rc, out = run(["git", "apply", os.path.join(d, "patch.diff")], T)
    if rc: print(i, "DOES NOT APPLY", out); continue
    rc, out = run(["go", "build", "./..."], T)
    if rc: print(i, "DOES NOT BUILD", out); continue
    b = stable(T)
    msg.append("stable=%s" % ("ok" if not b else "FAIL"))
    if b: print("\n".join(b))
    rc, out = run(["bash", os.path.join(d, "demo.sh")], T)
    msg.append("demo-patched=%d" % rc)
    if rc == 0: print(out[-1500:])
    if not skip:
        e = dict(env, VERIF_REPO=T, VERIF_TIER="quick", VERIF_SEED="1")
        rc, out = run(["python3", os.path.join(V, "check.py"), meta["property"]], V, 1200, e)
        msg.append("check=%d %s" % (rc, out.strip().splitlines()[-1] if out.strip() else ""))
        fo = [l for l in out.splitlines() if l.startswith("failed obligation")]
        msg += ["\n   " + l for l in fo[:4]]
    print(" ".join(msg), flush=True)
    shutil.rmtree(T, ignore_errors=True)
