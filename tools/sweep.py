#!/usr/bin/env python3
"""Applies the changes of mutants.py to /repo one by one: does it pass the stable tests, and which checks catch it?
sweep.py [name-prefix ...]   Results: build/sweep.json"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import mutants
M = mutants.M
if "seeded" in sys.argv:
    sys.argv.remove("seeded")
    M = [{"name": x, "props": [json.load(open("%s/seeded/%s/meta.json" % (V, x)))["property"]], "expect": "caught", "edits": [], "patch": "%s/seeded/%s/patch.diff" % (V, x)}
         for x in sorted(os.listdir(V + "/seeded"))]
R = "/repo"
base = json.load(open("/opt/vp/BASELINE.json"))
out = os.path.join(V, "build", "sweep.json")
res = json.load(open(out)) if os.path.exists(out) else {}


def sh(cmd, timeout=900):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def restore():
    sh("git -C /repo checkout -- .")


def stable():
    b = base.get("stable") or base.get("passed") or base.get("tests") or base
    return b


def run(m):
    assert not sh("git -C /repo status --porcelain")[1].strip(), "dirty /repo"
    r = {"props": m["props"], "expect": m["expect"]}
    try:
        for f, o, n in m["edits"]:
            p = os.path.join(R, f)
            s = open(p).read()
            if s.count(o) != 1:
                r["error"] = "%s: %d matches" % (f, s.count(o))
                return r
            open(p, "w").write(s.replace(o, n))
        if "patch" in m and sh("git -C /repo apply " + m["patch"])[0] != 0:
            r["error"] = "does not apply"
            return r
        c, t = sh("bash /opt/vp/build.sh")
        if c != 0:
            r["error"] = "does not compile: " + t[-600:]
            return r
        sh("bash /opt/vp/test.sh /verif/build/sweep-tests.json")
        got = json.load(open("/verif/build/sweep-tests.json"))
        r["tests_ok"] = sorted(set(base_ids()) - set(passed(got)))[:5]
        for p in dict.fromkeys(m["props"]):
            t0 = time.time()
            c, t = sh("cd %s && VERIF_SEED=1 timeout 900 python3 check/run.py %s quick" % (V, p))
            r[p] = [c, round(time.time() - t0), t[-300:] if c == 0 else t[-700:]]
        return r
    finally:
        restore()


def base_ids():
    return passed(base)


def passed(d):
    for k in ("stable", "passed", "pass"):
        if k in d:
            return d[k] if isinstance(d[k], list) else list(d[k])
    if "tests" in d:
        t = d["tests"]
        return [k for k, v in t.items() if v in ("pass", "passed", "ok", True)] if isinstance(t, dict) else t
    raise SystemExit("cannot read test results: %s" % list(d)[:5])


want = [a for a in sys.argv[1:] if "/" not in a]
shard = next((tuple(map(int, a.split("/"))) for a in sys.argv[1:] if "/" in a), (0, 1))
for k, m in enumerate(M):
    if k % shard[1] != shard[0]:
        continue
    if want and not any(m["name"].startswith(w) for w in want):
        continue
    if not want and m["name"] in res:
        continue
    r = run(m)
    res[m["name"]] = r
    json.dump(res, open(out, "w"), indent=1)
    ok = "ERROR " + r["error"] if "error" in r else " ".join("%s=%s(%ss)" % (p, {0: "quiet", 1: "CAUGHT"}.get(r[p][0], "NOANSWER"), r[p][1]) for p in dict.fromkeys(m["props"]))
    print("%-26s expect=%s tests=%s %s" % (m["name"], m["expect"], "ok" if not r.get("tests_ok") else r["tests_ok"][:2], ok), flush=True)
