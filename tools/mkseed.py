#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for the planted bugs of seeds.py (from a scratch copy of /repo), after confirming each:
it builds, passes the stable tests, changes original lines, and its demonstration tells the two trees apart.
mkseed.py [id-prefix ...]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import mutants, seeds
BASE = "dc6a662"
DEMO = r'''#!/bin/bash
# cwd: /repo. Exit 0 when the code behaves, nonzero when it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src/bin"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.1"
edition = "2021"
[dependencies]
enum_vec = { path = "$repo/enum_vec", features = ["smallvec"] }
enum_like = { path = "$repo/enum_like" }
enum_like_derive = { path = "$repo/enum_like_derive" }
enum_set2 = { path = "$repo/enum_set" }
[patch.crates-io]
enum_like = { path = "$repo/enum_like" }
enum_like_derive = { path = "$repo/enum_like_derive" }
[profile.dev]
debug = false
incremental = false
[workspace]
TOML
cp "$here/demo.rs" "$d/src/bin/demo.rs"
export CARGO_TARGET_DIR="$d/target"
cd "$d" || exit 3
'''
RUN = 'timeout 280 cargo run --offline -q --bin demo 2>"$d/err" || { tail -5 "$d/err"; exit 1; }\n'
REJECT = '''cp "$here/rejected.rs" "$d/src/bin/rejected.rs"
timeout 200 cargo build --offline -q --bin demo 2>"$d/err" || { tail -5 "$d/err"; exit 1; }
if timeout 80 cargo build --offline -q --bin rejected 2>"$d/err"; then
  echo "a type that does not fit was accepted"; exit 1
fi
grep -q "error" "$d/err" || { tail -5 "$d/err"; exit 1; }
'''


def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode(errors="replace")


def passed(d):
    for k in ("stable", "passed", "pass"):
        if k in d:
            return d[k] if isinstance(d[k], list) else list(d[k])
    t = d["tests"]
    return [k for k, v in t.items() if v in ("pass", "passed", "ok", True)] if isinstance(t, dict) else t


def original(repo, edits):
    """does the change replace lines of the original repository?"""
    c, t = sh("git diff -U0", cwd=repo)
    f, gone = None, []
    for l in t.split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            a = l.split()[1][1:]
            n, k = (a.split(",") + ["1"])[:2]
            gone += [(f, int(n) + i) for i in range(int(k))]
    own = 0
    for f, n in gone:
        c, t = sh("git blame -s -L %d,%d HEAD -- %s" % (n, n, f), cwd=repo)
        own += t.split()[0] in mine
    return len(gone), own


mine = set()


def main():
    c, t = sh("git -C /repo rev-list %s..HEAD" % BASE)
    for h in t.split():
        mine.add(h[:8]); mine.add(h[:7])
    want = sys.argv[1:]
    base = set(passed(json.load(open("/opt/vp/BASELINE.json"))))
    tmp = tempfile.mkdtemp(prefix="mkseed")
    try:
        sh("cp -a /repo %s/repo && cp -a /opt/vp %s/vp" % (tmp, tmp))
        repo = tmp + "/repo"
        for s in seeds.S:
            if want and not any(s["id"].startswith(w) for w in want):
                continue
            sh("git checkout -q -- .", cwd=repo)
            edits = s.get("edits") or next(m for m in mutants.M if m["name"] == s["mutant"])["edits"]
            bad = None
            for f, o, n in edits:
                p = os.path.join(repo, f)
                x = open(p).read()
                if x.count(o) != 1:
                    bad = "%s: %d matches" % (f, x.count(o))
                    break
                open(p, "w").write(x.replace(o, n))
            if bad:
                print(s["id"], "ERROR", bad, flush=True)
                continue
            gone, own = original(repo, edits)
            ns = "unshare -Urm bash -c 'mount --bind %s /repo && mount --bind %s/vp /opt/vp && %s'"
            c, t = sh(ns % (repo, tmp, "bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh %s/t.json >/dev/null 2>&1; test -s %s/t.json" % (tmp, tmp)))
            if c != 0 or not os.path.exists(tmp + "/t.json"):
                print(s["id"], "ERROR does not build", t[-300:], flush=True)
                continue
            lost = sorted(base - set(passed(json.load(open(tmp + "/t.json")))))
            os.remove(tmp + "/t.json")
            if lost:
                print(s["id"], "TESTS FAIL", lost[:3], flush=True)
                continue
            d = os.path.join(V, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            c, diff = sh("git diff", cwd=repo)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.rs", "w").write(seeds.PRELUDE + s["demo"])
            body = DEMO
            if "rejected" in s:
                open(d + "/rejected.rs", "w").write(seeds.PRELUDE + s["rejected"])
                body += REJECT
            body += RUN
            open(d + "/demo.sh", "w").write(body)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            run = ns % (repo, tmp, "cd /repo && bash %s/demo.sh" % d)
            a, ta = sh(run)
            sh("git checkout -q -- .", cwd=repo)
            b, tb = sh(run)
            good = a != 0 and b == 0 and gone > own
            print(s["id"], "ok" if good else "BAD", "patched=%d clean=%d gone=%d own=%d" % (a, b, gone, own), "" if good else (ta + "||" + tb)[-800:], flush=True)
            if not good:
                shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp)


main()
