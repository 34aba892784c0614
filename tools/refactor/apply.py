"""apply.py NAME REPO: rewrites the functions of a copy of the repository without changing what they do (false-alarm tests; no check reads this)."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def body(src, head, new, nth=0):
    """Replace the braces after the nth occurrence of `head`"""
    at = -1
    for _ in range(nth + 1):
        at = src.index(head, at + 1)
    i = src.index("{", at + len(head) - (1 if head.endswith("{") else 0))
    d, j = 0, i
    while True:
        d += {"{": 1, "}": -1}.get(src[j], 0)
        j += 1
        if d == 0:
            break
    return src[:i] + "{\n" + new.strip("\n") + "\n    }" + src[j:]


def run(name, repo):
    mod = __import__(name)
    for f, steps in mod.FILES.items():
        p = os.path.join(repo, f)
        s = open(p).read()
        for st in steps:
            if st[0] == "fn":
                s = body(s, *st[1:])
            else:
                assert s.count(st[1]) == 1, (f, st[1], s.count(st[1]))
                s = s.replace(st[1], st[2])
        open(p, "w").write(s)
    if getattr(mod, "GEN", False):
        subprocess.check_call(["bash", "gen.sh"], cwd=os.path.join(repo, "enum_vec"))


if __name__ == "__main__":
    run(sys.argv[1], sys.argv[2])
