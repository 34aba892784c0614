"""C21 and part of C07: which types a storage admits (compile probes chosen by Admit.tla), and how admitted ones are packed."""
import concurrent.futures, glob, json, os, re, subprocess, time
import lib
from lib import Violation, ToolError

WRAPPERS = {"packed_u8": "PackedU8", "packed_u16": "PackedU16"}

TYPES = """
#[derive(Copy, Clone, EnumLike)] pub enum Never {}
#[derive(Copy, Clone, EnumLike)] pub struct Unit;
#[derive(Copy, Clone, EnumLike)] pub enum Solo { One }
#[derive(Copy, Clone, EnumLike)] pub enum Mixed { A(bool), B, C { x: Option<Never> } }
"""


def big_enum(n):
    return "#[derive(Copy, Clone, EnumLike)] pub enum E%d { %s }\n" % (n, ", ".join("V%d" % i for i in range(n)))


def prelude(types):
    s = "#![allow(dead_code, unused)]\nextern crate admit;\nextern crate enum_like;\nuse enum_like::EnumLike;\nuse enum_like_derive::EnumLike;\nuse admit::D;\n"
    if types:
        s += TYPES
        for n in (255, 256, 257):
            if any("E%d" % n in t for t in types):
                s += big_enum(n)
    return s


WAYS = {
    "push": "let mut v: EnumVec<T> = EnumVec::new(); v.push(x); v.len()",
    "capacity": "let v: EnumVec<T> = EnumVec::with_capacity(3); v.len()",
    "collect": "let v: EnumVec<T> = std::iter::repeat(x).take(3).collect(); v.len()",
    "slice": "EnumVec::<T>::from_slice(&[x, x]).len()",
    "vec": "let v: EnumVec<T> = vec![x, x].into(); v.len()",
    "elem": "EnumVec::<T>::from_elem(x, 3).len()",
    "resize": "let mut v: EnumVec<T> = EnumVec::new(); v.resize(3, x); v.len()",
    "insert": "let mut v: EnumVec<T> = EnumVec::new(); v.insert(0, x); v.len()",
    "extend": "let mut v: EnumVec<T> = EnumVec::new(); v.extend(Some(x)); v.len()",
    "macro": "let v: EnumVec<T> = admit::enum_vec::enum_vec![x, x]; v.len()",
    "get": "let v: EnumVec<T> = EnumVec::new(); v.get(0).is_some() as usize",
    "any": "let v: EnumVec<T> = EnumVec::new(); v.any(x) as usize",
    "pop": "let mut v: EnumVec<T> = EnumVec::new(); v.pop().is_some() as usize",
    "shrink": "let mut v: EnumVec<T> = EnumVec::new(); v.shrink_to_fit(); v.len()",
}


def rust_type(p):
    return p["ty"] or "D<%s>" % p["n"]


def way_source(p):
    """A program that only uses the storage in one way (compiled, not run)"""
    if p["store"] in WRAPPERS:
        use, body = "use admit::%s as Packed;" % WRAPPERS[p["store"]], "let p = Packed::<T>::new(x); p.get().to_discr()"
    else:
        use, body = "use admit::enum_vec::%s::EnumVec;" % p["store"], WAYS[p["way"]]
    return "%s%s\ntype T = %s;\n#[inline(never)]\npub fn probe(x: T) -> usize { %s }\n" % (prelude([p["ty"]] if p["ty"] else []), use, rust_type(p), body)


def rustc(args, timeout=300):
    p = subprocess.run(["rustc", "--edition", "2021", "-Awarnings"] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def externs(built):
    deps = os.path.join(built, "deps")

    def newest(pat):
        c = sorted(glob.glob(os.path.join(deps, pat)), key=os.path.getmtime)
        if not c:
            raise ToolError("no " + pat)
        return c[-1]
    return ["-L", "dependency=" + deps, "--extern", "admit=" + os.path.join(built, "libadmit.rlib"),
            "--extern", "enum_like=" + newest("libenum_like-*.rlib"), "--extern", "enum_like_derive=" + newest("libenum_like_derive-*.so")]


def probes(ctx, opt, rules, run_only=False):
    """Compiles and runs the probes chosen by Admit.tla and validates the outcome"""
    d = os.path.join(lib.scratch(), "admit")
    os.makedirs(d, exist_ok=True)
    spec = lib.Tlc("Admit", "Admit.cfg", env={"TIER": ctx.tier, "OUTDIR": d, "SEED": str(ctx.seed)}, heap="6g")
    built = lib.build("admit", "dev" if opt == 0 else "rel")
    ex = externs(built) + ["-C", "opt-level=%d" % opt, "-C", "debug-assertions=on"]
    r = spec.wait()
    if not r.ok:
        raise ToolError("Admit.tla is inconsistent: %s\n%s" % (r.broken, r.text[-2000:]))
    ctx.add(r)
    ps = sorted((json.loads(open(f).readline()) for f in glob.glob(os.path.join(d, "*.json"))), key=lambda p: p["id"])
    if not ps:
        raise ToolError("no probes")
    single = [] if run_only else [p for p in ps if p["way"] != "run"]
    run = {}
    for p in ps:
        if p["way"] == "run":
            run.setdefault(p["store"], []).append(p)
    tab = os.path.join(d, "probes.tab")
    with open(tab, "w") as f:
        for p in ps:
            if p["way"] == "run":
                f.write("%d %s %s\n" % (p["id"], ",".join(map(str, p["lens"])), ",".join(p["vals"])))
    res, messages = {}, {}

    def one(p):
        src = os.path.join(d, "w%d.rs" % p["id"])
        with open(src, "w") as f:
            f.write(way_source(p))
        obj = os.path.join(d, "w%d.o" % p["id"])
        c, t = rustc([src, "--crate-type", "lib", "--crate-name", "w%d" % p["id"], "--emit", "obj=" + obj] + ex)
        if os.path.exists(obj):
            os.remove(obj)
        if c not in (0, 1):
            raise ToolError("rustc failed (%d):\n%s" % (c, t[-2000:]))
        return [(p, 1 if c == 0 else 0, t)]

    def group(name, ps):
        """admitted types in one program; if it does not compile, each alone"""
        src = os.path.join(d, "%s.rs" % name)
        with open(src, "w") as f:
            f.write(prelude([p["ty"] for p in ps if p["ty"]]))
            f.write("fn main() { admit::main(&[\n%s\n]) }\n" % ",\n".join(
                "(%d, admit::%s::run::<%s> as fn(&admit::Job, &mut admit::Out))" % (p["id"], p["store"], rust_type(p)) for p in ps))
        exe = os.path.join(d, name)
        c, t = rustc([src, "-o", exe] + ex)
        if c not in (0, 1):
            raise ToolError("rustc failed (%d):\n%s" % (c, t[-2000:]))
        if c == 1:
            if len(ps) == 1:
                return [(ps[0], 0, t)]
            h = len(ps) // 2
            if len(ps) > 4:     # the first type that is refused is enough
                left = group(name + "l", ps[:h])
                return left if any(b == 0 for _, b, _ in left) else left + group(name + "r", ps[h:])
            return sum((group("%s_%d" % (name, p["id"]), [p]) for p in ps), [])
        done, start = [], 0
        out = exe + ".out"
        q = subprocess.run([exe, tab, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=lib.limits(), timeout=120)
        os.remove(exe)
        last = None
        for line in open(out):
            if line[0] == "S":
                last = int(line[2:])
            elif line.endswith("\n"):
                x = json.loads(line[2:])
                res[x["id"]] = x
                last = None
        if q.returncode != 0 and last is not None:
            res[last] = {"id": last, "ok": 0, "runs": []}
            if len(ps) > 1:     # the others, without it
                return group(name + "d", [p for p in ps if p["id"] > last]) + [(p, 1, "") for p in ps if p["id"] <= last] if any(p["id"] > last for p in ps) else [(p, 1, "") for p in ps]
        elif q.returncode != 0:
            raise ToolError("the probe program failed: %d" % q.returncode)
        return [(p, 1, "") for p in ps]

    t0 = time.time()
    jobs = []
    with concurrent.futures.ThreadPoolExecutor(lib.CPUS) as pool:
        for s, q in sorted(run.items(), key=lambda x: -len(x[1])):
            n = max(1, (len(q) + 59) // 60)
            for k in range(n):
                jobs.append(pool.submit(group, "%s_%d" % (s, k), q[k::n]))
        jobs += [pool.submit(one, p) for p in single]
        done = sum((j.result() for j in jobs), [])
    ctx.note("seconds_compiling", round(time.time() - t0, 1))
    out = os.path.join(lib.scratch(), "admit.ndjson")
    done.sort(key=lambda x: x[0]["id"])
    with open(out, "w") as f:
        for p, b, t in done:
            x = res.get(p["id"], {"ok": 0, "runs": []})
            messages[p["id"]] = t
            f.write(json.dumps({"h": {"id": p["id"], "mod": p["store"], "ty": rust_type(p), "n": p["n"]},
                                "e": [{"k": p["k"], "d": p["d"], "way": p["way"], "built": b, "ok": x["ok"], "runs": x["runs"], "lens": p["lens"], "nv": len(p["vals"])}]},
                               separators=(",", ":")) + "\n")
    ctx.note("programs_compiled", len(done))
    ctx.note("programs_refused", sum(1 for _, b, _ in done if b == 0))
    ctx.note("programs_run", len(res))
    for p, b, t in done[:: max(1, len(done) // 5)]:
        m = re.search(r"error[^\n]*", t)
        ctx.sample({"storage": p["store"], "type": rust_type(p), "values": p["n"], "way": p["way"], "admitted": b, "compiler": m.group(0)[:160] if m else ""}, limit=8)
    ctx.traces += len(done)
    try:
        ctx.add(lib.validate("AdmitTrace", "AdmitTrace.cfg", out, rules))
    except Violation as v:
        v.data["compiler"] = messages.get(v.data["header"]["id"], "")[:3000]
        raise
