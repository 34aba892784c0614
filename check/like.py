"""Checks of the EnumLike trait and its derive (C12, C13, C16, C17): tables from the specification, replayed."""
import glob, json, os, re, subprocess, time
import lib, rustgen
from lib import Violation, ToolError


def tables(ctx, family, nrandom, maxcard, seed):
    """Types chosen and tabulated by EnumLikeGen.tla"""
    d = os.path.join(lib.scratch(), "tab-%s-%d" % (family, seed))
    os.makedirs(d, exist_ok=True)
    r = lib.tlc("EnumLikeGen", "EnumLikeGen.cfg", env={"SEED": str(seed), "NRANDOM": str(nrandom), "MAXCARD": str(maxcard), "FAMILY": family, "OUTDIR": d},
                heap="8g", timeout=850)
    if not r.ok:
        raise ToolError("the specification of EnumLike is inconsistent: %s\n%s" % (r.broken, r.text[-3000:]))
    ctx.add(r)
    out = []
    for f in glob.glob(os.path.join(d, "*.json")):
        idx = int(os.path.basename(f)[:-5])
        with open(f) as fh:
            t = json.loads(fh.readline())
        t["idx"] = idx
        out.append(t)
    out.sort(key=lambda t: t["idx"])
    if not out:
        raise ToolError("no tables")
    return d, out


def is_enum(t):
    return t[0] == "adt" and t[1]["enum"]


def replay(ctx, family, kinds, nrandom, maxcard, seed, mode):
    """Replays the tables of one family; kinds: the kinds of error that break the property"""
    t0 = time.time()
    d, tabs = tables(ctx, family, nrandom, maxcard, seed)
    write_tabs(d, tabs)
    src = rustgen.Gen().source([(t["idx"], t["term"]) for t in tabs])
    t1 = time.time()
    prog = build_types("liketab", family, src, seed)
    byidx = {t["idx"]: t for t in tabs}
    start, errors, calls, rows, deaths = 0, [], 0, 0, 0
    t2 = time.time()
    while start < len(tabs):
        out = os.path.join(lib.scratch(), "rep-%s-%d" % (family, start))
        p = subprocess.run([prog, "--dir", d, "--start", str(start), "--out", out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           preexec_fn=lib.limits(), timeout=600)
        if p.returncode == 3:
            raise ToolError(p.stderr.decode(errors="replace"))
        at = start
        for line in open(out):
            if line[0] == "S":
                at = int(line[2:])
            else:
                r = json.loads(line[2:])
                calls += r["calls"]
                rows += r["rows"]
                errors += [(k, r["idx"], s) for k, s in r["errors"]]
        if p.returncode == 0:
            break
        errors.append(("panic", tabs[at]["idx"], "the process died (%d) while converting values of this type" % p.returncode))
        deaths += 1
        if deaths > 20:
            break
        start = at + 1
    ctx.traces += len(tabs)
    ctx.note("types_" + family, len(tabs))
    ctx.note("values_" + family, rows)
    ctx.note("conversions_replayed", calls)
    ctx.note("seconds_tlc_build_run", [round(t1 - t0, 1), round(t2 - t1, 1), round(time.time() - t2, 1)], add=False)
    for t in tabs[:: max(1, len(tabs) // 2)]:
        ctx.sample({"type": rustgen.key(t["term"]), "values": t["card"], "rows": t["rows"][:4]})
    errors = [e for e in errors if e[0] in kinds]
    if errors:
        k, idx, s = errors[0]
        t = byidx[idx]
        raise Violation("type %s: %s" % (rustgen.key(t["term"]), s),
                        {"spec": "EnumLike", "family": family, "seed": seed, "type": rustgen.key(t["term"]), "term": t["term"],
                         "errors": [[rustgen.key(byidx[i]["term"]), k, s] for k, i, s in errors[:50]]})


def write_tabs(d, tabs):
    for t in tabs:
        with open(os.path.join(d, "%d.tab" % t["idx"]), "w") as f:
            f.write("%s %d %d\n" % (t["card"], t["complete"], 1 if is_enum(t["term"]) else 0))
            for txt, n in t["rows"]:
                f.write("%s\t%s\n" % (n, txt))


def build_types(harness, family, src, seed):
    """Builds a driver for generated types; types that no longer compile break the property"""
    try:
        return os.path.join(lib.build(harness, gen=src, variant="-" + family), harness)
    except lib.BuildError as e:
        lib.build("like")       # does the runtime alone compile? otherwise no answer
        lib.build("vec")
        m = re.search(r"error(\[E\d+\])?: .*(\n.*){0,12}", e.text)
        raise Violation("types admitted by the specification no longer compile: " + (m.group(0) if m else e.text[-800:]),
                        {"spec": "EnumLikeGen", "family": family, "seed": seed, "compiler": e.text[-4000:]})


BIJ = ("bij", "panic")
NUM = ("num", "panic")


def provided(ctx, kinds):
    replay(ctx, "provided", kinds, ctx.pick(100, 300), ctx.pick(300, 900), ctx.seed, ctx.tier)
    replay(ctx, "wide", kinds, 0, ctx.pick(300, 2000), ctx.seed, ctx.tier)
    if ctx.thorough:
        for k in range(1, 5):
            replay(ctx, "provided", kinds, 300, 500, ctx.seed + 100 * k, ctx.tier)
            replay(ctx, "wide", kinds, 0, 300, ctx.seed + k, ctx.tier)


def derived(ctx, kinds):
    replay(ctx, "derived", kinds, ctx.pick(100, 250), ctx.pick(400, 1500), ctx.seed, ctx.tier)
    if ctx.thorough:
        for k in range(1, 5):
            replay(ctx, "derived", kinds, 250, 600, ctx.seed + 100 * k, ctx.tier)


# ---------------------------------------------------------------- C22: containers
VECS = (("V8", 8), ("V16", 16), ("V32", 32), ("V64", 64), ("V128", 128), ("VS", 32))


def store(ctx):
    rounds = ctx.pick(1, 4)
    for k in range(rounds):
        seed = ctx.seed + 50 * k
        d, tabs = tables(ctx, "store", ctx.pick(24, 60), 300, seed)
        tabs = [t for t in tabs if int(t["card"]) >= 1]
        write_tabs(d, tabs)
        card = {t["idx"]: int(t["card"]) for t in tabs}
        p = {}

        def entry(i, ty):
            n = card[i]
            cs = []
            if n >= 2:
                cs += ["Box::new(%s(enum_vec::%s::EnumVec::<%s>::new(), p.clone()))" % (w, m, ty)
                       for (w, b), m in zip(VECS, ("vec_u8", "vec_u16", "vec_u32", "vec_u64", "vec_u128", "smallvec_u32")) if n <= 1 << b]
            if n <= 1 << 20:
                cs.append("Box::new(S(EnumSet::<%s>::new(), p.clone()))" % ty)
            if n <= 256:
                cs.append("Box::new(P8::<%s>(vec![], p.clone()))" % ty)
            if n <= 65536:
                cs.append("Box::new(P16::<%s>(vec![], p.clone()))" % ty)
            return "|x| { let p = Pal::<%s>::new(x); (vec![%s], discrs::<%s>(x)) }" % (ty, ", ".join(cs), ty)

        src = rustgen.Gen().source([(t["idx"], t["term"]) for t in tabs], kind="Make", entry=entry)
        prog = build_types("store", "", src, seed)
        ctx.note("types", len(tabs))
        total, done = len(tabs) * ctx.pick(16, 150), 0
        while done < total:
            n = min(5000, total - done)
            out = os.path.join(lib.scratch(), "store-%d.ndjson" % done)
            got, deaths = lib.record([prog], None, ["--dir", d], n, seed, out, first=done)
            ctx.add(lib.validate("StoreTrace", "StoreTrace.cfg", out, ["store"]))
            ctx.traces += got
            ctx.note("processes_that_died", deaths)
            if done == 0:
                for j in (3, got // 2):
                    tr = json.loads(lib.nth_line(out, j))
                    ctx.sample({"type": tr["h"]["ty"], "containers": tr["h"]["con"], "values": tr["h"]["txt"][:4], "events": [e["o"] for e in tr["e"]][:12]})
            os.remove(out)
            done += n
