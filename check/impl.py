"""The block-level model VecImpl.tla: checked with TLC, and every transition of it taken on the real vectors."""
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, tempfile, time
import lib
from lib import ToolError, CPUS

# elements per block: [(B, W, values, MAXB, LONGB)]
QUICK = {1: [(2, 2, (0, 1, 3), 3, 6)], 2: [(4, 2, (0, 1, 3), 2, 2), (5, 2, (0, 1), 2, 3)], 3: [(6, 2, (0, 3), 2, 2)], 4: [(9, 2, (0, 3), 1, 1)]}
THOROUGH = {1: [(2, 2, (0, 1, 3), 5, 7), (3, 2, (0, 3), 3, 5)], 2: [(4, 2, (0, 1, 3), 3, 6), (7, 3, (0, 5, 7), 2, 2)],
            3: [(6, 2, (0, 3), 3, 4), (7, 2, (0, 3), 1, 4)], 4: [(8, 2, (0, 3), 2, 3), (9, 2, (0, 3), 1, 3)], 5: [(16, 3, (0, 7), 1, 2)]}
# defects of the code as found: a configuration of the model that meets them
AS_FOUND = {"split_storage": (4, 2, (0, 1, 3), 1, 1), "append_len": (4, 2, (0, 1, 3), 1, 1), "remove_unused_bits": (5, 2, (0, 1), 3, 3),
            "wide_shift": (2, 2, (0, 1, 3), 2, 2), "insert_oob": (4, 2, (0, 1, 3), 1, 1)}


def config(c, bugs, out, blocks=False):
    b, w, pal, maxb, longb = c
    return ("CONSTANTS\n B = %d\n W = %d\n PAL = {%s}\n MAXB = %d\n LONGB = %d\n RAWBLOCKS = %s\n BUGS = {%s}\n OUT = \"%s\"\n"
            "SPECIFICATION Spec\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n") % (
        b, w, ", ".join(map(str, pal)), maxb, longb, "TRUE" if blocks else "FALSE", ", ".join('"%s"' % x for x in bugs), out)


def model(c, bugs=(), out="", workers=4, timeout=850, blocks=False):
    d = tempfile.mkdtemp(prefix="impl-", dir=lib.scratch())
    cfg = os.path.join(d, "VecImpl.cfg")
    with open(cfg, "w") as f:
        f.write(config(c, bugs, out, blocks))
    return lib.Tlc("VecImpl", cfg, workers=workers, heap="5g").wait(timeout)


def graph(c, blocks=False):
    """The transition graph of one configuration, as TLC wrote it: (file, result of TLC or None when it was kept)"""
    spec = [os.path.join(lib.SPEC, m + ".tla") for m in ("VecImpl", "VecSem", "SeqOps")]
    h = hashlib.sha256()
    for f in spec:
        h.update(open(f, "rb").read())
    h.update(config(c, (), "", blocks).encode())
    d = os.path.join(lib.BUILD, "graph")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, h.hexdigest()[:16] + ".ndjson")
    stats = path[:-7] + ".stats"
    if os.path.exists(path) and os.path.exists(stats):
        s = json.load(open(stats))
        return path, s
    out = tempfile.mkdtemp(prefix="graph-", dir=lib.scratch())
    r = model(c, out=out, blocks=blocks)
    if not r.ok:
        raise ToolError("the model of the implementation is inconsistent: %s\n%s" % (r.broken, r.text[-3000:]))
    files = glob.glob(os.path.join(out, "*.json"))
    if len(files) != r.distinct:
        raise ToolError("%d states but %d files" % (r.distinct, len(files)))
    tmp = "%s.%d" % (path, os.getpid())
    with open(tmp, "w") as o:
        for f in files:
            with open(f) as i:
                t = i.read()
            o.write(t if t.endswith("\n") else t + "\n")
    shutil.rmtree(out, ignore_errors=True)
    os.replace(tmp, path)
    s = {"distinct": r.distinct, "generated": r.generated, "wall": round(r.wall, 1)}
    with open(stats, "w") as f:
        json.dump(s, f)
    return path, s


def graphs(ctx, blocks=False):
    """{elements per block: [(configuration, file)]}"""
    cs = THOROUGH if ctx.thorough else QUICK
    jobs = [(e, c) for e, l in cs.items() for c in l]
    res = {}
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for (e, c), (path, s) in zip(jobs, ex.map(lambda j: graph(j[1], blocks), jobs)):
            res.setdefault(e, []).append((c, path))
            ctx.states += s["distinct"]
            ctx.transitions += s["generated"]
            ctx.note("impl_model_states", s["distinct"])
    return res


def one(prog, k, path, pal, ops, seed, steps, edge, faults, conv):
    """Walks one type; returns the summary and the file of recorded histories"""
    out = tempfile.mktemp(prefix="walk-", dir=lib.scratch())
    args = ["walk", "--graph", path, "--type", str(k), "--pal", ",".join(map(str, pal)), "--ops", ",".join(ops), "--seed", str(seed),
            "--steps", str(steps), "--out", out] + (["--edge", "1"] if edge else []) + ["--faults", str(faults)] + (["--conv", "1"] if conv else [])
    start, deaths, tot = 0, 0, {}
    while True:
        p = subprocess.run([prog] + args + ["--from", str(start)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lib.limits(), timeout=800)
        if p.returncode == 0:
            for x, n in json.loads(p.stdout.decode()).items():
                tot[x] = tot.get(x, 0) + n
            break
        if p.returncode in (3, 101):
            raise ToolError("walk: " + p.stderr.decode(errors="replace")[-1500:])
        # the process died: in which transition?
        at = int(open(out + ".at").read())
        pend = out + ".pend"
        q = subprocess.run([prog] + args + ["--from", str(at - 1), "--pending", pend], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           preexec_fn=lib.limits(), timeout=800)
        head, events, pending = lib.parse_pending(pend)
        deaths += 1
        if head is not None and pending is not None and q.returncode != 0:
            pending.update({"r": ["m" if q.returncode == 77 else "x"], "d": [], "m": [], "b": [0, 0], "t": ""})
            with open(out, "a") as f:
                f.write(json.dumps({"h": head, "e": events + [pending]}, separators=(",", ":")) + "\n")
        if deaths >= 5:
            break
        start = at
    return tot, deaths, out


def walks(ctx, ops, rules, build="dev", edge=False, faults=0, blocks=False, conv=False):
    """Every transition for the named operations, on every type whose blocks hold as many elements.

    blocks: with block-wise access
    faults: instead, so many histories per type in which caller code fails in a storage of the model
    conv: in which one of the operations is interrupted by a conversion of the element type that panics"""
    prog = os.path.join(lib.build("vec", build), "vecdrv")
    gs = graphs(ctx, blocks)
    types = [l.split(" ", 4) for l in subprocess.run([prog, "walk-types"] + (["--conv", "1"] if conv else []), stdout=subprocess.PIPE, check=True).stdout.decode().splitlines()]
    jobs, seen = [], {}
    for k, (mod, epb, psize, zero, name) in enumerate(types):
        epb, psize = int(epb), int(psize)
        seen[(mod, epb)] = seen.get((mod, epb), 0) + 1
        for n, (c, path) in enumerate(gs.get(epb, [])):
            p = len(c[2])
            if psize < p:
                continue
            # which of the palette: first (smallest), second (largest), others
            full = [0, 2, 1] if p == 3 else [0, 1]
            pal = full if (k + n) % 2 == 0 or ctx.thorough else [(x + 1 + ctx.seed) % psize for x in full]
            if blocks:
                # the first value of the model is the one with discriminant 0
                zero = int(zero)
                pal = [zero] + [x for x in pal + list(range(psize)) if x != zero][:p - 1]
            if not ctx.thorough and (k + n + ctx.seed) % 2 and len(gs[epb]) > 1:
                continue
            jobs.append((k, path, pal))
    done = 0
    outs = []
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        for tot, deaths, out in ex.map(lambda j: one(prog, j[0], j[1], j[2], ops, ctx.seed, 0 if faults else ctx.pick(4000, 200000), edge, faults, conv), jobs):
            done += tot.get("done", 0)
            for x in ("done", "bad", "unreached", "steps"):
                ctx.note("walk_" + x, tot.get(x, 0))
            ctx.note("walk_same_storage_length", tot.get("agree", 0))
            ctx.note("walk_deaths", deaths)
            outs.append(out)
    ctx.note("walked_types", len(jobs))
    if not done and not ctx.notes.get("walk_deaths"):
        raise ToolError("the walk took no transition")
    allf = os.path.join(lib.scratch(), "walk-%s.ndjson" % build)
    with open(allf, "w") as o:
        for f in outs:
            if os.path.exists(f):
                o.write(open(f).read())
    ctx.traces += done
    ctx.add(lib.validate("VecTrace", "VecTrace.cfg", allf, rules))


def as_found(ctx, names):
    """The model with a defect of the code as found must be refuted"""
    for b in names:
        try:
            r = model(AS_FOUND[b], bugs=[b], workers=CPUS)
            refuted = not r.ok
        except ToolError as e:
            if "timed out" in str(e):
                raise
            refuted = True          # TLC stops when an operation reaches a block that does not exist
        if not refuted:
            raise ToolError("the model does not notice the defect " + b)
        ctx.note("as_found_refuted", 1)
