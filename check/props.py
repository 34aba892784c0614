"""What each check does."""
import json, os
import lib, like, admit, impl
from lib import Violation, ToolError

CHECKS = {}


def check(name):
    def deco(f):
        CHECKS[name] = f
        return f
    return deco


# property: (technique, what the check assures and assumes)
TRACE = "TLC validates recordings of the real code against spec/VecTrace.tla"
WALK = "every transition of the block-level model spec/VecImpl.tla (checked by TLC to refine spec/VecSem.tla) is taken on the real storages and validated"
HIST = ("Bounded: seeded histories over some 270 pairs of a storage and an element type, vectors of a few blocks, of thousands and of more than 65536 elements; in C01-C08, C10, C23 and C24 also of more than 2^32 bits (release build, spec/Giant.tla). ")
GRAPH = ("Exhaustive within the model's bounds: all storages of up to 3 (thorough: 5) blocks that operations can produce, junk bits included, on every "
         "type whose blocks hold as many elements. ")
TRUST = "Trusted: TLC, the drivers in harness/, rustc; the contents are observed through the public interface after every operation."
VEC = lambda: (TRACE + "; " + WALK, HIST + GRAPH + TRUST)
ABOUT = {p: VEC() for p in ("C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C23", "C24")}
ABOUT.update({
    "C05": (TRACE + " (iterator machine spec/IterSem.tla); all scripts of three calls on all lengths up to five",
            HIST + "Exhaustive for scripts of three of the sixteen calls on vectors of up to five elements; longer scripts and vectors are sampled. " + TRUST),
    "C07": (TRACE + "; " + WALK + "; compile-and-run probes chosen by spec/Admit.tla, one around every power of two up to 2^64",
            HIST + GRAPH + "Every admissible element width of every storage is measured. The constant factor accepted for allocated memory is 4 (plus 64 blocks). " + TRUST),
    "C11": ("all storages run the same history in lockstep, TLC compares the digests of everything observable (rule agree of spec/VecTrace.tla)",
            HIST + "Digests are 31-bit hashes of contents, results, panics, query answers, Debug text and hashed bytes after every operation. " + TRUST),
    "C12": ("TLC enumerates types and tabulates values and discriminants by spec/EnumLike.tla (bijectivity checked there); the tables are replayed on the compiled types",
            "Complete tables for types of up to some hundred values, sampled values of wide and huge types (up to 2^64 values); tuples and arrays of every arity up to 32. "
            "Trusted: TLC, the generator of Rust source check/rustgen.py, rustc."),
    "C14": ("TLC validates recordings of the iterator against spec/ValuesTrace.tla, with exact arithmetic on 64-bit numbers",
            "For six small types every script of four of eight calls (quick: a quarter of them), sampled scripts for types of up to 2^64 - 1 values. Trusted: TLC, harness/like."),
    "C15": ("TLC validates recordings of packed wrappers against spec/PackedTrace.tla",
            "All values of each listed type (up to 65536 of them, sampled beyond 256) are packed; all pairs of what was packed are compared. Trusted: TLC, harness/like."),
    "C16": ("TLC enumerates type definitions (enums, structs, generics) and tabulates them by spec/EnumLike.tla; the derive's code for them is compiled and the tables replayed",
            "A fixed list of definitions that covers every branch of the derive, and seeded random definitions; complete tables for small ones, sampled for huge ones; "
            "out-of-range discriminants of every derived enum. Trusted: TLC, check/rustgen.py, rustc."),
    "C18": ("TLC validates recordings of four EnumSets against spec/SetSem.tla (spec/SetTrace.tla); every pair of subsets of five values is visited",
            "Seeded histories over sets of up to 260 values and types of up to 70000 values, exhaustive over pairs of subsets of five values. Trusted: TLC, harness/sets."),
    "C21": ("TLC enumerates (storage, number of values, way of use) by spec/Admit.tla; each is compiled, and run if admitted; TLC judges the outcome (spec/AdmitTrace.tla)",
            "Every power of two up to 2^64 and its neighbours for every storage; refusals at and far beyond the limits through every way of use. Trusted: TLC, rustc."),
    "C22": ("TLC validates recordings of all containers holding the same type against spec/StoreTrace.tla; types and palettes are chosen by spec/EnumLikeGen.tla",
            "Seeded histories over the base types, the derived definitions of C16, random ones and huge ones. Trusted: TLC, harness/store, check/rustgen.py."),
})
ABOUT["C25"] = ("TLC validates recordings of several threads that read the same vectors and sets against spec/SharedTrace.tla; the interleavings of readers are checked in spec/Shared.tla",
                "Exhaustive interleavings in the model (three threads, vectors of three elements); of the real code seeded histories of two to four threads, taking turns in a "
                "chosen order or reading all at once, over every storage and the set. " + TRUST)
ABOUT["C26"] = ("TLC checks the operations step by step, with conversions that may fail, against spec/TornSem.tla (spec/Torn.tla); recordings of the real code with "
                "conversions that panic at a chosen point are validated by the same relation (rule conv of spec/VecTrace.tla), also from the storages of spec/VecImpl.tla",
                "Exhaustive in the model (vectors of up to four elements); of the real code seeded histories in which the conversions of the element type panic after the first, "
                "second, ... time, over 33 element types with such conversions, and one interrupted operation in each of some thousand storages of the block-level model. " + TRUST)
ABOUT["C27"] = ("TLC validates recordings of four EnumSets, with iterators and conversions that panic at a chosen point, against spec/SetTrace.tla (rule faults)",
                "Seeded histories over twenty element types; the panic comes at every point with some probability. Trusted: TLC, harness/sets.")
ABOUT["C28"] = ("TLC validates the memory recorded with histories of four EnumSets against spec/SetTrace.tla (rule mem)",
                "Seeded histories over twenty element types, two of them with more than 2^63 variants. Accepted: a factor of 4 plus 64 blocks. Trusted: TLC, harness/sets.")
ABOUT["C29"] = ("TLC checks the model of who owns which allocation (spec/Own.tla); the memory that an allocator counts while recorded histories are run again is judged by "
                "rule heap of spec/VecTrace.tla and of spec/SetTrace.tla",
                HIST + "Sets: seeded histories over twenty element types. Accepted until everything is dropped: a factor of 4 plus 64 blocks a vector. " + TRUST)
ABOUT["C13"] = ABOUT["C12"]
ABOUT["C17"] = ABOUT["C16"]
ABOUT["C19"] = ABOUT["C20"] = ABOUT["C18"]


# ------------------------------------------------------------------ vectors
def vec_traces(ctx, profile, rules, quick, thorough, build="dev", batch=5000, seed_shift=0, events=None, size="blocks", conv=False):
    """Record histories of the real vectors and validate them against VecTrace"""
    prog = os.path.join(lib.build("vec", build), "vecdrv")
    total = ctx.pick(quick, thorough)
    done = 0
    while done < total:
        n = min(batch, total - done)
        out = os.path.join(lib.scratch(), "%s-%s-%s-%d.ndjson" % (profile, build, size, done))
        args = ["--profile", profile, "--size", size] + (["--events", str(events)] if events else []) + (["--conv", "1"] if conv else [])
        got, deaths = lib.record(prog, "record", args, n, ctx.seed + 1000 * seed_shift, out, first=done)
        r = lib.validate("VecTrace", "VecTrace.cfg", out, rules)
        ctx.add(r)
        ctx.traces += got
        if done == 0:
            tr = json.loads(lib.nth_line(out, 1 + ctx.seed % max(1, got)))
            ctx.sample({"module": tr["h"]["mod"], "type": tr["h"]["ty"], "operations": [e["o"] for e in tr["e"]][:20],
                        "third_event": tr["e"][min(2, len(tr["e"]) - 1)]})
        ctx.note("processes_that_died", deaths)
        os.remove(out)
        done += n
    return prog


def vec_sizes(ctx, profile, rules, quick, thorough, build="dev", seed_shift=0):
    """Histories on vectors of a few blocks, of some thousand and of more than 65536 elements"""
    vec_traces(ctx, profile, rules, quick, thorough, build, seed_shift=seed_shift)
    vec_traces(ctx, profile, rules, quick // 6, thorough // 6, build, seed_shift=seed_shift + 20, size="long", events=24, batch=2000)
    vec_traces(ctx, profile, rules, 40, 800, build, seed_shift=seed_shift + 40, size="huge", events=12, batch=200)


def giants(ctx, profile, quick=12, thorough=96, events=16):
    """Histories of vectors and sets of more than 2^32 bits, half a gigabyte each"""
    prog = os.path.join(lib.build("giant", "rel"), "giant")
    done, total = 0, ctx.pick(quick, thorough)
    while done < total:
        n = min(24, total - done)
        out = os.path.join(lib.scratch(), "giant-%s-%d.ndjson" % (profile, done))
        got, deaths = lib.record([prog], None, ["--profile", profile, "--events", str(events)], n, ctx.seed, out, first=done, mem_gb=3)
        if got == 0:
            break
        ctx.add(lib.validate("GiantTrace", "GiantTrace.cfg", out, [profile]))
        ctx.traces += got
        ctx.note("histories_past_2_32_bits", got)
        ctx.note("processes_that_died", deaths)
        os.remove(out)
        done += n
    if ctx.thorough:
        r = lib.tlc("GiantRef", "GiantRef.cfg")
        if not r.ok:
            raise ToolError("Giant does not mean what VecSem means: %s" % r.broken)
        ctx.add(r)


EDIT = ["push", "pop", "get", "set", "swap", "swap_remove", "insert", "remove", "truncate", "clear", "len"]
BULK = ["from_elem", "from_slice", "clone", "extend", "extend_iter", "resize", "append", "split_off", "retain", "for_each", "to_vec"]
POS = ["get", "set", "remove", "swap_remove", "insert", "split_off", "swap", "pop", "truncate", "resize"]
MEM = ["reserve", "shrink", "push", "insert", "extend", "resize", "append", "split_off", "truncate", "from_elem", "clone"]


@check("C01")
def c01(ctx):
    vec_sizes(ctx, "edit", ["edit"], 4000, 60000)
    giants(ctx, "edit")
    impl.walks(ctx, EDIT, ["edit"])
    if ctx.thorough:
        impl.as_found(ctx, ["remove_unused_bits", "wide_shift"])


@check("C02")
def c02(ctx):
    vec_sizes(ctx, "bulk", ["bulk"], 4000, 60000)
    giants(ctx, "bulk", 8, 48, 10)
    # elements visited one by one
    giants(ctx, "sweep", 6, 48, 10)
    impl.walks(ctx, BULK, ["bulk"])
    if ctx.thorough:
        impl.as_found(ctx, ["split_storage", "append_len"])


@check("C03")
def c03(ctx):
    vec_sizes(ctx, "query", ["query"], 4000, 60000)
    giants(ctx, "query")
    impl.walks(ctx, ["any", "all"], ["query"])


@check("C04")
def c04(ctx):
    vec_sizes(ctx, "eq", ["eq"], 4000, 60000)
    giants(ctx, "eq", 8)
    impl.walks(ctx, ["eq"], ["eq"])


@check("C05")
def c05(ctx):
    vec_sizes(ctx, "iter", ["iter"], 4000, 60000)
    giants(ctx, "iter")
    # every script of three calls on every length up to five, on types in turn: 15^3 * 3 scripts * 6 lengths
    vec_traces(ctx, "iterx", ["iter"], 6 * 254, 6 * 254 * 20, events=41, seed_shift=3)


@check("C06")
def c06(ctx):
    vec_sizes(ctx, "oob", ["oob"], 3000, 40000)
    giants(ctx, "oob")
    vec_sizes(ctx, "oob", ["oob"], 1500, 20000, build="rel", seed_shift=1)
    impl.walks(ctx, POS, ["oob"], edge=True)
    if ctx.thorough:
        impl.walks(ctx, POS, ["oob"], build="rel", edge=True)
        impl.as_found(ctx, ["insert_oob"])


@check("C07")
def c07(ctx):
    vec_sizes(ctx, "dens", ["dens"], 4000, 60000)
    giants(ctx, "mem", 8, 48)
    admit.probes(ctx, 0, ["dens"], run_only=True)
    impl.walks(ctx, MEM, ["dens"])
    if ctx.thorough:
        lib.prove(ctx, "Numbering")


@check("C08")
def c08(ctx):
    vec_sizes(ctx, "cap", ["cap"], 3000, 40000)
    giants(ctx, "mem")
    vec_sizes(ctx, "cap", ["cap"], 1500, 20000, build="rel", seed_shift=1)
    impl.walks(ctx, MEM, ["cap"])


@check("C09")
def c09(ctx):
    vec_sizes(ctx, "panic", ["panic"], 4000, 60000)
    # caller code fails in the storages of the model
    impl.walks(ctx, ["none"], ["panic"], faults=ctx.pick(400, 8000))


@check("C10")
def c10(ctx):
    vec_sizes(ctx, "indep", ["indep"], 4000, 60000)
    giants(ctx, "indep", 8, 96, 10)
    impl.walks(ctx, ["clone", "append", "split_off", "extend_iter"], ["indep"])


@check("C23")
def c23(ctx):
    vec_sizes(ctx, "raw", ["raw"], 4000, 60000)
    giants(ctx, "raw")
    impl.walks(ctx, ["get_raw", "set_raw", "raw_push", "set_len", "get"], ["raw"])


@check("C24")
def c24(ctx):
    vec_sizes(ctx, "blocks", ["blocks"], 4000, 60000)
    giants(ctx, "blocks")
    impl.walks(ctx, ["blk_zero", "blk_copy", "transplant", "pad"], ["blocks"], blocks=True)


def lockstep_death(program, sub, args, seed, ident, head, nevents, pending):
    """A module died: run each alone; the digest of a dead one is -1"""
    import subprocess
    xs = []
    for k in range(len(head["mods"])):
        pend = os.path.join(lib.scratch(), "only-%d-%d" % (ident, k))
        p = subprocess.run([program, sub] + args + ["--seed", str(seed), "--start", str(ident), "--stride", "1", "--count", str(ident + 1),
                           "--out", "/dev/null", "--only", str(k), "--pending", pend], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           preexec_fn=lib.limits())
        _, ev, pe = lib.parse_pending(pend)
        if len(ev) > nevents:
            xs.append(ev[nevents]["x"][0])
        else:
            xs.append(-1)
    pending.update({"r": ["x"], "d": [], "x": xs})
    return pending


@check("C11")
def c11(ctx):
    prog = os.path.join(lib.build("vec"), "vecdrv")
    for size, total, batch, events in (("blocks", ctx.pick(4000, 60000), 5000, 30), ("long", ctx.pick(420, 8000), 2000, 20), ("huge", ctx.pick(38, 760), 190, 10)):
        agree(ctx, prog, size, total, batch, events)


def agree(ctx, prog, size, total, batch, events):
    done = 0
    while done < total:
        n = min(batch, total - done)
        out = os.path.join(lib.scratch(), "agree-%s-%d.ndjson" % (size, done))
        got, deaths = lib.record(prog, "lockstep", ["--size", size, "--events", str(events)], n, ctx.seed, out, first=done, crash_event=lockstep_death)
        r = lib.validate("VecTrace", "VecTrace.cfg", out, ["agree"])
        ctx.add(r)
        ctx.traces += got
        if done == 0:
            tr = json.loads(lib.nth_line(out, 1 + ctx.seed % got))
            ctx.sample({"modules": tr["h"]["mods"], "type": tr["h"]["ty"], "operations": [e["o"] for e in tr["e"]][:20]})
        os.remove(out)
        done += n


# ----------------------------------------------------------------- EnumLike
@check("C12")
def c12(ctx):
    like.provided(ctx, like.BIJ)
    if ctx.thorough:
        lib.prove(ctx, "Numbering")


@check("C13")
def c13(ctx):
    like.provided(ctx, like.NUM)


@check("C16")
def c16(ctx):
    like.derived(ctx, like.BIJ + ("oor",))
    if ctx.thorough:
        lib.prove(ctx, "Numbering")


@check("C17")
def c17(ctx):
    like.derived(ctx, like.NUM)


def like_traces(ctx, program, module, total, rules, args=(), batch=6000, seed_shift=0, harness="like"):
    """Record histories with a program and validate them"""
    prog = os.path.join(lib.build(harness), program)
    done = 0
    while done < total:
        n = min(batch, total - done)
        out = os.path.join(lib.scratch(), "%s-%d.ndjson" % (program, done))
        got, deaths = lib.record([prog], None, list(args), n, ctx.seed + seed_shift, out, first=done)
        r = lib.validate(module, module + ".cfg", out, rules)
        ctx.add(r)
        ctx.traces += got
        ctx.note("processes_that_died", deaths)
        if done == 0:
            tr = json.loads(lib.nth_line(out, 1 + ctx.seed % max(1, got)))
            ctx.sample({"type": tr["h"]["ty"], "events": tr["e"][:4]})
        os.remove(out)
        done += n


@check("C14")
def c14(ctx):
    like_traces(ctx, "values", "ValuesTrace", ctx.pick(6000, 60000), ["values"])
    like_traces(ctx, "values", "ValuesTrace", ctx.pick(6 * 1024, 6 * 4096), ["values"], args=["--exhaustive", "1"])


@check("C15")
def c15(ctx):
    like_traces(ctx, "packed", "PackedTrace", ctx.pick(1700, 17000), ["packed"])


@check("C22")
def c22(ctx):
    like.store(ctx)


@check("C25")
def c25(ctx):
    r = lib.tlc("Shared", "Shared.cfg")
    if not r.ok:
        raise ToolError("the model of readers is inconsistent: %s" % r.broken)
    ctx.add(r)
    try:
        lib.build("share")
    except lib.BuildError as e:
        for h in ("vec", "sets", "like"):
            lib.build(h)        # without threads it compiles?
        raise Violation("a vector, set or iterator can no longer be shared between threads: " + e.text[:800], {"spec": "Shared", "compiler": e.text[-4000:]})
    like_traces(ctx, "share", "SharedTrace", ctx.pick(1500, 20000), ["shared"], args=["--times", str(ctx.pick(60, 400))], harness="share", batch=2500)


CONV = ["push", "pop", "set", "insert", "remove", "swap_remove", "swap", "extend", "resize", "retain", "for_each", "append", "extend_iter", "split_off", "get"]


@check("C26")
def c26(ctx):
    r = lib.tlc("Torn", "Torn.cfg")
    if not r.ok:
        raise ToolError("the model of interrupted operations is inconsistent: %s" % r.broken)
    ctx.add(r)
    if ctx.thorough:
        cfg = os.path.join(lib.scratch(), "Torn.cfg")
        with open(os.path.join(lib.SPEC, "Torn.cfg")) as i, open(cfg, "w") as o:
            o.write(i.read().replace("LengthFirst = FALSE", "LengthFirst = TRUE"))
        if lib.tlc("Torn", cfg).ok:
            raise ToolError("the model does not notice that the length is raised too early")
        ctx.note("as_found_refuted", 1)
    vec_sizes(ctx, "conv", ["conv"], 3000, 40000)
    impl.walks(ctx, CONV, ["conv"], faults=ctx.pick(400, 8000), conv=True)


# --------------------------------------------------------------------- sets
def set_traces(ctx, profile, rule, quick, thorough):
    like_traces(ctx, "sets", "SetTrace", ctx.pick(quick, thorough), [rule], args=["--profile", profile], harness="sets")
    # sets of up to 260 values
    like_traces(ctx, "sets", "SetTrace", ctx.pick(420, 12000), [rule], args=["--profile", "big"], harness="sets")
    # every pair of subsets of five values, reached by different histories
    like_traces(ctx, "sets", "SetTrace", ctx.pick(1024, 1024 * 12), [rule], args=["--profile", "pairs"], harness="sets")


@check("C18")
def c18(ctx):
    set_traces(ctx, "edit", "set", 3000, 60000)
    giants(ctx, "set", 8, 32, 14)


@check("C19")
def c19(ctx):
    set_traces(ctx, "iter", "algebra", 3000, 60000)
    giants(ctx, "algebra", 8, 32, 14)


@check("C20")
def c20(ctx):
    set_traces(ctx, "order", "order", 3000, 60000)


@check("C21")
def c21(ctx):
    admit.probes(ctx, 0, ["admit"])
    if ctx.thorough:
        admit.probes(ctx, 2, ["admit"])


@check("C27")
def c27(ctx):
    like_traces(ctx, "sets", "SetTrace", ctx.pick(6000, 80000), ["faults"], args=["--profile", "faults"], harness="sets")


@check("C28")
def c28(ctx):
    like_traces(ctx, "sets", "SetTrace", ctx.pick(6000, 80000), ["mem"], args=["--profile", "mem"], harness="sets")


@check("C29")
def c29(ctx):
    r = lib.tlc("Own", "Own.cfg")
    if not r.ok:
        raise ToolError("the model of owners is inconsistent: %s" % r.broken)
    ctx.add(r)
    if ctx.thorough:
        for b in ("clone_shares", "append_forgets", "iter_forgets", "retain_takes", "drop_twice"):
            cfg = os.path.join(lib.scratch(), "Own.cfg")
            with open(os.path.join(lib.SPEC, "Own.cfg")) as i, open(cfg, "w") as o:
                o.write(i.read().replace('Bug = ""', 'Bug = "%s"' % b))
            if lib.tlc("Own", cfg).ok:
                raise ToolError("the model does not notice the defect " + b)
            ctx.note("wrong_models_refuted", 1)
    vec_sizes(ctx, "heap", ["heap"], 4000, 60000)
    # conversions that panic
    vec_traces(ctx, "heap", ["heap"], 1200, 20000, seed_shift=7, conv=True)
    like_traces(ctx, "sets", "SetTrace", ctx.pick(4000, 60000), ["heap"], args=["--profile", "heap"], harness="sets")
