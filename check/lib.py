"""Shared machinery of the checks: builds, recordings, TLC runs, evidence."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    """The check itself could not give an answer (exit 2)."""


class Violation(Exception):
    """The real code left the specification."""

    def __init__(self, what, data):
        super().__init__(what)
        self.what = what
        self.data = data


# ---------------------------------------------------------------- builds
def source_files(roots):
    out = []
    for root in roots:
        if os.path.isfile(root):
            out.append(root)
            continue
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "target", "build", "__pycache__"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock", ".sh")):
                    out.append(os.path.join(d, f))
    return out


def content_hash(roots):
    h = hashlib.sha256()
    for f in source_files(roots):
        h.update(f.encode())
        h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:16]


def cargo_env():
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTFLAGS"] = "-Awarnings"
    env.pop("CARGO_TARGET_DIR", None)
    return env


class BuildError(ToolError):
    """The program does not compile; text has the compiler's messages."""

    def __init__(self, harness, text):
        super().__init__("building %s failed:\n%s" % (harness, text[-6000:]))
        self.text = text


CRATES = ("enum_like", "enum_like_derive", "enum_set", "enum_vec")


def build(harness, profile="dev", bins=None, timeout=700, gen=None, variant=""):
    """Builds a harness crate against /repo's working tree; returns the directory of its programs.

    The target directory is named after the content of all sources, so that a stale program is never used.
    gen: text of a generated source file that the crate includes; variant: keeps its builds apart."""
    src = os.path.join(VERIF, "harness", harness)
    key = content_hash([os.path.join(REPO, x) for x in CRATES] + [os.path.join(VERIF, "harness")])
    env = cargo_env()
    base = os.path.join(BUILD, "cargo", harness + variant)
    if gen is not None:
        key = hashlib.sha256((key + gen).encode()).hexdigest()[:16]
        d = os.path.join(base, key, "gen")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "types.rs")
        if not os.path.exists(path) or open(path).read() != gen:
            with open(path, "w") as f:
                f.write(gen)
        env["LIKE_GEN"] = d
    target = os.path.join(base, key)
    if os.path.isdir(base):
        for d in os.listdir(base):
            if d != key:
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    os.makedirs(target, exist_ok=True)
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", profile, "--target-dir", target]
    for b in bins or []:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError(harness, p.stdout.decode(errors="replace"))
    return os.path.join(target, "debug" if profile == "dev" else profile)


# ---------------------------------------------------------------- scratch
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(BUILD, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    return _scratch


def cleanup():
    global _scratch
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


# ---------------------------------------------------------------- TLC
def tla_value(text):
    """An integer, string, ... printed by TLC (only what is needed here)."""
    text = text.strip()
    try:
        return int(text)
    except ValueError:
        return text


class Tlc:
    """One run of TLC, possibly in the background."""

    def __init__(self, module, cfg, env=None, workers=CPUS, heap="6g", extra=None, name=None, stdout=None):
        self.name = name or module
        self.meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
        e = dict(os.environ)
        e.update(env or {})
        self.out = os.path.join(self.meta, "out.txt")
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers),
               "-noGenerateSpecTE", "-metadir", os.path.join(self.meta, "m"), "-config", cfg] + (extra or []) + [module + ".tla"]
        self.cmd = cmd
        self.t0 = time.time()
        self.fh = open(self.out, "wb")
        self.p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=self.fh, stderr=subprocess.STDOUT)

    def wait(self, timeout=800):
        try:
            self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise ToolError("TLC timed out on %s" % self.name)
        self.fh.close()
        self.wall = time.time() - self.t0
        with open(self.out, errors="replace") as f:
            t = f.read()
        self.text = t
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", t.replace(",", ","))
        m = m or re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", t)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        self.deadlock = "Deadlock reached" in t
        inv = re.search(r"Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were violated|is violated", t)
        self.broken = inv.group(0) if inv else None
        self.ok = "Model checking completed. No error has been found" in t
        if not (self.ok or self.deadlock or self.broken):
            raise ToolError("TLC failed on %s:\n%s" % (self.name, t[-5000:]))
        return self

    def last_state(self):
        """Variables of the last state of the printed error trace (first lines of each only)."""
        parts = re.split(r"\nState \d+:", self.text)
        if len(parts) < 2:
            return {}
        body = parts[-1].split("\n\n")[0]
        out = {}
        for m in re.finditer(r"/\\ (\w+) = ([^\n]*)", body):
            out[m.group(1)] = tla_value(m.group(2))
        return out


def tlc(module, cfg, **kw):
    timeout = kw.pop("timeout", 800)
    return Tlc(module, cfg, **kw).wait(timeout)


# ---------------------------------------------------------------- recordings
def limits(mem_gb=6):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def parse_pending(path):
    head, events, pending = None, [], None
    with open(path, errors="replace") as f:
        for line in f:
            if not line.endswith("\n"):
                break
            kind, body = line[0], line[2:]
            try:
                body = json.loads(body)
            except ValueError:
                break
            if kind == "H":
                head = body["h"]
            elif kind == "P":
                pending = body
            elif kind == "E":
                events.append(body)
                pending = None
    return head, events, pending


def cmdline(program, sub):
    return (program if isinstance(program, list) else [program]) + ([sub] if sub else [])


def record(program, sub, args, count, seed, out, timeout=600, crash_event=None, first=0, mem_gb=6):
    """Records `count` histories with CPUS processes; a process that dies has its last history completed
    by an event that says so. Returns the number of histories and of deaths."""
    d = tempfile.mkdtemp(prefix="rec-", dir=scratch())
    t_end = time.time() + timeout
    deaths = 0

    def start(k, first_id):
        f = os.path.join(d, "w%d-%d" % (k, first_id))
        p = subprocess.Popen(cmdline(program, sub) + args + ["--seed", str(seed), "--start", str(first_id), "--stride", str(CPUS),
                             "--count", str(first + count), "--out", f], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limits(mem_gb))
        return (k, first_id, f, p)

    running = [start(k, first + k) for k in range(CPUS) if k < count]
    files = []
    while running:
        k, first_id, f, p = running.pop(0)
        try:
            err = p.communicate(timeout=max(1, t_end - time.time()))[1]
        except subprocess.TimeoutExpired:
            p.kill()
            raise ToolError("recording timed out")
        files.append(f)
        if p.returncode == 0:
            continue
        if p.returncode == 3:
            raise ToolError("driver error: " + err.decode(errors="replace")[-2000:])
        # which history was it in?
        n = sum(1 for _ in open(f, "rb")) if os.path.exists(f) else 0
        bad = first_id + n * CPUS
        deaths += 1
        tr = died(program, sub, args, seed, bad, p.returncode, crash_event)
        g = os.path.join(d, "x%d" % bad)
        with open(g, "w") as fh:
            fh.write(json.dumps(tr, separators=(",", ":")) + "\n")
        files.append(g)
        if deaths < 40 and bad + CPUS < first + count:
            running.append(start(k, bad + CPUS))
    total = 0
    with open(out, "ab") as o:
        for f in files:
            if os.path.exists(f):
                with open(f, "rb") as i:
                    for line in i:
                        if line.endswith(b"\n"):
                            o.write(line)
                            total += 1
    shutil.rmtree(d, ignore_errors=True)
    return total, deaths


def died(program, sub, args, seed, ident, code, crash_event):
    """The history in which the process died, up to and including the operation it died in"""
    pend = os.path.join(scratch(), "pending-%d" % ident)
    p = subprocess.run(cmdline(program, sub) + args + ["--seed", str(seed), "--start", str(ident), "--stride", "1", "--count", str(ident + 1),
                       "--out", "/dev/null", "--pending", pend], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limits())
    head, events, pending = parse_pending(pend)
    if head is None or (pending is None and p.returncode == 101):
        raise ToolError("driver died (%s) outside an operation: %s" % (code, p.stderr.decode(errors="replace")[-1500:]))
    if pending is not None and p.returncode != 0:
        if crash_event:
            pending = crash_event(program, sub, args, seed, ident, head, len(events), pending)
        else:
            pending.update({"r": ["m" if p.returncode == 77 else "x"], "d": [], "m": [], "b": [0, 0], "t": "", "x": [], "h": [[], [], []], "n": [], "z": []})
        events.append(pending)
    return {"h": head, "e": events}


def nth_line(path, n):
    with open(path) as f:
        for k, line in enumerate(f, 1):
            if k == n:
                return line
    return None


def validate(module, cfg, trace_file, rules, workers=CPUS, timeout=800, extra_env=None):
    """Checks recorded traces against a trace specification. Raises Violation on a rejected trace."""
    chk = os.path.join(scratch(), "rules-%s.json" % "-".join(rules))
    with open(chk, "w") as f:
        f.write(json.dumps({"rules": rules}) + "\n")
    env = {"TRACE_FILE": trace_file, "CHECK_FILE": chk}
    env.update(extra_env or {})
    r = tlc(module, cfg, env=env, workers=workers, timeout=timeout, heap="10g")
    if r.deadlock:
        s = r.last_state()
        tid, l = s.get("tid"), s.get("l")
        if not isinstance(tid, int) or not isinstance(l, int):
            raise ToolError("cannot read the rejected trace from TLC's output:\n" + r.text[-3000:])
        tr = json.loads(nth_line(trace_file, tid))
        ev = tr["e"][l - 1]
        raise Violation("event %d of history %s (%s %s) is not allowed by %s: %s" % (
            l, tr["h"].get("id"), tr["h"].get("mod"), tr["h"].get("ty"), module, json.dumps(ev)[:600]),
            {"spec": module, "rules": rules, "header": tr["h"], "rejected_event": l, "events": tr["e"][:l]})
    if r.broken:
        raise ToolError("unexpected: " + r.broken + "\n" + r.text[-3000:])
    return r


# ---------------------------------------------------------------- results
def prove(ctx, module):
    """The lemmas of a module, with tlapm. They speak about the specification only, so that a prover that gives up decides nothing."""
    d = os.path.join(scratch(), "tlapm-" + module)
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(SPEC, module + ".tla"), d)
    try:
        p = subprocess.run(["tlapm", "--threads", "8", module + ".tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
        m = re.search(r"All (\d+) obligations proved", p.stdout.decode(errors="replace"))
    except (OSError, subprocess.TimeoutExpired):
        m = None
    ctx.note("tlapm_" + module, "all %s obligations proved" % m.group(1) if m else "not proved in this run")


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def add(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(short(x))

    def note(self, key, value, add=True):
        if add and isinstance(value, int) and key in self.notes:
            self.notes[key] += value
        else:
            self.notes[key] = value

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)


def short(x, most=24):
    """A sample that fits into the evidence: long lists and texts are cut"""
    if isinstance(x, dict):
        return {k: short(v, most) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [short(v, most) for v in x[:most]] + (["... %d in all" % len(x)] if len(x) > most else [])
    if isinstance(x, str) and len(x) > 2000:
        return x[:2000] + "..."
    return x


def load_findings():
    """Known findings that are recorded and not repaired: (property, pattern of the violation, text)."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", line.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


def write_replay(ctx, v):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (ctx.prop, ctx.tier, ctx.seed))
    with open(path, "w") as f:
        json.dump({"property": ctx.prop, "seed": ctx.seed, "what": v.what, "data": v.data}, f, indent=1)
    return path
