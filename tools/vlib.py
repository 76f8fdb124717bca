"""Common machinery of all checks: building the harness from /repo's working
tree, running TLC, running the harness, validating traces, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, signal
import threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"


class Broken(Exception):
    """The check itself does not work: no verdict."""


class Ctx:
    """State of one run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.rng = random.Random(SEED * 7919 + sum(map(ord, prop)))
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.bin = None
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.notes = {}
        self.violations = []

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.tmp, name)

    def pick(self, quick, thorough):
        return thorough if THOROUGH else quick

    # -- evidence and verdict ------------------------------------------------
    def violation(self, what, replay):
        """Records a violation that the real code showed."""
        self.violations.append((what, replay))

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def finish(self):
        known = known_findings(self.prop)
        bad = []
        for what, replay in self.violations:
            k = [x for x in known if x["key"] and x["key"] in what]
            if not k:
                bad.append((what, replay))
        for x in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, x["text"]))
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED,
            "level": "model_checking",
            "coverage": dict(
                states=self.states, transitions=self.transitions,
                traces_validated_against_impl=self.traces,
                samples=self.samples, **self.notes),
            "wall_s": round(time.time() - self.t0, 2),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if not bad:
            print("%s: held (%d states, %d traces, %.1f s)" % (
                self.prop, self.states, self.traces, time.time() - self.t0))
            return 0
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, (what, replay) in enumerate(bad[:5]):
            p = os.path.join(rd, "%s-%d.json" % (self.prop, i))
            with open(p, "w") as f:
                json.dump({"property": self.prop, "what": what, "seed": SEED,
                           "tier": TIER, "replay": replay}, f, indent=1)
            print("%s: %s" % (self.prop, what))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        return 1


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=\"([^\"]*)\" (.*)", line)
            if m and m.group(1) == prop:
                out.append({"key": m.group(2), "text": m.group(3)})
    return out


# -- building ----------------------------------------------------------------
def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/opt/veriftools/go1.23.12/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOROOT="/opt/veriftools/go1.23.12", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod",
             GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def build(ctx, race=False):
    """Builds the harness against /repo's working tree."""
    repl = {}
    for f in sorted(os.listdir(HARN)):
        if f.endswith(".go"):
            repl[os.path.join(REPO, "verifharness", f)] = os.path.join(HARN, f)
    ov = ctx.path("overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": repl}, f)
    out = ctx.path("harness" + ("-race" if race else ""))
    cmd = ["go", "build", "-overlay", ov, "-tags=nolog", "-buildvcs=false",
           "-ldflags=-checklinkname=0", "-o", out]
    # Leave go.mod and go.sum alone, whatever they are like.
    for x in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, x), ctx.path(x))
    cmd += ["-modfile", ctx.path("go.mod")]
    if race:
        cmd.append("-race")
    r = subprocess.run(cmd + ["./verifharness"], cwd=REPO, env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=600)
    if r.returncode != 0:
        raise Broken("harness does not build:\n" + r.stdout.decode()[-4000:])
    if not race:
        ctx.bin = out
    return out


# -- TLC ---------------------------------------------------------------------
def cfg(init="Init", next="Next", spec=None, constants=None, invariants=(),
        properties=(), constraints=(), action_constraints=(),
        postcondition=None, view=None):
    l = []
    if spec:
        l.append("SPECIFICATION " + spec)
    else:
        l += ["INIT " + init, "NEXT " + next]
    if constants:
        l.append("CONSTANTS")
        l += ["  %s = %s" % kv for kv in constants.items()]
    if invariants:
        l.append("INVARIANTS " + " ".join(invariants))
    if properties:
        l.append("PROPERTIES " + " ".join(properties))
    if constraints:
        l.append("CONSTRAINTS " + " ".join(constraints))
    if action_constraints:
        l.append("ACTION_CONSTRAINTS " + " ".join(action_constraints))
    if postcondition:
        l.append("POSTCONDITION " + postcondition)
    if view:
        l.append("VIEW " + view)
    l.append("CHECK_DEADLOCK FALSE")
    return "\n".join(l) + "\n"


_n = [0]


def tlc(ctx, module, cfgtext, workers=4, simulate=None, depth=None, env=None,
        timeout=600, dfs=False, seed=None, heap="3g"):
    """Runs TLC and returns its output."""
    _n[0] += 1
    n = _n[0]
    c = ctx.path("m%d.cfg" % n)
    with open(c, "w") as f:
        f.write(cfgtext)
    md = ctx.path("md%d" % n)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx" + heap]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-Djava.io.tmpdir=" + ctx.tmp, "-cp", TLA, "tlc2.TLC",
            "-metadir", md, "-config", c,
            "-workers", str(workers), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % max(1, simulate // workers)]
        cmd += ["-depth", str(depth or 100)]
        cmd += ["-seed", str(SEED if seed is None else seed)]
    cmd.append(module + ".tla")
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise Broken("TLC timed out on %s after %d s\n%s" % (
            module, timeout, (x.stdout or b"").decode()[-1500:]))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = r.stdout.decode(errors="replace")
    if r.returncode != 0 or "Error:" in out:
        raise Broken("TLC failed on %s (exit %d):\n%s" % (
            module, r.returncode,
            out[max(out.find("Error"), out.find("***"), 0):][:1500]))
    return out


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m[-1][1]), int(m[-1][0])
    m = re.findall(r"number of states generated: (\d+)", out)
    return (0, int(m[-1])) if m else (0, 0)


def model_check(ctx, module, cfgtext, **kw):
    """Exhaustive check of the specification itself."""
    out = tlc(ctx, module, cfgtext, **kw)
    if "No error has been found" not in out:
        raise Broken("no verdict of TLC on %s:\n%s" % (module, out[-2000:]))
    s, t = stats(out)
    ctx.states += s
    ctx.transitions += t
    ctx.notes.setdefault("models", []).append(
        {"module": module, "states": s, "transitions": t})
    return out


def printed(out, tag):
    """JSON values that were printed as <<tag, json>>."""
    res = []
    for m in re.finditer(r'<<\s*"%s",\s*"((?:[^"\\]|\\.)*)"\s*>>' % tag, out):
        s = m.group(1)
        res.append(json.loads(s.replace('\\"', '"').replace('\\\\', '\\')))
    return res


def generate(ctx, module, cfgtext, tag, num, depth, workers=4, seed=None,
             timeout=300):
    out = tlc(ctx, module, cfgtext, workers=workers, simulate=num,
              depth=depth, seed=seed, timeout=timeout)
    g = printed(out, tag)
    s, t = stats(out)
    ctx.notes["generated_states"] = ctx.notes.get("generated_states", 0) + t
    if not g:
        raise Broken("nothing generated by %s" % module)
    return g


# -- harness -----------------------------------------------------------------
CRASHLOC = re.compile(r"^(github\.com/carlakc/boltnd\S*)", re.M)


class Crash(Exception):
    def __init__(self, text, running):
        self.text, self.running = text, running


def patience(cases, quiet):
    """How long it may take at most until the next scenario ends, in s."""
    most = 0
    for c in cases:
        l = c.get("sched") or []
        most = max(most, sum(
            x.get("m", 0) if x.get("a") == "hold" else 2 * quiet
            for x in l if isinstance(x, dict)))
    return (400 if THOROUGH else 120) + most / 1000.0


def execute(ctx, cmd, env, timeout, idle):
    """Runs a harness until it ends, or nothing comes from it for long."""
    p = subprocess.Popen(cmd, cwd=ctx.tmp, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    out, err, last = [], [], [time.time()]

    def reader(f, to):
        for line in f:
            to.append(line)
            last[0] = time.time()

    ts = [threading.Thread(target=reader, args=x, daemon=True)
          for x in ((p.stdout, out), (p.stderr, err))]
    for t in ts:
        t.start()
    end, stuck = time.time() + timeout, False
    while True:
        try:
            p.wait(0.05)
            break
        except subprocess.TimeoutExpired:
            now = time.time()
            if now > end or now > last[0] + idle:
                stuck = True
                break
    if stuck:
        # It says what all its goroutines are doing.
        os.killpg(p.pid, signal.SIGQUIT)
        try:
            p.wait(10)
        except subprocess.TimeoutExpired:
            pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    for t in ts:
        t.join(20)
    return (b"".join(out).decode(errors="replace"),
            b"".join(err).decode(errors="replace"), p.returncode, stuck)


def run_harness(ctx, mode, cases, quiet=25, workers=48, timeout=600, seed=None,
                binary=None, env=None, again=2):
    """Runs the cases, returns (results by id, crash or None). A crash is the
    end of the process by a panic or fatal error in boltnd's code, or a
    scenario that doesn't come to an end however often it is tried."""
    _n[0] += 1
    inp = ctx.path("in%d.ndjson" % _n[0])
    with open(inp, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    e = goenv()
    e["GOTRACEBACK"] = "all"
    e["HOME"] = ctx.tmp
    e.update(env or {})
    out, err, code, stuck = execute(
        ctx, [binary or ctx.bin, mode, inp,
              str(SEED if seed is None else seed), str(quiet), str(workers)],
        e, timeout, patience(cases, quiet))
    res, running, done = {}, {}, False
    for line in out.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if "begin" in d:
            running[d["begin"]] = True
        elif "done" in d:
            done = True
        else:
            running.pop(d["id"], None)
            res[d["id"]] = d
    if stuck:
        text = "scenarios never came to their end: %s\n%s" % (
            list(running)[:20], boltnd_stacks(err))
        if not running:
            raise Broken("harness %s: %s" % (mode, text))
        if not again:
            return res, Crash(text, list(running))
        some = [c for c in cases if c["id"] in running][:workers]
        for _ in range(again):
            r2, crash = run_harness(ctx, mode, some, quiet, workers, timeout,
                                    seed, binary, env, again=0)
            if crash:
                return res, crash
            res.update(r2)
        rest = [c for c in cases if c["id"] not in res]
        if rest:
            r2, crash = run_harness(ctx, mode, rest, quiet, workers, timeout,
                                    seed, binary, env, again=0)
            res.update(r2)
            return res, crash
        return res, None
    if code == 0 and done:
        return res, None
    if "HARNESS-ERROR" in err or code == 3:
        i = err.find("HARNESS-ERROR")
        raise Broken(err[max(i, 0):][:3000])
    if code == 2 and ("panic:" in err or "fatal error:" in err):
        # Whose code was it?
        i = err.find("panic:")
        if i < 0:
            i = err.find("fatal error:")
        tail = err[i:]
        first = re.search(r"^goroutine .*?(?=^$|\Z)", tail, re.M | re.S)
        st = first.group(0) if first else tail
        k = st.rfind("\npanic(")
        if k >= 0:
            st = st[k:]
        # Either it happened there, or in what boltnd called with something
        # that couldn't be expected.
        own = None
        for fr in re.findall(r"^(\S+)\(", st, re.M):
            if re.match(r"github\.com/carlakc/boltnd(?!/verifharness)", fr):
                own = True
                break
            if fr.startswith("main.") or "boltnd/verifharness" in fr:
                own = False
        if own is None and "unexpectedly large" not in tail and \
                re.search(r"github\.com/carlakc/boltnd/(?!verifharness)",
                          tail):
            own = True
        if own:
            return res, Crash("the process crashed: " + tail[:3000],
                              list(running))
    raise Broken("harness %s ended with %s:\n%s" % (
        mode, code, err[:1500] + "\n...\n" + err[-1500:]))


def boltnd_stacks(err):
    """The goroutines of a dump that are in boltnd's code."""
    out = [g for g in err.split("\n\n") if g.startswith("goroutine ") and
           re.search(r"^github\.com/carlakc/boltnd(?!/verifharness)", g, re.M)]
    return "\n\n".join(out)[:6000]


# -- trace validation --------------------------------------------------------
def validate(ctx, module, traces, constants=None, invariants=("TypeOKT",),
             batch=None, timeout=600, par=4, heap="3g", view=None,
             budget=20000, again=True):
    """Checks traces with a trace specification. Returns the number of matched
    events for each trace. Traces that would need more states than the budget
    to decide are counted as undecided, and as matched."""
    if not traces:
        return []
    if batch is None:
        batch = max(1, (len(traces) + par - 1) // par)
    c = cfg(init="TInit", next="TNext",
            constants=dict(constants or {}, Budget=budget),
            constraints=("Progress",), invariants=invariants,
            postcondition="Report", view=view)
    # Interleave so that the batches take about the same time.
    k = (len(traces) + batch - 1) // batch
    groups = [list(range(i, len(traces), k)) for i in range(k)]
    files = []
    for g in groups:
        _n[0] += 1
        f = ctx.path("tr%d.ndjson" % _n[0])
        with open(f, "w") as h:
            for i in g:
                h.write(json.dumps(traces[i]) + "\n")
        files.append(f)

    def one(f):
        return tlc(ctx, module, c, workers=1, env={"TRACES": f}, dfs=True,
                   timeout=timeout, heap=heap)

    matched, undecided = [None] * len(traces), []
    with ThreadPoolExecutor(par) as ex:
        for g, out in zip(groups, ex.map(one, files)):
            r = printed(out, "MATCHED")
            if len(r) != 1 or len(r[0]) != len(g):
                raise Broken("no result of trace validation:\n" + out[-2000:])
            for i, (v, n) in zip(g, r[0]):
                matched[i] = v
                if v < len(traces[i]["ev"]) and n > budget:
                    undecided.append(i)
            s, t = stats(out)
            ctx.notes["validation_states"] = \
                ctx.notes.get("validation_states", 0) + s
    ctx.traces += len(traces)
    if undecided and again:
        # A few of them get more.
        some = undecided[:2 * par]
        r = validate(ctx, module, [traces[i] for i in some], constants,
                     invariants, batch=1, timeout=timeout, par=par, heap=heap,
                     view=view, budget=budget * 15, again=False)
        ctx.traces -= len(some)
        for i, v in zip(some, r):
            matched[i] = v
        undecided = undecided[2 * par:]
    for i in undecided:
        matched[i] = len(traces[i]["ev"])
    ctx.traces -= len(undecided)
    if undecided:
        ctx.notes["undecided_traces"] = \
            ctx.notes.get("undecided_traces", 0) + len(undecided)
    return matched


def explain(tr, n):
    ev = tr["ev"]
    nxt = json.dumps(ev[n]) if n < len(ev) else "(end)"
    return "event %d of %d not allowed by the specification: %s" % (
        n + 1, len(ev), nxt)


def check_traces(ctx, mode, module, cases, quiet=25, workers=48, timeout=600,
                 constants=None, invariants=("TypeOKT",), par=4, label=None,
                 timed=("quiet",), attribute=None, batch=None,
                 view=None):
    """Replays cases into the real code, validates what it did. Rejections at
    events that depend on time have to show again with more patience."""
    byid = {c["id"]: c for c in cases}
    res, crash = run_harness(ctx, mode, cases, quiet=quiet, workers=workers,
                             timeout=timeout)
    if crash:
        confirm_crash(ctx, mode, crash, byid, timeout)
    order = [i for i in res]
    traces = [res[i] for i in order]
    m = validate(ctx, module, traces, constants, invariants, par=par,
                 batch=batch, timeout=timeout, view=view)
    suspects = []
    rejected = [k for k, (tr, n) in enumerate(zip(traces, m))
                if n < len(tr["ev"])]
    # A rejection that doesn't need the assumption that nothing more was
    # going to happen stands. All others have to show again.
    timeless = []
    for k in rejected:
        tr = dict(traces[k])
        tr["ev"] = [e for e in tr["ev"]
                    if e["e"] not in timed or e.get("long")]
        timeless.append(tr)
    m2 = validate(ctx, module, timeless, constants, invariants, par=par,
                  timeout=timeout, view=view) if timeless else []
    ctx.traces -= len(timeless)
    for k, tr, n in zip(rejected, timeless, m2):
        i = order[k]
        if n >= len(tr["ev"]):
            suspects.append(i)
        elif attribute is None or attribute(byid[i], tr, n):
            ctx.violation(explain(tr, n), {"case": byid[i], "trace": tr,
                                           "matched": n})
    if traces:
        j = ctx.rng.randrange(len(traces))
        ctx.sample({"case": byid[order[j]],
                    "events": traces[j]["ev"][:12]})
    if suspects and not ctx.violations:
        # One after the other at first, so that a real one is found soon;
        # what is left then, together.
        groups = [[i] for i in suspects[:2]] + [suspects[:14]] * 3
        for g in groups:
            bad = {i: None for i in g}
            for q in (400, 1500):
                some = sorted(bad)
                if not some:
                    break
                r2, crash = run_harness(ctx, mode, [byid[i] for i in some],
                                        quiet=q, workers=2, timeout=timeout)
                if crash:
                    confirm_crash(ctx, mode, crash, byid, timeout)
                    return res
                m2 = validate(ctx, module, [r2[i] for i in some], constants,
                              invariants, view=view, par=par)
                ctx.traces -= len(some)
                bad = {i: (r2[i], n) for i, n in zip(some, m2)
                       if n < len(r2[i]["ev"])}
            for i, x in sorted(bad.items()):
                if attribute is None or attribute(byid[i], *x):
                    ctx.violation(explain(*x) + " (nothing more happens "
                                  "while something must)",
                                  {"case": byid[i], "trace": x[0],
                                   "matched": x[1]})
                    return res
        ctx.notes["unconfirmed_waits"] = \
            ctx.notes.get("unconfirmed_waits", 0) + len(suspects)
    return res


def confirm_crash(ctx, mode, crash, byid, timeout):
    """The process ended in boltnd's code while these cases ran, or they never
    did."""
    ctx.violation(crash.text.splitlines()[0],
                  {"cases": [byid[i] for i in crash.running if i in byid][:50],
                   "stack": crash.text})
