"""Check C16: the life of a real server."""
from vlib import *
import fam_msgr

ALL = '{"send", "sub", "decode", "route"}'


def mcfg(**k):
    c = dict(MaxStarts=2, MaxStops=2, MaxCalls=1, MaxCancels=1, MaxMsgs=1,
             Ops='{"send", "sub"}', MaxLen=0)
    c.update(k)
    return cfg(init="MCInit", next="MCNext", constants=c,
               invariants=("NoActionBeforeReady", "AtMostOnce", "Once",
                           "NotEarly", "NothingLeft", "QuietMeans"),
               properties=("NoStart",))


def lcfg(**k):
    """What has to happen in the end, if lnd answers."""
    c = dict(MaxStarts=2, MaxStops=1, MaxCalls=1, MaxCancels=1, MaxMsgs=0,
             Ops='{"send", "sub", "decode"}', MaxLen=0)
    c.update(k)
    return cfg(spec="MCFair", constants=c,
               properties=("StartsReturn", "StopsReturn", "CallsReturn"))


def gcfg(**k):
    c = dict(MaxStarts=3, MaxStops=2, MaxCalls=7, MaxCancels=4, MaxMsgs=2,
             Ops=ALL, MaxLen=14)
    c.update(k)
    return cfg(init="MCInit", next="MCNext", constants=c)


def kind(s):
    """What is special about a schedule."""
    k, started, told, stopped = set(), 0, None, 0
    for x in s:
        a = x["a"]
        st = ("stopped" if stopped else "ready" if told else
              "failed" if told is False else "starting" if started else "new")
        if a != "quiet":
            k.add((a, x.get("op"), x.get("valid"), st))
        if a == "start":
            started += 1
        elif a == "tell":
            told = x["ok"]
        elif a == "stop":
            stopped += 1
    return k


def select(rng, g, n):
    """Schedules that differ as much as possible."""
    g = sorted(g, key=lambda x: json.dumps(x, sort_keys=True))
    rng.shuffle(g)
    count, out = {}, []
    ks = [kind(x["s"]) for x in g]
    left = set(range(len(g)))
    while left and len(out) < n:
        some = rng.sample(sorted(left), min(40, len(left)))
        b = max(some, key=lambda i: sum(1.0 / (1 + count.get(k, 0))
                                        for k in ks[i]))
        left.discard(b)
        out.append(g[b])
        for k in ks[b]:
            count[k] = count.get(k, 0) + 1
    return out, count


def convert(rng, s):
    out, n, kmax = [], 0, rng.choice([2, 3, 4, 6])
    p = rng.choice([0, 0.2, 0.5])
    for x in s:
        if x["a"] == "quiet":
            n = 0
        else:
            n += 1
            if n > kmax or rng.random() < p:
                out.append({"a": "quiet"})
                n = 1
        out.append(x)
    return {"id": 0, "sched": out}


def crowd(rng, n):
    """Very many calls before the start, which are answered after it."""
    s = []
    for c in range(1, n + 1):
        s.append({"a": "call", "c": c, "op": rng.choice(
            ["send", "decode", "route"]), "valid": True})
        if c % 8 == 0:
            s.append({"a": "quiet"})
    s += [{"a": "quiet"}, {"a": "start", "c": 1}, {"a": "quiet"},
          {"a": "tell", "ok": True}, {"a": "quiet"}]
    return {"id": 0, "sched": s}


def run(ctx):
    build(ctx)
    rng = ctx.rng
    model_check(ctx, "MCLifecycle", mcfg(), workers=4)
    model_check(ctx, "MCLifecycle", mcfg(
        MaxStops=1, MaxCalls=ctx.pick(2, 3), MaxMsgs=0,
        Ops='{"send", "sub"}' if not THOROUGH else ALL),
        workers=ctx.pick(4, 8), timeout=ctx.pick(300, 3000))
    model_check(ctx, "MCLifecycle", lcfg(), workers=4)
    if THOROUGH:
        model_check(ctx, "MCLifecycle", lcfg(MaxStops=2, MaxCalls=2),
                    workers=8, timeout=6000)
    g = generate(ctx, "MCLifecycle", gcfg(), "SCHED", ctx.pick(2500, 30000),
                 depth=200)
    g += generate(ctx, "MCLifecycle", gcfg(MaxLen=9, MaxCalls=4), "SCHED",
                  ctx.pick(1500, 20000), depth=200)
    g, count = select(rng, g, ctx.pick(350, 5000))
    ctx.notes["situations"] = len(count)
    cases = [convert(rng, x["s"]) for x in g]
    # Some are long, with much that waits.
    g = generate(ctx, "MCLifecycle", gcfg(
        MaxStarts=2, MaxStops=1, MaxCalls=40, MaxCancels=10, MaxMsgs=8,
        MaxLen=60), "SCHED", ctx.pick(60, 600), depth=400)
    g, _ = select(rng, g, ctx.pick(12, 100))
    cases += [convert(rng, x["s"]) for x in g]
    cases += [crowd(rng, n) for n in ctx.pick([70], [70, 150, 300])]
    rng.shuffle(cases)
    for j, c in enumerate(cases[:ctx.pick(16, 60)]):
        # Some take their time.
        s = c["sched"]
        i = [k for k, x in enumerate(s) if x["a"] in ("call", "msg", "stop")]
        if i:
            s.insert(rng.choice(i) + 1,
                     {"a": "hold", "m": 33000 if j < 6 else
                      ctx.pick(11500, 65000)})
    # First what takes its time.
    cases.sort(key=lambda c: -sum(x.get("m", 0) for x in c["sched"]))
    fam_msgr.number(cases)
    check_traces(ctx, "life", "TraceLifecycle", cases, par=ctx.pick(4, 8),
                 timeout=ctx.pick(400, 3000))
