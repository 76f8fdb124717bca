"""Checks C02-C08: the onion messenger."""
from vlib import *

DROPS = ["othertype", "empty", "random", "trunc", "flip", "notforus",
         "tlvtrunc", "tlvorder", "tlvdup", "tlvbig", "rpzero", "rpkey",
         "rpshort", "rplong", "fwdfinal", "fwdnoenc", "fwdundec",
         "fwdshortenc", "fwdnonext", "fwdonlyov", "fwdbadtlv", "fwdbadpoint",
         "fwdshortpoint", "badblind", "badversion", "longlen", "hmac",
         "notours", "ecdh", "fwdecdh"]


def gen_cfg(**k):
    c = dict(MaxCalls=8, MaxMsgs=8, MaxFails=1, MaxStops=2, MaxStarts=2,
             MsgSet='"full"', TypeSet="{0, 1, 2, 3}", MaxLen=14,
             GenId='"SCHED"')
    c.update(k)
    return cfg(init="MCInit", next="MCNext", constants=c)


def mc_cfg(**k):
    c = dict(MaxCalls=2, MaxMsgs=2, MaxFails=1, MaxStops=1, MaxStarts=1,
             MsgSet='"small"', TypeSet="{0, 1}", MaxLen=0, GenId='"SCHED"')
    c.update(k)
    return cfg(init="MCInit", next="MCNext", constants=c,
               invariants=("TypeOK", "Exclusive", "CallbackOnce",
                           "StoppedIsIdle", "RunsRegistered",
                           "NoFalseReport", "QuietIsRight"),
               properties=("StopIsFinal",))


def live_cfg(**k):
    """What has to happen in the end, if handlers and relays return."""
    c = dict(MaxCalls=1, MaxMsgs=1, MaxFails=1, MaxStops=1, MaxStarts=1,
             MsgSet='"small"', TypeSet="{0, 1}", MaxLen=0, GenId='"SCHED"')
    c.update(k)
    return cfg(spec="MCFair", constants=c,
               properties=("CallsReturn", "FailureReported", "AllTaken",
                           "StopEnds"))


def drop_sub(rng, fam):
    if fam == "C02" and rng.random() < 0.7:
        return rng.choice([d for d in DROPS if d.startswith("fwd")])
    return rng.choice(DROPS)


def convert(rng, g, i, fam):
    """A schedule of the specification as a scenario for the real code."""
    kinds, msgs, sched = {}, [], []
    for s in g["s"]:
        if s["a"] == "msg":
            m, kind, of = s["m"], s["kind"], s["of"]
            d = {"id": m, "kind": kind, "pl": [], "em": [], "herr": []}
            if kind == "replay":
                o = of
                while kinds[o][0] == "replay":
                    o = kinds[o][1]
                if kinds[o][0] == "drop":
                    d["kind"] = "drop"
                    d["sub"] = drop_sub(rng, fam)
                    kinds[m] = ("drop", 0)
                else:
                    d["of"] = of
                    kinds[m] = ("replay", of)
            elif kind == "drop":
                kinds[m] = ("drop", 0)
                d["sub"] = drop_sub(rng, fam)
                good = [x for x in kinds if kinds[x][0] in ("ours", "fwd")]
                later = [x["m"] for x in g["s"]
                         if x["a"] == "msg" and x["m"] > m and
                         x["kind"] in ("ours", "fwd")]
                pool = good + later * 3
                if pool and rng.random() < 0.4:
                    d["sub"] = rng.choice(["corrupt", "wrongtype"])
                    d["of"] = rng.choice(pool)
            else:
                kinds[m] = (kind, 0)
                d["pl"] = s["pl"]
                d["em"] = [t for t in s["pl"] if rng.random() < 0.2]
                d["rp"] = rng.random() < 0.5
                d["ed"] = rng.random() < 0.5
                d["ov"] = rng.random() < 0.4
                if kind == "ours" and not d["pl"] and rng.random() < 0.3:
                    # Only payloads below the range.
                    d["pl"] = [0]
            msgs.append(d)
            sched.append({"a": "msg", "m": m})
        elif s["a"] == "fail":
            sched.append({"a": "fail", "k": rng.choice(
                ["err", "errchan", "closemsg", "closeerr"])})
        else:
            sched.append(s)
    return {"id": i, "msgs": msgs, "sched": sched,
            "subfail": not g["sub"], "auto": False, "fam": fam}


def count(g, pred):
    return sum(1 for s in g["s"] if pred(s))


def effective(g):
    """How much of the dispatch a schedule exercises."""
    reg, n = set(), 0
    for s in g["s"]:
        if s["a"] == "call" and s["op"] == "reg":
            reg.add(s["t"])
        elif s["a"] == "call" and s["op"] == "dereg":
            reg.discard(s["t"])
        elif s["a"] == "msg":
            if s["kind"] in ("ours", "replay"):
                n += len(reg & set(s["pl"]))
            elif s["kind"] == "fwd":
                n += 1
    return n


def schedules(ctx, fam, want, num, score, subfail=0.0, **consts):
    """Generates many schedules with TLC, keeps the most telling ones."""
    g = generate(ctx, "MCMessenger", gen_cfg(**consts), "SCHED", num,
                 depth=160, workers=4)
    g.sort(key=lambda x: json.dumps(x, sort_keys=True))
    ctx.rng.shuffle(g)
    fails = [x for x in g if not x["sub"]]
    good = [x for x in g if x["sub"]]
    good.sort(key=score, reverse=True)
    nf = int(want * subfail)
    # Some of the highest scores, some at random.
    k = want - nf
    top = good[:(2 * k) // 3]
    rest = good[(2 * k) // 3:]
    ctx.rng.shuffle(rest)
    sel = top + rest[:k - len(top)] + fails[:nf]
    ctx.notes["schedules_generated"] = len(g)
    return [convert(ctx.rng, x, i + 1, fam) for i, x in enumerate(sel)]


def history(rng, i, n, kinds, replays=0.2, drops=0.2, herr=0.1, reps=None):
    """A long history of messages that arrive back to back."""
    msgs, sched = [], []
    sched.append({"a": "call", "op": "start", "c": 100, "t": 0})
    c = 0
    for t in (1, 2, 3):
        if rng.random() < 0.75 or t == 1:
            c += 1
            sched.append({"a": "call", "op": "reg", "c": c, "t": t})
    sched.append({"a": "quiet"})
    good, anyd = [], []
    # Which messages will be there, so that damaged copies may come first.
    plan = []
    for m in range(1, n + 1):
        x = rng.random()
        if x < replays and m > 1:
            plan.append("replay")
        elif x < replays + drops:
            plan.append("drop")
        else:
            plan.append(rng.choice(kinds))
    goods = [m for m in range(1, n + 1) if plan[m - 1] in ("ours", "fwd")]
    for m in range(1, n + 1):
        kind = plan[m - 1]
        d = {"id": m, "kind": kind, "pl": [], "em": [], "herr": []}
        if kind == "replay":
            pool = good
            if not pool:
                kind = d["kind"] = "drop"
            else:
                # Immediately, a little later, or much later.
                d["of"] = rng.choice(
                    [pool[-1], rng.choice(pool), pool[0]])
        if kind == "drop":
            d["sub"] = rng.choice(DROPS)
            if goods and rng.random() < 0.5:
                d["sub"] = rng.choice(["corrupt", "wrongtype"])
                later = [x for x in goods if x > m]
                d["of"] = later[0] if later and rng.random() < 0.7 else \
                    rng.choice(goods)
        elif kind == "ours":
            good.append(m)
            d["pl"] = sorted(rng.sample([1, 2, 3, 4], rng.randint(0, 4)))
            d["em"] = [t for t in d["pl"] if rng.random() < 0.15]
            d["rp"], d["ed"] = rng.random() < 0.5, rng.random() < 0.5
            d["herr"] = [t for t in d["pl"] if rng.random() < herr]
        elif kind == "fwd":
            good.append(m)
            d["ov"] = rng.random() < 0.4
            d["rerr"] = rng.random() < herr
        msgs.append(d)
        sched.append({"a": "msg", "m": m})
        if rng.random() < 0.02:
            sched.append({"a": "quiet"})
    return {"id": i, "msgs": msgs, "sched": sched, "subfail": False,
            "auto": True, "fam": "history"}


def long(rng, n, reps):
    """Very many messages, and then the old ones once again."""
    msgs = []
    for m in range(1, n + 1):
        fwd = rng.random() < 0.1
        msgs.append({"id": m, "kind": "fwd" if fwd else "ours",
                     "pl": [] if fwd or rng.random() < 0.5 else [1],
                     "em": [], "herr": [], "ov": rng.random() < 0.4})
    old = [1, 2, 3, n // 2, n] + rng.sample(range(1, n + 1), reps)
    for k, o in enumerate(old):
        msgs.append({"id": n + 1 + k, "kind": "replay", "pl": [], "em": [],
                     "herr": [], "of": o})
    sched = [{"a": "call", "op": "start", "c": 100, "t": 0},
             {"a": "call", "op": "reg", "c": 1, "t": 1}, {"a": "quiet"}]
    for x in msgs:
        sched.append({"a": "msg", "m": x["id"]})
        if x["id"] % 25 == 0:
            sched.append({"a": "quiet"})
    return {"id": 0, "msgs": msgs, "sched": sched, "subfail": False,
            "auto": True, "fam": "long"}


def slow(rng):
    """lnd takes its time."""
    msgs = []
    for m in range(1, 5):
        kind = rng.choice(["fwd", "ours", "drop"])
        msgs.append({"id": m, "kind": kind,
                     "pl": [1] if kind == "ours" else [], "em": [],
                     "herr": [], "slow": 0})
    i = rng.randrange(4)
    msgs[i].update(kind=rng.choice(["fwd", "fwd", "ours"]), slow=600)
    msgs[i]["pl"] = [1] if msgs[i]["kind"] == "ours" else []
    return {"id": 0, "msgs": msgs, "subfail": False, "auto": True,
            "fam": "slow", "sched": [
                {"a": "call", "op": "start", "c": 100, "t": 0},
                {"a": "call", "op": "reg", "c": 1, "t": 1}, {"a": "quiet"}] +
            [{"a": "msg", "m": m} for m in range(1, 5)] + [{"a": "quiet"}]}


def held(rng, ms):
    """Stop has to wait for long for what is going on."""
    kind = rng.choice(["ours", "ours", "fwd"])
    sched = [{"a": "call", "op": "start", "c": 100, "t": 0},
             {"a": "call", "op": "reg", "c": 1, "t": 1}, {"a": "quiet"},
             {"a": "msg", "m": 1}, {"a": "msg", "m": 2}, {"a": "quiet"},
             {"a": "call", "op": "stop", "c": 200, "t": 0}]
    if rng.random() < 0.6:
        sched.append({"a": "call", "op": rng.choice(["reg", "dereg"]),
                      "c": 2, "t": rng.choice([1, 2])})
    if rng.random() < 0.4:
        sched.append({"a": "fail", "k": "any"})
    sched += [{"a": "hold", "m": ms}, {"a": "quiet"},
              {"a": "rel", "r": rng.choice(["ok", "err"])}, {"a": "quiet"}]
    msgs = [{"id": m, "kind": kind, "pl": [1] if kind == "ours" else [],
             "em": [], "herr": []} for m in (1, 2)]
    return {"id": 0, "msgs": msgs, "subfail": False, "fam": "held",
            "sched": sched}


def waiting(rng, ms):
    """Calls wait for long for what is going on, nobody stops."""
    kind = rng.choice(["ours", "ours", "fwd"])
    sched = [{"a": "call", "op": "start", "c": 100, "t": 0},
             {"a": "call", "op": "reg", "c": 1, "t": 1}, {"a": "quiet"},
             {"a": "msg", "m": 1}, {"a": "quiet"}]
    for c in range(2, rng.randint(3, 6)):
        sched.append({"a": "call", "op": rng.choice(["reg", "reg", "dereg"]),
                      "c": c, "t": rng.choice([1, 2, 3])})
    sched += [{"a": "hold", "m": ms}, {"a": "quiet"},
              {"a": "rel", "r": rng.choice(["ok", "err"])}, {"a": "quiet"}]
    # What they have come to.
    for c, t in enumerate(rng.sample([1, 2, 3], 2), 10):
        sched.append({"a": "call", "op": rng.choice(["reg", "dereg"]),
                      "c": c, "t": t, "seq": True})
    sched += [{"a": "msg", "m": 2}, {"a": "quiet"},
              {"a": "rel", "r": "ok"}, {"a": "quiet"}]
    sched += [{"a": "rel", "r": "ok"}, {"a": "quiet"}] * 2
    msgs = [{"id": m, "kind": kind if m == 1 else "ours", "em": [],
             "pl": [1, 2, 3] if m == 2 else [1] if kind == "ours" else [],
             "herr": []} for m in (1, 2)]
    return {"id": 0, "msgs": msgs, "subfail": False, "fam": "waiting",
            "sched": sched}


def idle(rng, ms):
    """Nothing happens for long, then all sorts of things."""
    sched = [{"a": "call", "op": "start", "c": 100, "t": 0},
             {"a": "call", "op": "reg", "c": 1, "t": 1},
             {"a": "call", "op": "reg", "c": 2, "t": 2}, {"a": "quiet"}]
    msgs = []

    def msg(kind, **k):
        m = len(msgs) + 1
        msgs.append(dict({"id": m, "kind": kind, "em": [], "herr": [],
                          "pl": [1, 2] if kind == "ours" else []}, **k))
        sched.append({"a": "msg", "m": m})

    for kind in rng.sample(["ours", "ours", "fwd", "fwd", "drop"],
                           rng.randint(2, 5)):
        msg(kind)
    n = len(msgs)
    sched += [{"a": "quiet"}, {"a": "hold", "m": ms}]
    todo = [("again", x["id"]) for x in msgs if x["kind"] != "drop"]
    todo += [("new", rng.choice(["ours", "fwd"])) for _ in range(3)]
    todo += [("call", rng.choice([("reg", 1), ("reg", 3), ("dereg", 1),
                                  ("dereg", 2), ("dereg", 3)]))]
    rng.shuffle(todo)
    for what, x in todo:
        if what == "again":
            msg("replay", of=x, pl=[])
        elif what == "new":
            msg(x)
        else:
            sched.append({"a": "call", "op": x[0], "c": 10, "t": x[1],
                          "seq": True})
        if rng.random() < 0.5:
            sched.append({"a": "quiet"})
    if rng.random() < 0.4:
        sched.append({"a": "call", "op": "stop", "c": 200, "t": 0})
    sched.append({"a": "quiet"})
    return {"id": 0, "msgs": msgs, "subfail": False, "auto": True,
            "fam": "idle", "sched": sched}


def burst(rng, i):
    """Many callers at once, messages arriving meanwhile."""
    msgs, sched = [], []
    sched.append({"a": "call", "op": "start", "c": 100, "t": 0})
    sched.append({"a": "quiet"})
    m = c = 0
    for rnd in range(rng.randint(1, 3)):
        for k in range(rng.randint(2, 5)):
            if rng.random() < 0.3:
                m += 1
                msgs.append({"id": m, "kind": "ours",
                             "pl": sorted(rng.sample([1, 2, 3], 2)),
                             "em": [], "herr": [], "rp": rng.random() < 0.5})
                sched.append({"a": "msg", "m": m})
            c += 1
            sched.append({"a": "call",
                          "op": rng.choice(["reg", "reg", "dereg"]),
                          "c": c, "t": rng.choice([0, 1, 1, 1, 2])})
        if rng.random() < 0.5:
            sched.append({"a": "quiet"})
    x = rng.random()
    if x < 0.3:
        sched.insert(rng.randint(2, len(sched)),
                     {"a": "call", "op": "stop", "c": 200, "t": 0})
    elif x < 0.5:
        sched.insert(rng.randint(2, len(sched)),
                     {"a": "fail", "k": "any"})
    # Messages and failures have to be in stream order; nothing is offered
    # after a failure.
    out, dead = [], False
    for s in sched:
        if s["a"] == "fail":
            dead = True
        if s["a"] == "msg" and dead:
            continue
        out.append(s)
    used = {s["m"] for s in out if s["a"] == "msg"}
    ren = {o: n + 1 for n, o in enumerate(sorted(used))}
    msgs = [dict(x, id=ren[x["id"]]) for x in msgs if x["id"] in used]
    for s in out:
        if s["a"] == "msg":
            s["m"] = ren[s["m"]]
    return {"id": i, "msgs": msgs, "sched": out, "subfail": False,
            "auto": True, "fam": "burst"}


def registry(rng, n):
    """Many types that come and go, one call after the other."""
    k = rng.choice([3, 8, 20, 70])
    sched = [{"a": "call", "op": "start", "c": 100, "t": 0},
             {"a": "quiet"}]
    msgs, c, last = [], 200, 1
    on = set()

    def call(op, t):
        nonlocal c, last
        c, last = c + 1, t
        (on.add if op == "reg" else on.discard)(t)
        sched.append({"a": "call", "op": op, "c": c, "t": t, "seq": True})

    def pick():
        # The ones that are there, and those that aren't, alike.
        if on and rng.random() < 0.5:
            return rng.choice(sorted(on))
        return rng.randint(1, k)

    while c < 200 + n:
        x = rng.random()
        if x < 0.1:
            # All of them, a few of them twice.
            op = rng.choice(["reg", "reg", "dereg"])
            for t in rng.sample(range(1, k + 1), min(k, n // 3)):
                call(op, t)
                if rng.random() < 0.15:
                    call(op, t)
        elif x < 0.4:
            # Once more the same one.
            call(rng.choice(["reg", "dereg"]), last)
        elif x < 0.43:
            sched.append({"a": "call", "op": rng.choice(["reg", "dereg"]),
                          "c": c + 1, "t": 0, "seq": True})
            c += 1
        elif x < 0.9:
            call(rng.choice(["reg", "reg", "dereg"]), pick())
        else:
            m = len(msgs) + 1
            pl = sorted({pick() for _ in range(rng.randint(1, 5))} |
                        ({last} if rng.random() < 0.5 else set()))
            msgs.append({"id": m, "kind": "ours", "pl": pl, "em": [],
                         "herr": [t for t in pl if rng.random() < 0.1]})
            sched += [{"a": "msg", "m": m}, {"a": "quiet"}]
    m = len(msgs) + 1
    msgs.append({"id": m, "kind": "ours", "em": [], "herr": [],
                 "pl": list(range(1, min(k, 30) + 1))})
    sched += [{"a": "msg", "m": m}, {"a": "quiet"}]
    return {"id": 0, "msgs": msgs, "subfail": False, "auto": True,
            "fam": "registry", "sched": sched, "ranks": k}


def number(cases):
    for i, c in enumerate(cases):
        c["id"] = i + 1
    return cases


def is_call(s, *ops):
    return s["a"] == "call" and s["op"] in ops


def run(ctx):
    build(ctx)
    p = ctx.prop
    big = THOROUGH
    mc = dict(MaxStops=1, MaxStarts=1, TypeSet="{0, 1}")
    if big:
        mc = dict(MaxStops=2, MaxStarts=2, TypeSet="{0, 1, 2}")
    else:
        # The parts that matter for the property, exhaustively.
        mc.update({"C02": dict(MaxMsgs=3, MaxCalls=1, MaxFails=0, MaxStops=1,
                               TypeSet="{1}"),
                   "C03": dict(MaxMsgs=3, MaxCalls=1, MaxFails=0, MaxStops=0,
                               TypeSet="{1}"),
                   "C04": dict(MaxMsgs=3, MaxCalls=1, MaxFails=0,
                               TypeSet="{1}"),
                   "C05": dict(MaxMsgs=2, MaxCalls=2, MaxFails=0, MaxStops=0,
                               TypeSet="{1, 2}"),
                   "C06": dict(MaxMsgs=1, MaxCalls=3, MaxFails=0, MaxStops=0,
                               TypeSet="{0, 1}"),
                   "C07": dict(MaxMsgs=1, MaxCalls=1, MaxFails=0, MaxStops=2,
                               MaxStarts=2),
                   "C08": dict(MaxMsgs=1, MaxCalls=1, MaxFails=1)}[p])
    model_check(ctx, "MCMessenger", mc_cfg(**mc), workers=8 if big else 4)
    if p in ("C04", "C07", "C08"):
        model_check(ctx, "MCMessenger", live_cfg(), workers=4)
        if THOROUGH:
            model_check(ctx, "MCMessenger", live_cfg(MaxCalls=2, MaxStops=2),
                        workers=8, timeout=6000)
            model_check(ctx, "MCMessenger", live_cfg(MaxMsgs=2), workers=8,
                        timeout=6000)
    rng = ctx.rng
    n = ctx.pick(240, 3000)
    sim = ctx.pick(3000, 40000)
    cases = []
    if p == "C02":
        cases = schedules(
            ctx, p, n, sim, lambda g: 3 * count(
                g, lambda s: s["a"] == "msg" and s["kind"] == "fwd") +
            count(g, lambda s: s["a"] == "msg" and s["kind"] == "drop") +
            effective(g), MaxFails=0, MaxStops=1, MaxCalls=3,
            TypeSet="{1, 2, 3}", MaxMsgs=10)
        for k in range(ctx.pick(8, 80)):
            cases.append(history(rng, 0, ctx.pick(80, 250),
                                 ["fwd", "fwd", "ours"], replays=0.05,
                                 drops=0.3, herr=0.3))
        cases += [slow(rng) for _ in range(ctx.pick(6, 40))]
    elif p == "C03":
        cases = schedules(
            ctx, p, n, sim, lambda g: 2 * count(
                g, lambda s: s["a"] == "msg" and s["kind"] == "replay") +
            effective(g), MaxFails=0, MaxStops=0, MaxCalls=4,
            TypeSet="{1, 2, 3}", MaxMsgs=10)
        for k in range(ctx.pick(6, 60)):
            cases.append(history(rng, 0, ctx.pick(150, 400), ["ours", "fwd"],
                                 replays=0.35, drops=0.05))
        cases.append(long(rng, ctx.pick(1500, 6000), 60))
    elif p == "C04":
        cases = schedules(
            ctx, p, n, sim, lambda g: 2 * count(
                g, lambda s: s["a"] == "msg" and s["kind"] == "drop") +
            effective(g), MaxFails=0, MaxStops=0, MaxCalls=4,
            TypeSet="{1, 2, 3}", MaxMsgs=10)
        for k in range(ctx.pick(8, 80)):
            cases.append(history(rng, 0, ctx.pick(80, 250), ["ours", "fwd"],
                                 replays=0.05, drops=0.5, herr=0.3))
        for k in range(ctx.pick(2, 10)):
            cases.append(history(rng, 0, ctx.pick(700, 2500), ["ours", "fwd"],
                                 replays=0.02, drops=0.9, herr=0.3))
    elif p == "C05":
        cases = schedules(ctx, p, n, sim, effective, MaxFails=0, MaxStops=1,
                          TypeSet="{1, 2, 3}")
        for k in range(ctx.pick(6, 60)):
            cases.append(history(rng, 0, ctx.pick(60, 200), ["ours"],
                                 replays=0.05, drops=0.1))
        cases += [registry(rng, rng.choice([30, 80]))
                  for _ in range(ctx.pick(8, 80))]
    elif p == "C06":
        cases = schedules(ctx, p, n, sim, lambda g: count(
            g, lambda s: is_call(s, "reg", "dereg")) + effective(g),
            MaxFails=0, MaxStops=0, MaxCalls=12, MaxMsgs=4,
            TypeSet="{0, 1, 2}")
        cases += [burst(rng, 0) for _ in range(ctx.pick(200, 3000))]
        cases += [registry(rng, rng.choice([30, 80, 150]))
                  for _ in range(ctx.pick(16, 160))]
    elif p == "C07":
        def score(g):
            i = [k for k, s in enumerate(g["s"]) if is_call(s, "stop")]
            return (3 + effective(g) + len(g["s"]) - i[0]) if i else 0
        cases = schedules(ctx, p, n, sim, score, subfail=0.1)
        cases += [burst(rng, 0) for _ in range(ctx.pick(150, 2000))]
        cases = [held(rng, ms) for ms in ctx.pick(
            [33000] * 3 + [6500] * 2, [125000] * 8 + [40000] * 16)] + cases
    elif p == "C08":
        def score(g):
            i = [k for k, s in enumerate(g["s"]) if s["a"] == "fail"]
            return (3 + effective(g) + len(g["s"]) - i[0]) if i else 0
        cases = schedules(ctx, p, n, sim, score, subfail=0.15, MaxStops=1)
        cases += [burst(rng, 0) for _ in range(ctx.pick(100, 2000))]
        # Each way to fail, with each error.
        ways = ([(k, e) for e in range(1, 13) for k in
                 ("errchan", "errchan", "err")] +
                [("closemsg", 0), ("closeerr", 0)] * 3)
        fails = [s for c in cases for s in c["sched"] if s["a"] == "fail"]
        for i, s in enumerate(fails):
            s["k"], s["err"] = ways[i % len(ways)]
        ctx.notes["failures"] = len(fails)
    if p in ("C05", "C06"):
        cases = [waiting(rng, ctx.pick(33000, 125000))
                 for _ in range(ctx.pick(6, 24))] + cases
    # Some of them for longer, first so that all else goes on meanwhile.
    ms = {"C03": ctx.pick(33000, 125000)}.get(p, ctx.pick(11500, 65000))
    cases = [idle(rng, ms) for _ in range(ctx.pick(3, 12))] + cases
    number(cases)
    check_traces(ctx, "msgr", "TraceMessenger", cases,
                 par=ctx.pick(4, 8), timeout=ctx.pick(300, 3000))
    if p == "C03":
        import fam_network
        fam_network.twice(ctx)
    if p == "C08":
        import fam_daemon
        fam_daemon.check(ctx, True)
