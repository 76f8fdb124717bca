"""Checks C09, C10: subscriptions of the real server."""
from vlib import *
import fam_msgr


def gcfg(**k):
    c = dict(MaxSubs=5, MaxMsgs=8, MaxCancels=3, MaxStops=1, MaxBreaks=2,
             TypeSet="{0, 1, 2, 3}", MaxLen=16, Full="TRUE")
    c.update(k)
    return cfg(init="MCInit", next="MCNext", constants=c)


def mcfg(**k):
    c = dict(MaxSubs=2, MaxMsgs=2, MaxCancels=1, MaxStops=1, MaxBreaks=1,
             TypeSet="{1, 2}", MaxLen=0, Full="FALSE")
    c.update(k)
    return cfg(init="MCInit", next="MCNext", constants=c,
               invariants=("Exclusive", "QuietMeans", "InOrder", "NoLoss",
                           "NoBlock"))


def lcfg(**k):
    """What has to happen in the end, if clients read."""
    c = dict(MaxSubs=2, MaxMsgs=1, MaxCancels=1, MaxStops=1, MaxBreaks=1,
             TypeSet="{1, 2}", MaxLen=0, Full="FALSE")
    c.update(k)
    return cfg(spec="MCFair", constants=c,
               properties=("Ends", "StopEnds", "AllTaken", "AllSent"))


def convert(rng, g):
    msgs, sched = [], []
    for s in g["s"]:
        if s["a"] == "msg":
            d = {"id": s["m"], "kind": s["kind"], "pl": s["pl"],
                 "em": [t for t in s["pl"] if rng.random() < 0.15],
                 "rp": rng.random() < 0.5, "ed": rng.random() < 0.5}
            if s["kind"] == "drop":
                d["sub"] = rng.choice(fam_msgr.DROPS)
            msgs.append(d)
            sched.append({"a": "msg", "m": s["m"]})
        else:
            sched.append(s)
    return {"id": 0, "msgs": msgs, "sched": windows(rng, sched),
            "auto": False}


def windows(rng, sched):
    """Lets the system come to rest now and then: how much can happen at the
    same time decides what it costs to find out whether it was right."""
    out, n, m, kmax = [], 0, 0, rng.choice([1, 2, 3, 3])
    for s in sched:
        if s["a"] == "quiet":
            n = m = 0
        elif s["a"] == "msg":
            m += 1
        elif s["a"] in ("sub", "cancel", "stop") or s.get("r") == "err":
            n += 1
        if n > kmax or m > 3:
            out.append({"a": "quiet"})
            n, m = int(s["a"] != "msg"), int(s["a"] == "msg")
        out.append(s)
    return out


def stream_case(rng, n):
    """Many messages, several subscribers that read at their own pace."""
    msgs, sched, c = [], [], 0
    live = {}
    for m in range(1, n + 1):
        x = rng.random()
        if x < 0.08 or not live:
            c += 1
            t = rng.choice([1, 2, 3, 4])
            live[c] = t
            sched.append({"a": "sub", "c": c, "t": t})
            if rng.random() < 0.8:
                sched.append({"a": "quiet"})
        elif x < 0.12:
            k = rng.choice(list(live))
            del live[k]
            if rng.random() < 0.7:
                sched.append({"a": "quiet"})
            sched.append({"a": "cancel", "c": k})
            if rng.random() < 0.7:
                sched.append({"a": "quiet"})
        msgs.append({"id": m, "kind": "ours" if rng.random() < 0.9 else "drop",
                     "pl": sorted(rng.sample([1, 2, 3, 4],
                                             rng.randint(1, 4))),
                     "em": [1] if rng.random() < 0.1 else [],
                     "rp": rng.random() < 0.5, "ed": False})
        if msgs[-1]["kind"] == "drop":
            msgs[-1]["pl"], msgs[-1]["sub"] = [], rng.choice(fam_msgr.DROPS)
        sched.append({"a": "msg", "m": m})
    return {"id": 0, "msgs": msgs, "sched": sched, "auto": True}


def long_case(rng, n):
    """Subscriptions that last, over very many messages."""
    msgs = []
    sched = [{"a": "sub", "c": 1, "t": 1}, {"a": "sub", "c": 2, "t": 2},
             {"a": "quiet"}]
    for m in range(1, n + 1):
        msgs.append({"id": m, "kind": "ours",
                     "pl": rng.choice([[1], [1], [1], [1, 2], [3]]), "em": [],
                     "rp": rng.random() < 0.3, "ed": False})
        sched.append({"a": "msg", "m": m})
        if rng.random() < 0.04:
            sched.append({"a": "quiet"})
    return {"id": 0, "msgs": msgs, "sched": sched, "auto": True}


def jam_case(rng):
    """A subscriber that doesn't read while many messages for it arrive, and
    then goes away or breaks; the others and the next one for its type."""
    msgs, sched, m = [], [], 0

    def arrive(n, ts):
        nonlocal m
        for _ in range(n):
            m += 1
            pl = {rng.choice(ts)} | {t for t in (1, 2, 3)
                                     if rng.random() < 0.25}
            msgs.append({"id": m, "kind": "ours", "pl": sorted(pl), "em": [],
                         "rp": rng.random() < 0.5, "ed": False})
            sched.append({"a": "msg", "m": m})

    sched.append({"a": "sub", "c": 1, "t": 1})
    if rng.random() < 0.6:
        sched.append({"a": "sub", "c": 2, "t": 2})
    sched.append({"a": "quiet"})
    arrive(rng.randint(3, 9), [1, 1, 1, 2])
    x = rng.random()
    if x < 0.8:
        sched.append({"a": "quiet"})
    if rng.random() < 0.3:
        sched += [{"a": "rel", "c": 1, "r": "ok"}] * rng.randint(1, 2)
    end = rng.choice(["err", "err", "cancel", "both", "stop"])
    if end in ("cancel", "both"):
        sched.append({"a": "cancel", "c": 1})
    if end in ("err", "both"):
        sched.append({"a": "rel", "c": 1, "r": "err"})
    elif end == "cancel":
        sched.append({"a": "quiet"})
        sched.append({"a": "rel", "c": 1, "r": "ok"})
    elif end == "stop":
        sched.append({"a": "stop"})
        return {"id": 0, "msgs": msgs, "sched": sched, "auto": False}
    sched.append({"a": "quiet"})
    sched.append({"a": "sub", "c": 3, "t": rng.choice([1, 1, 2])})
    sched.append({"a": "quiet"})
    arrive(rng.randint(1, 3), [1, 2])
    return {"id": 0, "msgs": msgs, "sched": sched, "auto": False}


def churn_case(rng, n):
    """Subscriptions that come and go, in every way."""
    msgs, sched, m = [], [], 0
    other = rng.random() < 0.5
    if other:
        # Somebody who stays.
        sched += [{"a": "sub", "c": 500, "t": 4}, {"a": "quiet"}]
    for c in range(1, n + 1):
        t = rng.choice([1, 1, 2])
        sched += [{"a": "sub", "c": c, "t": t}, {"a": "quiet"}]
        if rng.random() < 0.15:
            # Refused.
            sched += [{"a": "sub", "c": 1000 + c,
                       "t": rng.choice([0, t, t] + [4] * other)},
                      {"a": "quiet"}]
        end = rng.choice(["cancel", "err", "err", "late"])
        for _ in range(rng.choice([0, 1, 1]) if end == "cancel" else 1):
            m += 1
            msgs.append({"id": m, "kind": "ours", "pl": [t], "em": [],
                         "rp": rng.random() < 0.3, "ed": False})
            sched += [{"a": "msg", "m": m}, {"a": "quiet"}]
        if end != "err":
            sched.append({"a": "cancel", "c": c})
        if end == "late":
            sched.append({"a": "quiet"})
        sched += [{"a": "rel", "c": c, "r": "err" if end == "err" else "ok"},
                  {"a": "quiet"}]
    return {"id": 0, "msgs": msgs, "sched": sched, "auto": False}


def mass_case(rng, n, end):
    """Many that all end in the same way, three at a time."""
    msgs, sched, m = [], [], 0
    for c in range(1, n, 3):
        sched += [{"a": "sub", "c": c + t - 1, "t": t} for t in (1, 2, 3)]
        sched.append({"a": "quiet"})
        if end == "err":
            m += 1
            msgs.append({"id": m, "kind": "ours", "pl": [1, 2, 3], "em": [],
                         "rp": False, "ed": False})
            sched.append({"a": "msg", "m": m})
        sched += [{"a": "rel", "c": c + t, "r": "err"} if end == "err" else
                  {"a": "cancel", "c": c + t} for t in range(3)]
        sched.append({"a": "quiet"})
    return {"id": 0, "msgs": msgs, "sched": sched, "auto": False}


def run(ctx):
    build(ctx)
    p, rng = ctx.prop, ctx.rng
    if THOROUGH:
        mc = dict(MaxSubs=3, MaxMsgs=2)
    elif p == "C09":
        mc = dict(MaxMsgs=3, MaxCancels=0, MaxStops=0, MaxBreaks=0)
    else:
        mc = dict(MaxMsgs=1, TypeSet="{0, 1}")
    model_check(ctx, "MCSubs", mcfg(**mc), workers=ctx.pick(4, 8),
                timeout=ctx.pick(300, 6000))
    model_check(ctx, "MCSubs", lcfg(MaxBreaks=ctx.pick(0, 1)), workers=ctx.pick(4, 8),
                timeout=ctx.pick(300, 3000))
    if THOROUGH:
        model_check(ctx, "MCSubs", lcfg(MaxMsgs=2, MaxStops=0), workers=8,
                    timeout=6000)
    n, sim = ctx.pick(260, 4000), ctx.pick(3000, 40000)

    def score(g):
        live, hit, end = {}, 0, 0
        for s in g["s"]:
            if s["a"] == "sub":
                if s["t"] in live.values():
                    end += 1
                else:
                    live[s["c"]] = s["t"]
            elif s["a"] == "msg":
                hit += len(set(s["pl"]) & set(live.values()))
            elif s["a"] == "cancel":
                end += 2 if s["c"] in live else 0
                live.pop(s["c"], None)
            elif s["a"] == "rel" and s["r"] == "err":
                end += 2
            elif s["a"] == "stop":
                end += 2
        return hit + end if p == "C10" else hit + 0.3 * end

    k = {} if p == "C10" else dict(MaxStops=0, MaxBreaks=1, MaxCancels=1,
                                   MaxSubs=4)
    g = generate(ctx, "MCSubs", gcfg(**k), "SCHED", sim, depth=200)
    g.sort(key=lambda x: json.dumps(x, sort_keys=True))
    rng.shuffle(g)
    g.sort(key=score, reverse=True)
    a, b = g[:(2 * n) // 3], g[(2 * n) // 3:]
    rng.shuffle(b)
    cases = [convert(rng, x) for x in a + b[:n // 3]]
    for _ in range(ctx.pick(10, 100)):
        cases.append(stream_case(rng, ctx.pick(40, 150)))
    if p == "C09":
        cases.append(long_case(rng, ctx.pick(700, 3000)))
    cases += [jam_case(rng) for _ in range(ctx.pick(60, 800))]
    if p == "C10":
        cases += [churn_case(rng, ctx.pick(70, 300))
                  for _ in range(ctx.pick(3, 20))]
        cases += [mass_case(rng, ctx.pick(240, 1500), end)
                  for end in ["err", "cancel", "err"] * ctx.pick(1, 4)]
    # Some take their time.
    slow = [jam_case(rng) for _ in range(ctx.pick(6, 40))]
    for c in slow:
        i = [k for k, s in enumerate(c["sched"])
             if s["a"] in ("quiet", "rel")]
        c["sched"].insert(rng.choice(i) + 1,
                          {"a": "hold", "m": rng.choice(
                              ctx.pick([11500, 33000], [33000, 65000]))})
    cases = slow + cases
    fam_msgr.number(cases)
    check_traces(ctx, "subs", "TraceSubs", cases, par=ctx.pick(4, 8),
                 timeout=ctx.pick(300, 3000), view="Seen")
