"""Checks C01, C15: onion messages between several real servers."""
from vlib import *
import fam_msgr


def gcfg(**k):
    c = dict(Nodes="{1, 2, 3, 4, 5}", MaxRoutes=5, MaxSubs=0, MaxSends=8,
             MaxArrivals=2, MaxFaults=1, MaxPath=3, MaxHops=5, MaxLen=30,
             Foreign="TRUE")
    c.update(k)
    return cfg(init="HInit", next="HNext", constants=c)


def mcfg(**k):
    c = dict(Nodes="{1, 2, 3}", MaxRoutes=1, MaxSubs=1, MaxSends=1,
             MaxArrivals=2, MaxFaults=1, MaxPath=2, MaxHops=3, MaxLen=0,
             Foreign="TRUE")
    c.update(k)
    return cfg(init="HInit", next="HNext", constants=c,
               invariants=("Exact", "Complete", "OnTheWay", "Hidden",
                           "OnlyThere"))


def convert(rng, g, nodes, twice=0.1):
    sched, faults, again = [], [], []
    q = rng.choice([0.3, 0.7, 0.95])
    for n in range(1, nodes + 1):
        for t in range(1, 17):
            if rng.random() < (q if t < 5 else 0.25 * q):
                sched.append({"a": "sub", "n": n, "t": t, "c": 0})
    rng.shuffle(sched)
    for i, s in enumerate(sched):
        s["c"] = i + 1
    p = rng.choice([0.1, 0.5, 1])
    for s in g["s"]:
        s = dict(s)
        if s["a"] == "fault":
            faults.append([s["k"], s["h"]])
            continue
        if s["a"] == "send":
            s["direct"] = len(s["path"]) == 1 and rng.random() < 0.5
            s["wait"] = rng.random() < p
            if not s["dest"] and not s["rp"]:
                # There is space for more, or for something large.
                if rng.random() < 0.15:
                    s["ts"] = sorted(set(s["ts"] + rng.sample(
                        range(5, 17), rng.choice([4, 6, 9, 11, 12]))))
                elif len(s["path"]) < 4 and rng.random() < 0.2:
                    s["large"] = rng.choice([300, 550, 800])
            s["empty"] = [t for t in s["ts"] if rng.random() < 0.15]
        sched.append(s)
        while s["a"] == "send" and rng.random() < twice:
            # The same once more, a moment later or much later.
            s = dict(s, k=s["k"] + 1000, same=s["k"])
            again.append(s)
        if rng.random() < 0.08:
            sched.append({"a": "quiet"})
        if again and rng.random() < 0.5:
            sched.append(again.pop(rng.randrange(len(again))))
    sched += again
    return {"id": 0, "nodes": nodes, "sched": sched, "faults": faults}


def score(p):
    def f(g):
        gens, hops, dest, rp, far = {}, 0, 0, 0, 0
        for s in g["s"]:
            if s["a"] == "gen":
                gens[s["id"]] = s
            elif s["a"] == "send":
                if s["dest"]:
                    dest += 3 if s["dest"][0] in gens else 1
                rp += s["rp"] != 0
                hops += len(s["path"])
            elif s["a"] == "arrive":
                far += min(s["h"], 4)
        return 2 * dest + rp + 0.5 * hops + 0.5 * far + 0.5 * len(gens)
    return f


def twice(ctx):
    """Sends with equal contents are different messages (C03)."""
    rng = ctx.rng
    g = generate(ctx, "MCNetwork", gcfg(MaxSends=4, MaxRoutes=2, MaxLen=12,
                                        MaxFaults=0), "SCHED",
                 ctx.pick(150, 2000), depth=100)
    g.sort(key=lambda x: json.dumps(x, sort_keys=True))
    rng.shuffle(g)
    cases = [convert(rng, x, 5, 0.7) for x in g[:ctx.pick(60, 1000)]]
    fam_msgr.number(cases)
    check_traces(ctx, "network", "TraceNetwork", cases, quiet=40,
                 workers=16, par=ctx.pick(4, 8),
                 constants=dict(Nodes="{1, 2, 3, 4, 5, 6}"),
                 timeout=ctx.pick(300, 3000))


def run(ctx):
    build(ctx)
    p, rng = ctx.prop, ctx.rng
    c15 = p == "C15"
    own = dict(Foreign="FALSE")
    if c15:
        mc = [dict(own, MaxArrivals=1, MaxFaults=0, MaxSends=2,
                   MaxPath=1, MaxHops=2, Nodes="{1, 2}"),
              dict(own, MaxArrivals=1)]
        if THOROUGH:
            mc += [own, dict(own, MaxArrivals=1, MaxFaults=0, MaxSends=2,
                             Nodes="{1, 2}"),
                   dict(own, MaxPath=1, MaxSends=2),
                   dict(own, MaxRoutes=2), dict(own, MaxPath=3,
                                                Nodes="{1, 2, 3, 4}")]
    else:
        mc = [dict(MaxFaults=0, MaxArrivals=1)]
        if THOROUGH:
            mc += [{}, dict(MaxHops=4, MaxFaults=0),
                   dict(MaxPath=3, MaxFaults=0, MaxHops=2,
                        Nodes="{1, 2, 3, 4}"),
                   dict(MaxHops=2, MaxSends=2, Nodes="{1, 2}")]
    for k in mc:
        model_check(ctx, "MCNetwork", mcfg(**k), workers=ctx.pick(4, 8),
                    timeout=ctx.pick(300, 6000))
    g = []
    n = ctx.pick(110, 2000)
    confs = [(5, dict(Foreign="FALSE") if c15 else {}),
             (4, dict(Nodes="{1, 2, 3, 4}", MaxPath=2, MaxHops=7,
                      Foreign="FALSE" if c15 else "TRUE", MaxFaults=0)),
             (6, dict(Nodes="{1, 2, 3, 4, 5, 6}", MaxPath=5, MaxHops=4,
                      MaxRoutes=3))]
    cases = []
    for nodes, k in confs:
        g = generate(ctx, "MCNetwork", gcfg(**k), "SCHED",
                     ctx.pick(300, 6000), depth=160)
        g.sort(key=lambda x: json.dumps(x, sort_keys=True))
        rng.shuffle(g)
        g.sort(key=score(p), reverse=True)
        a, b = g[:(2 * n) // 3], g[(2 * n) // 3:]
        rng.shuffle(b)
        cases += [convert(rng, x, nodes) for x in a + b[:n // 3]]
    # A few long histories: many routes, many messages.
    g = generate(ctx, "MCNetwork", gcfg(
        Foreign="FALSE" if c15 else "TRUE", MaxRoutes=24, MaxSends=40,
        MaxLen=120, MaxFaults=0), "SCHED", ctx.pick(12, 100), depth=500)
    g.sort(key=lambda x: json.dumps(x, sort_keys=True))
    cases += [convert(rng, x, 5) for x in g[:ctx.pick(8, 80)]]
    # In some nothing happens for long: routes and subscriptions last.
    slow = cases[:ctx.pick(6, 40)]
    for c in slow:
        i = [k for k, s in enumerate(c["sched"]) if s["a"] != "sub"]
        if i:
            c["sched"].insert(rng.choice(i) + 1,
                              {"a": "hold", "m": ctx.pick(11500, 65000)})
    fam_msgr.number(cases)
    ctx.notes["sends"] = sum(s["a"] == "send" for c in cases
                             for s in c["sched"])
    check_traces(ctx, "network", "TraceNetwork", cases, quiet=40,
                 workers=16, par=ctx.pick(4, 8),
                 constants=dict(Nodes="{1, 2, 3, 4, 5, 6}"),
                 timeout=ctx.pick(300, 3000))
