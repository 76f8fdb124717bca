"""Check C14: which peer a route to us starts with."""
from vlib import *

ALLK = '{"ok", "nonode", "notfound", "error"}'


def mc(inv=True, **k):
    c = dict(NPeers=2, NChans=2, NFeats=2, MaxN=2, Kinds=ALLK, Gen="FALSE")
    c.update(k)
    return cfg(constants=c, invariants=("Good", "OddIrrelevant") if inv else ())


def concrete(rng, w):
    """Real feature bits, more details that must not matter."""
    big = rng.random() < 0.3
    pool = rng.sample(range(0, 32768 if big else 40), 3)
    if rng.random() < 0.1:
        pool[0] = 32767
    f = lambda x: 2 * pool[x // 2] + x % 2
    scale = rng.choice([1, 1, 1, 7, 300])
    for i in w["info"]:
        i["feats"] = [f(x) for x in i["feats"]]
        if rng.random() < 0.3:
            # Bits nobody asked for.
            i["feats"] += [x for x in (rng.randrange(70000) % 65536
                                       for _ in range(2))
                           if x not in range(0, 80) and
                           x // 2 not in pool]
        rng.shuffle(i["feats"])
        i["n"] *= scale
        i["how"] = rng.randrange(4)
    for c in w["chans"]:
        c["private"] = rng.random() < 0.4
    w["req"] = [f(x) for x in w["req"]]
    # Mostly few of them, so that somebody has them.
    w["req"] = rng.sample(w["req"], min(len(w["req"]),
                                        rng.choice([0, 1, 1, 2, 6])))
    w["chans"] = w["chans"][:rng.choice([1, 2, 3, 6, 6, 6])]
    rng.shuffle(w["req"])
    if rng.random() < 0.1:
        w["req"] += w["req"][:1]
    x = rng.random()
    if x < 0.04:
        w["req"].insert(rng.randint(0, len(w["req"])), rng.choice(
            [65536, 65537, 65536 + (w["req"] or [3])[0], 1 << 20, 1 << 31, (1 << 32) + 1, (1 << 64) - 2]))
    elif x < 0.08:
        w["list"] = "err"
    elif x < 0.12:
        w["chans"] = []
    return w


def joined(rng, g):
    """Many small worlds as a large one."""
    out = {"info": [], "chans": [], "list": "ok", "req": []}
    for w in g:
        off = len(out["info"])
        out["info"] += [dict(i, feats=list(i["feats"])) for i in w["info"]]
        out["chans"] += [dict(c, p=c["p"] + off) for c in w["chans"]]
        out["req"] = list(w["req"])
    if rng.random() < 0.4:
        # Mostly all that counts is the number of channels.
        out["req"] = out["req"][:rng.choice([0, 0, 1])]
    x = rng.random()
    if x < 0.5:
        # Nearly everybody has another number of channels.
        for i in out["info"]:
            i["n"] *= rng.randint(1, 40)
    x = rng.random()
    if x < 0.4:
        rng.shuffle(out["chans"])
    elif x < 0.85:
        # From few channels to many.
        out["chans"].sort(key=lambda c: out["info"][c["p"] - 1]["n"])
    for c in out["chans"]:
        # A single failing lookup spoils everything.
        if out["info"][c["p"] - 1]["kind"] == "error" and \
                rng.random() < 0.97:
            c["active"] = False
    all = list(out["chans"])
    w = concrete(rng, out)
    if rng.random() < 0.8:
        # concrete() keeps few channels only.
        for c in all:
            c["private"] = rng.random() < 0.4
        w["chans"] = all
    if rng.random() < 0.5:
        # Long lists of features.
        more = rng.sample(range(100, 30000), rng.choice([10, 40, 200]))
        for i in w["info"]:
            if rng.random() < 0.3:
                i["feats"] += more[:rng.choice([1, len(more) - 1, len(more),
                                                len(more)])]
                rng.shuffle(i["feats"])
        if rng.random() < 0.6:
            w["req"] += more[:rng.randint(1, len(more))]
            rng.shuffle(w["req"])
    return w


def run(ctx):
    build(ctx)
    rng = ctx.rng
    model_check(ctx, "MCRoute", mc(MaxN=ctx.pick(1, 2)), workers=ctx.pick(4, 8),
                timeout=ctx.pick(300, 3000))
    model_check(ctx, "MCRoute", mc(NPeers=3, NChans=3, NFeats=0, MaxN=2,
                                   Kinds=ctx.pick('{"ok", "error"}', ALLK)),
                workers=ctx.pick(4, 8), timeout=ctx.pick(300, 3000))
    g = []
    for kinds, np, nc in (('{"ok"}', 4, 6), ('{"ok", "notfound", "nonode"}',
                                             4, 6), (ALLK, 3, 4)):
        g += generate(ctx, "MCRoute", mc(False, Gen="TRUE", NPeers=np,
                                         NChans=nc, NFeats=6, MaxN=4,
                                         Kinds=kinds), "WORLD",
                      ctx.pick(3000, 30000), depth=30)
    ok = [w for w in g if all(i["kind"] != "error" for i in w["info"])]
    big = [joined(rng, rng.sample(rng.choice([ok, ok, g]),
                                  rng.choice([3, 8, 25, 60, 60, 200])))
           for _ in range(ctx.pick(120, 1000))]
    ws = [concrete(rng, w) for w in g] + big
    rng.shuffle(ws)
    cases = []
    while ws:
        k, ws = ws[:12], ws[12:]
        cases.append({"id": len(cases) + 1, "worlds": k})
        if rng.random() < 0.5:
            # The same world again, with one thing changed.
            w = json.loads(json.dumps(rng.choice(k)))
            c = rng.choice(w["chans"]) if w["chans"] else None
            if c:
                c["active"] = not c["active"]
            k.append(w)
    ctx.notes["worlds"] = sum(len(c["worlds"]) for c in cases)
    check_traces(ctx, "route", "TraceRoute", cases, par=ctx.pick(4, 8),
                 timeout=ctx.pick(300, 3000))
