"""Check C27: what daemons run with is what their options say."""
from vlib import *


def mc(gen, **k):
    c = dict(MaxOpts=2, MaxMade=1, Gen="TRUE" if gen else "FALSE",
             Addrs='{"a", "b"}', Nets='{"mainnet", "regtest"}',
             Vers='{"none", "low", "min", "high"}', Retries="{0, 200}",
             Waits="{0, 7}", Logs='{"", "a", "b", "lnd"}')
    c.update(k)
    return cfg(init="MCInit", next="MCNext", constants=c,
               invariants=() if gen else ("LastWord", "NoneWithout"))


def run(ctx):
    build(ctx)
    rng = ctx.rng
    model_check(ctx, "MCConfig", mc(False, MaxOpts=ctx.pick(3, 4)),
                workers=ctx.pick(4, 8), timeout=ctx.pick(300, 3000))
    rich = dict(Addrs='{"a", "b", "c"}',
                Nets='{"mainnet", "testnet", "regtest"}',
                Retries="{0, 1, 4, 17, 255}", Waits="{0, 7, 999, 60000}")
    # Every option alone, and after one that sets everything.
    out = model_check(ctx, "MCConfig", mc(True, MaxOpts=1, **rich), workers=1,
                      timeout=600)
    one = [x["lists"][0] for x in printed(out, "LISTS")]
    one.sort(key=lambda x: json.dumps(x, sort_keys=True))
    rng.shuffle(one)
    lists = list(one)
    alls = [x for x in one if x and x[0]["k"] in ("lnd", "client")]
    for x in one:
        for _ in range(ctx.pick(2, 8)):
            y = [dict(o) for o in rng.choice(alls) + x]
            if y[-1]["k"] == "edit" and y[0].get("c") == {"addr": "none"}:
                continue
            lists.append(y)
    lists += [[]] * 8
    # A wait that can't be.
    for _ in range(20):
        lists.append(rng.choice(one) + [
            {"k": "num", "f": "wait", "n": rng.choice([-1, -1000])}] +
            rng.choice([[], [{"k": "num", "f": "wait", "n": 3}]]))
    g = generate(ctx, "MCConfig", mc(True, MaxOpts=7, MaxMade=6, **rich),
                 "LISTS", ctx.pick(300, 6000), depth=60)
    cases = [{"id": 0, "lists": x["lists"]} for x in g]
    lists = [x for x in lists if not edits_nothing(x)]
    rng.shuffle(lists)
    while lists:
        k = rng.randint(1, 12)
        cases.append({"id": 0, "lists": lists[:k]})
        lists = lists[k:]
    rng.shuffle(cases)
    for i, c in enumerate(cases):
        c["id"] = i + 1
    ctx.notes["daemons"] = sum(len(c["lists"]) for c in cases)
    check_traces(ctx, "config", "TraceConfig", cases, par=ctx.pick(4, 8),
                 timeout=ctx.pick(300, 3000))


def edits_nothing(x):
    for o in x:
        if o["k"] == "client" and o["c"] == {"addr": "none"}:
            gone = True
        elif o["k"] in ("client", "lnd"):
            gone = False
        elif o["k"] == "edit" and locals().get("gone"):
            return True
    return False
