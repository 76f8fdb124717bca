"""Check C23: which macaroon is good for which method."""
from vlib import *
import fam_life
import fam_msgr

FORMS = '{"ok", "upper", "none", "empty", "garbage", "forged", "broken"}'
CAVS = '{"", "future", "expired", "unknown"}'
PEERS = {"entity": "peers", "action": "write"}
OFFCHAIN = {"entity": "offchain", "action": "read"}


def mc(**k):
    c = dict(MaxMacs=2, MaxCalls=2, Keys="{1, 2}", Cavs='{"", "expired"}',
             Forms='{"ok", "none"}', Rich="FALSE",
             Direct="FALSE", MaxLen=0)
    c.update(k)
    return cfg(init="MCInit", next="MCNext", constants=c,
               invariants=() if c["MaxLen"] else
               ("Never", "Needs", "Off", "Covered"))


def kind(s):
    """What is special about a schedule."""
    k, macs, phase, lnd, dead = set(), {}, "new", "up", set()
    for x in s:
        a = x["a"]
        if a == "bake":
            macs[x["m"]] = x
        elif a == "call":
            m = macs[x["m"]]
            ops = sorted(o["entity"] + o["action"] for o in m["ops"])
            if x["direct"]:
                k.add((x["r"], phase, lnd, m["k"] in dead,
                       json.dumps(x["req"], sort_keys=True)))
                k.add((tuple(ops), json.dumps(x["req"], sort_keys=True)))
                continue
            k.add((x["meth"], x["r"], phase, lnd, m["k"] in dead))
            k.add((x["meth"], m["cav"], x["r"] == "ok"))
            if x["r"] == "ok" and m["cav"] in ("", "future"):
                k.add((x["meth"], tuple(ops)))
        elif a == "revoke":
            dead.add(x["k"])
        elif a == "lnd":
            lnd = x["r"]
        elif a == "start":
            phase = "up"
        elif a == "stop":
            phase = "stopped"
    return k


def run(ctx):
    build(ctx)
    rng = ctx.rng
    model_check(ctx, "MCPermissions", mc(MaxMacs=1, Direct="TRUE"), workers=4)
    model_check(ctx, "MCPermissions", mc(
        Keys="{1}" if not THOROUGH else "{1, 2}",
        Cavs='{""}' if not THOROUGH else '{"", "expired"}'),
        workers=ctx.pick(4, 8), timeout=ctx.pick(300, 3000))
    g = generate(ctx, "MCPermissions", mc(
        Forms=FORMS, Cavs=CAVS, Rich="TRUE",
        Direct="TRUE", MaxLen=16, MaxMacs=4,
        MaxCalls=12), "SCHED", ctx.pick(500, 10000), depth=200)
    g += generate(ctx, "MCPermissions", mc(
        Forms='{"ok"}', Cavs='{"", "future"}', Rich="TRUE",
        Direct="TRUE", MaxLen=24,
        MaxMacs=6, MaxCalls=16, Keys="{1}"), "SCHED",
        ctx.pick(500, 10000), depth=200)
    fam_life_kind, fam_life.kind = fam_life.kind, kind
    try:
        g, count = fam_life.select(rng, g, ctx.pick(200, 3000))
    finally:
        fam_life.kind = fam_life_kind
    ctx.notes["situations"] = len(count)
    # Everything that a macaroon may allow, for every method.
    out = model_check(ctx, "MCPermSets", cfg(init="SInit"), workers=1)
    sets = printed(out, "SET")
    ctx.notes["op_sets"] = len(sets)
    rng.shuffle(sets)
    for k in range(0, len(sets), 16):
        s, i = [{"a": "start"}, {"a": "quiet"}], 0
        for x in sets[k:k + 16]:
            i += 1
            s += [{"a": "bake", "m": i, "k": 1, "ops": x["ops"], "cav": ""},
                  {"a": "call", "c": i, "meth": x["meth"], "m": i, "r": "ok",
                   "req": [PEERS if x["meth"] == "SendOnionMessage"
                           else OFFCHAIN]}]
            if rng.random() < 0.6:
                # Asked for more.
                i += 1
                s += [{"a": "bake", "m": i, "k": 1, "ops": x["ops"],
                       "cav": ""},
                      {"a": "call", "c": i, "meth": x["meth"], "m": i,
                       "r": "ok", "direct": True, "req": rng.sample(
                           [PEERS, OFFCHAIN] + 2 * [o for o in x["ops"]
                                                if o["entity"] != "uri"],
                           rng.randint(1, 2))}]
        g.append({"s": s})
    cases = [{"id": 0, "sched": x["s"]} for x in g]
    fam_msgr.number(cases)
    check_traces(ctx, "perm", "TracePermissions", cases, par=ctx.pick(4, 8),
                 timeout=ctx.pick(400, 3000))
