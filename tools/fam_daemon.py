"""Checks C17 and C08 (the daemon's part): the life of a real daemon."""
from vlib import *
import fam_life
import fam_msgr

KINDS = ["refuse", "err", "network", "version"]


def mcfg(**k):
    c = dict(Retries="{0, 1}", MaxStarts=2, MaxStops=2, MaxCalls=1,
             Results='{"err", "ok", "okfail"}', MaxLen=0, Slack=3000)
    c.update(k)
    return cfg(init="MCInit", next="MCNext", constants=c,
               invariants=("Bounded", "OneStart", "Refused", "ReportOnce",
                           "Once", "StartMeans", "NothingLeft"),
               properties=("NoMore",))


def gcfg(**k):
    c = dict(Retries="{0, 1, 2, 3}", MaxStarts=3, MaxStops=2, MaxCalls=3,
             Results='{"refuse", "err", "ok", "okfail"}', MaxLen=12, Slack=3000)
    c.update(k)
    return cfg(init="MCInit", next="MCNext", constants=c)


def kind(s):
    """What is special about a schedule."""
    k, started, told, stopped, lost = set(), 0, "", 0, 0
    n = 0
    for x in s:
        a = x["a"]
        st = ("stopped" if stopped else "lost" if lost else told or
              ("starting" if started else "new"))
        if a != "quiet":
            k.add((a, x.get("r"), x.get("retries"), st, n))
        if a == "start":
            started += 1
        elif a == "tell":
            n += 1
            told = x["r"]
        elif a == "stop":
            stopped += 1
        elif a == "lose":
            lost += 1
    return k


GOOD = dict(opt="", client=True, version=[0, 15, 0])


def convert(rng, x):
    s = x["s"]
    conf = dict(GOOD, wait=rng.choice([0, 0, 2, 10, 40, 120]))
    out = fam_life.convert(rng, s[1:])["sched"]
    for st in out:
        if st["a"] == "tell" and st["r"] in ("refuse", "err"):
            st["r"] = rng.choice(KINDS)
    return {"id": 0, "conf": conf, "retries": s[0]["retries"],
            "cb": s[0]["cb"], "cbstop": rng.random() < 0.5, "sched": out}


def confs():
    """Configurations, valid or not."""
    out = []
    for v in ([], [0, 15, 0], [0, 15, 1], [0, 16, 0], [1, 0, 0], [0, 14, 9],
              [0, 14, 0], [0, 0, 99], [0, 0, 0], [2, 20, 30]):
        for wait in (-1, 0, 5, -10000):
            for client in (True, False):
                out.append(dict(opt="", client=client, version=v, wait=wait))
    for opt in ("mainnet", "testnet", "regtest", "simnet", "nolistener",
                "fail"):
        for wait in (-1, 0, 5):
            for client in (True, False):
                out.append(dict(opt=opt, client=client, version=[0, 15, 0],
                                wait=wait))
    return [{"id": 0, "conf": c, "retries": 3, "cb": i % 2 == 0,
             "cbstop": False,
             "sched": [{"a": "start", "c": 1}, {"a": "tell", "r": "ok"},
                       {"a": "quiet"}] if i % 3 else []}
            for i, c in enumerate(out)]


def many(rng):
    """Many retries, and all of them used."""
    out = []
    for n in (4, 20, 127, 128, 254, 255):
        for more in ("ok", "err"):
            s = [{"a": "start", "c": 1}]
            s += [{"a": "tell", "r": rng.choice(["refuse", "refuse", "err"])}
                  for _ in range(n)]
            s.append({"a": "tell", "r": more})
            s += [{"a": "call", "c": 1}, {"a": "quiet"}]
            out.append({"id": 0, "conf": dict(GOOD, wait=0 if n > 20 else 5),
                        "retries": n, "cb": True, "cbstop": False,
                        "sched": s})
    # Success, with retries left.
    for n in (1, 2, 3, 4, 5, 9, 30):
        for left in (1, 4):
            s = [{"a": "start", "c": 1}]
            s += [{"a": "tell", "r": rng.choice(KINDS)} for _ in range(n)]
            s += [{"a": "tell", "r": "ok"}, {"a": "quiet"},
                  {"a": "call", "c": 1}, {"a": "quiet"}]
            out.append({"id": 0, "conf": dict(GOOD, wait=1),
                        "retries": n + left, "cb": True, "cbstop": False,
                        "sched": s})
    # No longer waits than those configured, however many there are.
    for i, (wait, n, sleep) in enumerate(
            [(4000, 3, 15600), (1600, 4, 6500), (500, 8, 4500), (0, 9, 4000)]):
        s = [{"a": "start", "c": 1}]
        s += [{"a": "tell", "r": KINDS[i]} for _ in range(n)]
        s += [{"a": "sleep", "c": sleep}, {"a": "quiet"},
              {"a": "tell", "r": "ok"}, {"a": "quiet"}]
        out.append({"id": 0, "conf": dict(GOOD, wait=wait), "retries": n + i,
                    "cb": True, "cbstop": False, "sched": s})
    # A stop during a long wait.
    for i in range(6):
        s = [{"a": "start", "c": 1}, {"a": "tell", "r": KINDS[i % 4]},
             {"a": "quiet"}, {"a": "stop", "c": 1}, {"a": "quiet"}]
        out.append({"id": 0, "conf": dict(GOOD, wait=20000), "retries": i,
                    "cb": True, "cbstop": False, "sched": s})
    return out


def losses(rng, n):
    """lnd's messages end."""
    out = []
    for i in range(n):
        k = rng.choice([0, 1, 2, 3])
        s = [{"a": "start", "c": 1}]
        s += [{"a": "tell", "r": rng.choice(KINDS)} for _ in range(k)]
        if rng.random() < 0.3:
            # Before anybody listens.
            s.insert(rng.randrange(len(s)), {"a": "lose"})
        s.append({"a": "tell", "r": "ok"})
        if rng.random() < 0.5:
            s.append({"a": "quiet"})
        s += [{"a": "lose"}, {"a": "quiet"}]
        if rng.random() < 0.5:
            s += [{"a": "call", "c": 1}, {"a": "quiet"}]
        if rng.random() < 0.3:
            s += [{"a": "stop", "c": 1}, {"a": "stop", "c": 2}]
        out.append({"id": 0, "conf": dict(GOOD, wait=rng.choice([0, 1, 20])),
                    "retries": k + rng.choice([0, 1, 4, 200]),
                    "cb": rng.random() < 0.7, "cbstop": rng.random() < 0.3,
                    "sched": s})
    return out


def check(ctx, loss):
    rng = ctx.rng
    model_check(ctx, "MCDaemon", mcfg(), workers=4)
    if not loss:
        model_check(ctx, "MCDaemon", mcfg(
            Retries=ctx.pick("{2}", "{0, 1, 2, 3}"), MaxStarts=1,
            MaxCalls=ctx.pick(1, 2)), workers=ctx.pick(4, 8),
            timeout=ctx.pick(300, 3000))
    g = generate(ctx, "MCDaemon", gcfg(), "SCHED", ctx.pick(1500, 20000),
                 depth=200)
    g += generate(ctx, "MCDaemon", gcfg(MaxLen=8, MaxStarts=2), "SCHED",
                  ctx.pick(1500, 20000), depth=200)
    if loss:
        g = [x for x in g if any(y["a"] == "lose" for y in x["s"])]
    old = fam_life.kind
    fam_life.kind = kind
    try:
        g, count = fam_life.select(
            rng, g, ctx.pick(60, 1500) if loss else ctx.pick(250, 4000))
    finally:
        fam_life.kind = old
    ctx.notes["daemon_situations"] = len(count)
    cases = [convert(rng, x) for x in g]
    cases += losses(rng, ctx.pick(60, 1000) if loss else 20)
    if not loss:
        cases += confs() + many(rng)
    fam_msgr.number(cases)
    check_traces(ctx, "daemon", "TraceDaemon", cases, par=ctx.pick(4, 8),
                 constants=dict(Slack=3000),
                 timeout=ctx.pick(400, 3000))


def run(ctx):
    build(ctx)
    check(ctx, False)
