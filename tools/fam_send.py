"""Checks C11, C12, C13, C24: what a request to send does to lnd."""
from vlib import *

BADKEY = ["short", "long", "prefix", "one", "curve", "zero"]
BADPATH = ["intro", "blinding", "hop", "lasthop", "blank", "nohops"]


def mcfg(free, **k):
    c = dict(Free="TRUE" if free else "FALSE", Polls=5, MaxLen=7)
    if free:
        c.update(Polls=2, MaxPolls=2)
    c.update(k)
    inv = ("OneConnection", "ConnectOnlyIfAbsent", "OneMessage", "SentIfOK",
           "NothingSentIfFailed", "SeenFirst", "Bounded",
           "NothingAfterFailure", "RefusedUntouched") if free else \
        ("NothingWrong",)
    return cfg(init="MCInit", next="MCNext", constants=c, invariants=inv)


def payloads(rng, budget):
    """Some payloads of at most budget bytes altogether."""
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        ts = rng.choice([1, 1, 3, 5, 9])
        n = rng.choice([0, 1, 4, 30])
        if budget >= ts + 1 + n:
            budget -= ts + 1 + n
            out.append({"ts": ts, "len": n})
    return out


def base(rng, direct, blind, hops):
    """A well-formed request that fits."""
    return {"direct": direct, "hops": hops, "pub": "none" if blind else "ok",
            "dest": "ok" if blind else "none",
            "blind": [rng.choice([16, 51, 60]) for _ in
                      range(rng.randint(1, 3))] if blind else [],
            "reply": "none", "rp": [], "pl": payloads(rng, 200),
            "valid": True, "list": [], "info": [], "conn": [], "query": [],
            "wire": [], "pre": False, "self": False}


def with_reply(rng, s):
    if rng.random() < 0.5:
        s["reply"] = "ok"
        s["rp"] = [rng.choice([0, 16, 51]) for _ in range(rng.randint(1, 2))]
    return s


def scripted(rng, script):
    """A script of the specification as a send."""
    req = script[0]["req"]
    blind = req["blind"] != []
    hops = rng.randint(1, 6) if req["hops"] < 30 else 30
    if req["direct"]:
        hops = 1
    s = with_reply(rng, base(rng, req["direct"], blind, hops))
    if not req["valid"]:
        spoil(rng, s)
    elif not req["direct"] and hops > 1 and rng.random() < 0.15:
        # A route that ends where it began.
        s["self"] = True
    for st in script[1:]:
        r = st["r"]
        if st["k"] == "query":
            if r == "noroute":
                r = rng.choice(["noroute", "noroute", "empty"])
            elif r == "bad":
                r = rng.choice(["nilhop", "badhop"] +
                               (["wrongend"] if blind else []))
        s[st["k"]].append(r)
    if s["conn"] == ["err"] and rng.random() < 0.7:
        # As if it had been made.
        s["list"].append("yes")
    return s


def spoil(rng, s):
    """Makes a request invalid, in one way."""
    blind = s["dest"] != "none"
    how = rng.choice(["both", "none", "key", "key", "path", "path", "reply",
                      "type", "type"])
    s["valid"] = False
    if how == "both":
        s["pub"], s["dest"] = "ok", "ok"
        s["blind"] = s["blind"] or [51]
    elif how == "none":
        s["pub"] = s["dest"] = "none"
        s["blind"] = []
    elif how == "key":
        s["pub"], s["dest"], s["blind"] = rng.choice(BADKEY), "none", []
    elif how == "path":
        s["pub"], s["dest"] = "none", rng.choice(BADPATH)
        s["blind"] = [51] * rng.randint(1, 3)
        if s["dest"] == "nohops":
            s["blind"] = []
    elif how == "reply":
        s["reply"] = rng.choice(BADPATH[:5])
        s["rp"] = [51] * rng.randint(1, 3)
    else:
        s["pl"].append({"ts": 0, "len": rng.choice([0, 5])})
    return s


def shapes(rng):
    """All kinds of requests, well-formed or not."""
    out = []
    for pub in ["none", "ok"] + BADKEY:
        for dest in ["none", "ok"] + BADPATH:
            for reply in ["none", "ok"] + BADPATH[:5]:
                for pl in ([], [1], [9, 0], [0], [3, 5]):
                    if rng.random() > 0.28 and \
                            (pub not in ("none", "ok") or
                             dest not in ("none", "ok")):
                        continue
                    s = base(rng, rng.random() < 0.4, False,
                             rng.randint(1, 4))
                    s.update(pub=pub, dest=dest, reply=reply)
                    if dest != "none":
                        s["blind"] = [51] * (0 if dest == "nohops"
                                             else rng.randint(1, 3))
                    if reply != "none":
                        s["rp"] = rng.choice([[51], [51, 51], [0], [0, 16]])
                    s["pl"] = [{"ts": t, "len": rng.choice([0, 8])}
                               for t in pl]
                    s["valid"] = ((pub == "ok" and dest == "none") or
                                  (pub == "none" and dest == "ok")) and \
                        reply in ("none", "ok") and 0 not in pl
                    if s["direct"]:
                        s["hops"] = 1
                        s["list"] = [rng.choice(["yes", "err"])]
                    out.append(s)
    return out


def near(rng):
    """Requests that are well-formed but for one thing, in every way: a
    destination too many, or one key that isn't one."""
    out = []
    for pub in ("none", "ok"):
        for dest in (["none", "ok"] if pub == "ok" else ["ok"]) + BADPATH[:5]:
            for reply in ["none", "ok"] + BADPATH[:5]:
                if dest in BADPATH and reply in BADPATH:
                    continue
                kinds = BADKEY + ["empty"]
                if dest not in BADPATH and reply not in BADPATH:
                    kinds = [""]
                for kind in kinds:
                    if pub == "ok" and dest != "none" and \
                            reply not in ("none", "ok"):
                        continue
                    s = base(rng, rng.random() < 0.4, False,
                             rng.randint(1, 4))
                    s.update(pub=pub, dest=dest, reply=reply, bk=kind)
                    if dest != "none":
                        s["blind"] = [51] * rng.randint(1, 3)
                    if reply != "none":
                        s["rp"] = rng.choice([[51], [51] * 3, [0], [16, 0]])
                    s["pl"] = [{"ts": t, "len": rng.choice([0, 8])}
                               for t in rng.choice([[], [1], [3, 5]])]
                    s["valid"] = reply in ("none", "ok") and \
                        (pub == "none" or dest == "none") and \
                        dest not in BADPATH
                    if s["direct"]:
                        s["hops"] = 1
                        s["list"] = [rng.choice(["yes", "err"])]
                    out.append(s)
    return out


def again(rng, sends):
    """Some requests are made once more, with lnd as before or another way."""
    out = []
    for s in sends:
        out.append(s)
        while rng.random() < 0.25 and len(s["list"]) < 4 and \
                "wait" not in s["list"]:
            s = dict(s, again=True)
            if s["valid"] and s["direct"] and rng.random() < 0.5:
                s.update(list=rng.choice([["no", "yes"], ["yes"],
                                          ["no", "no", "yes"]]),
                         conn=[], info=[], wire=[])
            elif s["valid"] and s["query"] == ["ok"] and \
                    rng.random() < 0.3:
                s.update(query=["noroute"], wire=[])
            out.append(s)
    return out


def sized(ctx, rng, num):
    """Requests around what an onion can carry, from the specification."""
    c = cfg(init="MCInit", next="MCNext", constants=dict(N=num))
    out = tlc(ctx, "MCSize", c, workers=1, seed=SEED, simulate=num, depth=3)
    g = printed(out, "SIZE")
    if not g:
        raise Broken("no sizes generated")
    res = []
    for r in g:
        s = base(rng, r["direct"], r["blind"] != [], r["hops"])
        s.update(blind=r["blind"], rp=r["rp"], pl=r["pl"],
                 reply="ok" if r["rp"] else "none", list=["yes"])
        res.append(s)
    # What is far beyond.
    for k in range(24):
        s = base(rng, False, k % 2 == 1, rng.randint(1, 3))
        s["list"] = ["yes"]
        w = k % 8
        if w == 0:
            s["hops"] = rng.choice([27, 28, 29, 40, 100, 300])
        elif w == 1:
            s["blind"] = [rng.choice([1, 13, 16, 51])] * rng.choice(
                [26, 27, 28, 60, 255, 256, 300])
        elif w in (2, 3):
            s["pl"] = [{"ts": rng.choice([1, 9]), "len": rng.choice(
                [1301, 5000, 65535, 65536, 70000, 1 << 20])}]
        elif w in (4, 5):
            s["reply"] = "ok"
            s["rp"] = [rng.choice([0, 20])] * rng.choice(
                [36, 37, 255, 256, 257, 512, 600])
        elif w == 6:
            s["reply"] = "ok"
            s["rp"] = [rng.choice([1300, 65535, 65536, 70000])]
        else:
            s["dest"], s["pub"] = "ok", "none"
            s["blind"] = [16, rng.choice([1300, 65535, 65536, 70000])]
        if s["blind"] and rng.random() < 0.5:
            s["direct"], s["hops"] = True, 1
        res.append(s)
    return res


def run(ctx):
    build(ctx)
    p, rng = ctx.prop, ctx.rng
    out = model_check(ctx, "MCSend", mcfg(False), workers=4)
    scripts = printed(out, "SCRIPT")
    scripts.sort(key=lambda x: json.dumps(x, sort_keys=True))
    model_check(ctx, "MCSend", mcfg(True, MaxLen=ctx.pick(6, 9)),
                workers=ctx.pick(4, 8), timeout=ctx.pick(300, 3000))
    sends, cases = [], []
    if p in ("C11", "C12"):
        for rep in range(ctx.pick(2, 20)):
            for x in scripts:
                d = x[0]["req"]["direct"]
                if not x[0]["req"]["valid"] and rep:
                    continue
                if p == "C11" and not d and rep % 2:
                    continue
                if p == "C12" and any(s["r"] == "wait" for s in x):
                    continue
                sends.append(scripted(rng, x))
        if p == "C12":
            for _ in range(ctx.pick(3, 30)):
                for x in scripts:
                    if len(x) < 4 and x[0]["req"]["valid"]:
                        sends.append(scripted(rng, x))
        for _ in range(ctx.pick(12, 60)):
            s = base(rng, rng.random() < 0.6, rng.random() < 0.5, 1)
            s["pre"] = True
            sends.append(s)
    elif p == "C13":
        for _ in range(ctx.pick(1, 8)):
            sends += shapes(rng) + near(rng)
        # Well-formed whatever the number of hops and payloads.
        sends += sized(ctx, rng, ctx.pick(120, 1500))
    else:
        sends = sized(ctx, rng, ctx.pick(400, 6000))
    # Several sends through the same server, one after the other.
    slow = [s for s in sends if len(s["list"]) > 3 or "wait" in s["list"]]
    fast = [s for s in sends if not (len(s["list"]) > 3 or
                                     "wait" in s["list"])]
    rng.shuffle(slow)
    rng.shuffle(fast)
    while slow or fast:
        k = []
        if slow:
            k.append(slow.pop())
        for _ in range(rng.randint(1, 4) if p != "C13" else 12):
            if fast:
                k.append(fast.pop())
        rng.shuffle(k)
        k = again(rng, k)
        cases.append({"id": len(cases) + 1, "sends": k,
                      "few": rng.choice([0, 1, 2, 3, 6]),
                      "par": rng.random() < 0.4})
        if p in ("C11", "C12") and rng.random() < 0.12:
            # lnd takes its time.
            s = rng.choice(k)
            s["slow"] = [0] * rng.randint(0, 3) + [ctx.pick(6500, 35000)]
    if p in ("C11", "C12"):
        # Many at the same time.
        for n in ctx.pick([40], [40, 100, 200]):
            k = []
            for _ in range(n):
                s = base(rng, p == "C11" or rng.random() < 0.6,
                         rng.random() < 0.5, 1)
                if s["direct"]:
                    s["list"] = ["yes"] if p == "C12" else rng.choice(
                        [["yes"], ["no", "yes"]])
                else:
                    s["query"] = ["ok"]
                    s["list"] = ["yes"]
                s["slow"] = [300, 300, 300]
                k.append(s)
            cases.append({"id": len(cases) + 1, "sends": k, "few": 3,
                          "par": True})
    ctx.notes["sends"] = sum(len(c["sends"]) for c in cases)
    check_traces(ctx, "send", "TraceSend", cases, workers=160,
                 constants=dict(MinGap=700),
                 par=ctx.pick(2, 8), timeout=ctx.pick(400, 3000))
