"""Check C25: encodings."""
from vlib import *
import fam_msgr

BIG = 2 ** 64 - 1
INV = ("RoundTrip", "Again", "Parts", "Refused", "Deterministic", "DataTrip")


def mc(types, finals, recs, gen):
    return cfg(constants=dict(Types=types, MaxFinals=finals, MaxRecs=recs,
                              Gen="TRUE" if gen else "FALSE"),
               invariants=() if gen else INV)


def number(t):
    return t[0] << 48 | t[1] << 32 | t[2] << 16 | t[3]


def real(rng, t):
    """A type of the kind of t."""
    if t == BIG:
        return rng.choice([BIG, BIG, BIG - 1, 2 ** 63, 2 ** 32, 2 ** 32 - 1])
    if t in (67, 80):
        return rng.choice([t, 65, 68, 100, 252, 253, 254, 65535, 65536, 65537])
    return t


def sizes(rng):
    return rng.choice([1, 1, 2, 7, 33, 60, 252, 253, 254, 300, 1000])


def payload(rng, p, cuts, muts):
    n = None
    if p["reply"]:
        n = [rng.choice([0, 1, 16, 60, 255, 256, 300])
             for _ in p["reply"][0]["hops"]]
        if rng.random() < 0.1 and n:
            n = n * rng.choice([2, 5, 27])
    same = {}
    fs = []
    for f in p["finals"]:
        t = number(f["t"])
        same.setdefault(t, real(rng, t))
        fs.append({"t": same[t], "n": sizes(rng) if f["v"] else 0})
    return {"a": "payload", "reply": n, "enc": sizes(rng) if p["enc"] else 0,
            "finals": fs, "cuts": cuts, "muts": muts}


def stream(rng, s, data, muts):
    same, rs = {}, []
    for x in s["recs"]:
        t = number(x["t"])
        if t > 63:
            same.setdefault(t, real(rng, t))
        what, n, bad = "bytes", sizes(rng) if x["v"] else 0, ""
        if x["reply"]:
            what, n = "path", len(x["reply"][0]["hops"])
            if rng.random() < 0.3:
                bad = rng.choice(["more", "fewer", "long", "cut", "key"])
        elif x["key"]:
            what = "key"
            if rng.random() < 0.2:
                bad = rng.choice(["cut", "long", "key"])
        if rng.random() < 0.08:
            bad = rng.choice(["size", "huge", "type", "len"])
        rs.append({"t": same.get(t, t), "what": what, "n": n, "bad": bad})
    return {"a": "dstream" if data else "stream", "recs": rs, "end": s["end"],
            "cuts": 0, "muts": muts}


def run(ctx):
    build(ctx)
    rng = ctx.rng
    model_check(ctx, "MCCodec", mc("{1, 2, 4, 6, 8, 63, 64, 66, 67, 0}",
                                   ctx.pick(3, 4), ctx.pick(2, 3), False),
                workers=ctx.pick(4, 8), timeout=ctx.pick(300, 3000))
    cs = []
    for types, f, r in (("{1, 4, 63, 64, 65, 66, 67, 0}", 3, 1),
                        ("{1, 2, 3, 4, 6, 8, 64, 65, 66, 0}", 1, 2),
                        ("{2, 4, 66}", 1, ctx.pick(3, 4))):
        out = model_check(ctx, "MCCodec", mc(types, f, r, True), workers=1,
                          timeout=900)
        cs += printed(out, "CASE")
    ps = [x["p"] for x in cs if x["mode"] == "payload"]
    ss = [x["s"] for x in cs if x["mode"] == "stream"]
    rng.shuffle(ps)
    rng.shuffle(ss)
    steps = []
    for i, p in enumerate(ps[:ctx.pick(2500, 30000)]):
        deep = i % 12 == 0
        steps.append(payload(rng, p, 1500 if deep else 0, 30 if deep else 0))
    clean = [s for s in ss if s["end"] == "clean"]
    rest = [s for s in ss if s["end"] != "clean"]
    ss = clean[:ctx.pick(2500, 30000)] + rest[:ctx.pick(500, 8000)]
    for i, s in enumerate(ss):
        steps.append(stream(rng, s, i % 4 == 0, 4 if i % 5 == 0 else 0))
    # The limits.
    lim = [dict(reply=[0] * n) for n in (0, 1, 27, 254, 255, 256, 257, 300, 512)]
    lim += [dict(reply=[n]) for n in (65000, 65433, 65434, 65535, 65536, 70000)]
    lim += [dict(enc=n) for n in (252, 253, 65534, 65535, 65536)]
    lim += [dict(finals=[{"t": t, "n": n}]) for n in (0, 65535, 65536)
            for t in (64, 65, 66, 1000)]
    lim += [dict(finals=[{"t": t, "n": 3}])
            for t in list(range(0, 70)) + [252, 253, 254, 2 ** 32, BIG]]
    lim += [dict(finals=[{"t": t, "n": 1} for t in rng.sample(
        range(64, 400), n)], reply=[3, 4]) for n in (20, 60, 100)]
    for x in lim:
        x = dict(dict(a="payload", reply=None, enc=0, finals=[], cuts=0,
                      muts=2), **x)
        steps.append(x)
    for nx in (True, False):
        for ov in (True, False):
            for _ in range(ctx.pick(10, 100)):
                steps.append({"a": "data", "next": nx, "over": ov,
                              "cuts": 100, "muts": 60})
    for n in [0, 1, 2, 255, 256, 1366, 65534, 65535, 65536, 70000, 131071] + [
            rng.randrange(3000) for _ in range(ctx.pick(20, 300))]:
        steps.append({"a": "msg", "n": n, "cuts": 60, "muts": 40})
    rng.shuffle(steps)
    cases = [{"id": 0, "steps": steps[k:k + 20]}
             for k in range(0, len(steps), 20)]
    fam_msgr.number(cases)
    ctx.notes["structures"] = len(steps)
    check_traces(ctx, "codec", "TraceCodec", cases, par=ctx.pick(4, 8),
                 timeout=ctx.pick(300, 3000))
