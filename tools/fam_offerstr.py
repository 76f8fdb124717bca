"""Check C22: which strings are offers."""
from vlib import *
import fam_artifact

ALL = '{"C", "+", "s", "x", "n", "W"}'


def mc(use, n, gen):
    return cfg(constants=dict(Use=use, MaxLen=n, Gen="TRUE" if gen else
                              "FALSE"),
               invariants=() if gen else ("Same", "Around", "Joins"))


def run(ctx):
    build(ctx)
    rng = ctx.rng
    sh = fam_artifact.shapes(ctx)
    model_check(ctx, "MCOfferString", mc(ALL, ctx.pick(6, 7), False),
                workers=ctx.pick(4, 8), timeout=ctx.pick(300, 3000))
    strs = []
    for use, n in ((ALL, ctx.pick(4, 5)),
                   ('{"C", "+", "s"}', ctx.pick(7, 9))):
        out = model_check(ctx, "MCOfferString", mc(use, n, True), workers=1,
                          timeout=600)
        strs += printed(out, "STR")
    rng.shuffle(strs)
    strs = strs[:ctx.pick(4000, 40000)]
    # Long ones, which are mostly right.
    for _ in range(ctx.pick(1500, 15000)):
        s = ["s"] if rng.random() < 0.3 else []
        n = rng.randint(1, 9)
        if rng.random() < 0.05:
            n = rng.choice([15, 16, 17, 31, 40, 64, 70])
        for _ in range(n):
            s += ["C"] if rng.random() < 0.9 else ["C", "C"]
            s += ["+"] + ["s"] * (rng.random() < 0.5)
        s += ["C"] + ["s"] * (rng.random() < 0.3)
        if rng.random() < 0.4:
            s.insert(rng.randint(0, len(s)),
                     rng.choice(["+", "s", "x", "n", "W"]))
        strs.append(s)
    one = []
    for s in strs:
        if not s:
            continue
        joined = s.count("C") > 0
        hrp = data = "ok"
        r = rng.random()
        hrp, data = "ok", "offer"
        if joined and r < 0.1:
            hrp = rng.choice(["other", "other", "none"])
        elif joined and r < 0.3:
            data = rng.choice(["invalid", "garbage", "padding"])
        one.append({"str": s, "hrp": hrp, "data": data,
                    "up": rng.random() < 0.4, "long": rng.random() < 0.2})
    # The plain string in all variants.
    for hrp in ("ok", "other", "none"):
        for data in ("offer", "invalid", "garbage", "padding"):
            for up in (False, True):
                for _ in range(6):
                    one.append({"str": ["C"], "hrp": hrp, "data": data,
                                "up": up, "long": rng.random() < 0.3})
    rng.shuffle(one)
    cases = [{"id": k // 25 + 1, "strs": one[k:k + 25]}
             for k in range(0, len(one), 25)]
    ctx.notes["strings"] = len(one)
    check_traces(ctx, "offerstr", "TraceOfferString", [sh] + cases,
                 par=ctx.pick(4, 8), timeout=ctx.pick(300, 3000))
