"""Checks C18, C19, C20, C26: offers, invoice requests and invoices as streams."""
from vlib import *

JUDGE = {"C18": "root", "C19": "sig", "C20": "form",
         "C26": "rpc"}
KINDS = ["offer", "request", "invoice"]
BREAKS = '{"trunc", "swap", "dup", "tail", "over", "wide"}'
EXTRA = [1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25, 27, 29, 31, 33, 35, 37,
         39, 41, 43, 61, 239, 1001, 1003, 65535, 65537, 2000001, 2000003,
         2000009]
# Records among the signatures or just outside, and unknown even ones.
RANGE = [241, 243, 599, 999, 6, 242, 1000, 1002]
KEY = {"offer": 30, "request": 38, "invoice": 30}
REQ = {"offer": {10, 30}, "request": {4, 38}, "invoice": {8, 10, 30, 40, 42}}


def tset(xs):
    return "{%s}" % ", ".join(str(x) for x in xs)


def mc(gen, inv=(), **k):
    c = dict(Gen="TRUE" if gen else "FALSE", MaxSteps=8, PutTypes="{}",
             Extra=tset(EXTRA), SigRange=tset(RANGE), Breaks=BREAKS,
             InKinds='{"offer", "request", "invoice"}')
    c.update(k)
    return cfg(constants=c, invariants=inv)


def shapes(ctx, inv=True):
    c = cfg(constants=dict(Types=ctx.pick("{1, 2, 241, 1001}",
                                          "{1, 2, 3, 240, 241, 1001}"),
                           Vals='{"a", "b"}', MaxLen=3, MaxShape=64),
            invariants=("Injective", "ShapeOK") if inv else ())
    out = model_check(ctx, "MCMerkle", c, workers=4, timeout=600)
    s = printed(out, "SHAPE")
    return {"id": 0, "shapes": sorted({x["n"]: x for x in s}.values(),
                                      key=lambda x: x["n"])}


def adapt(rng, g, prop):
    """More signatures, and steps that are taken back."""
    k = g["kind"]
    steps = [s for s in g["steps"] if s["op"] != "none"]
    have = {r["t"]: r["v"] for r in g["start"]}
    sign = {"op": "sign", "key": "k1", "as": k}
    if prop == "C19" or rng.random() < 0.4:
        if not REQ[k] <= set(have):
            # Worth nothing without the required ones.
            for t in REQ[k]:
                have.setdefault(t, None)
            g["start"] = [r for r in g["start"] if r["t"] not in REQ[k]]
            for t in REQ[k]:
                v = "k1" if t == KEY[k] else \
                    "2" if (k, t) in (("invoice", 8), ("invoice", 40)) else "a"
                g["start"].append({"t": t, "v": v})
            g["start"].sort(key=lambda r: r["t"])
        steps.insert(rng.randint(0, min(2, len(steps))), sign)
    out = []
    for s in steps:
        out.append(s)
        if s["op"] == "break":
            break
        if s["op"] == "put" and rng.random() < 0.4:
            old = next((r["v"] for r in g["start"] if r["t"] == s["t"]), None)
            out.append({"op": "put", "t": s["t"], "v": old} if old
                       else {"op": "drop", "t": s["t"]})
        if s["op"] in ("put", "drop") and rng.random() < 0.25:
            out.append(sign)
    return {"kind": k, "start": g["start"], "steps": out}


def run(ctx):
    build(ctx)
    rng = ctx.rng
    sh = shapes(ctx)
    inv = ("Covered", "RangeFree", "Formed", "Ordered", "AllTold")
    for k, puts in (("offer", [22, 24] if ctx.prop == "C20" else [10, 30]),
                    ("request", [4, 38]), ("invoice", [30, 40])):
        if ctx.prop in ("C18", "C26") and k != "offer":
            continue
        model_check(ctx, "MCArtifact", mc(
            False, inv, InKinds='{"%s"}' % k, MaxSteps=ctx.pick(3, 4),
            PutTypes=tset(puts + [61]), Extra="{}",
            SigRange="{241}", Breaks='{"trunc"}'), workers=ctx.pick(4, 8),
            timeout=ctx.pick(300, 3000))
    g = []
    for k in KINDS if ctx.prop != "C26" else ["offer"]:
        n = 2 if ctx.prop == "C26" else 1
        g += generate(ctx, "MCArtifact", mc(True, InKinds='{"%s"}' % k),
                      "ART", n * ctx.pick(150, 2500), depth=30)
    cases = [adapt(rng, x, ctx.prop) for x in g]
    rng.shuffle(cases)
    for i, c in enumerate(cases):
        c["id"] = i + 1
        # What is told over gRPC has to be text.
        c["raw"] = ctx.prop != "C26"
    ctx.notes["answers"] = sum(1 + len(c["steps"]) for c in cases)
    check_traces(ctx, "artifact", "TraceArtifact", [sh] + cases,
                 constants={"Judge": '"%s"' % JUDGE[ctx.prop]},
                 par=ctx.pick(4, 8), timeout=ctx.pick(300, 3000))
