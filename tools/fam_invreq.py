"""Check C21: requests for invoices within the terms of an offer."""
from vlib import *
import fam_artifact


def mc(gen, **k):
    c = dict(N=3, MaxAsks=1, Gen="TRUE" if gen else "FALSE",
             Chains='{"-", "a", "b"}', Feats='{"-", "a", "b"}',
             Keys='{"k1", "k2"}', Notes='{"-", "a", "l"}')
    c.update(k)
    return cfg(constants=c,
               invariants=() if gen else ("Right", "Inverted", "Stateless"))


def run(ctx):
    build(ctx)
    rng = ctx.rng
    sh = fam_artifact.shapes(ctx)
    small = dict(Chains='{"-", "a"}', Feats='{"-"}', Keys='{"k1"}',
                 Notes='{"-"}')
    model_check(ctx, "MCInvReq", mc(False, N=ctx.pick(4, 6), **small),
                workers=4, timeout=600)
    model_check(ctx, "MCInvReq", mc(False, N=ctx.pick(2, 3), MaxAsks=2,
                                    **small), workers=ctx.pick(4, 8),
                timeout=ctx.pick(300, 3000))
    g = generate(ctx, "MCInvReq", mc(True, MaxAsks=12), "ASK",
                 ctx.pick(400, 4000), depth=16)
    # Every combination of terms and one request, too.
    out = model_check(ctx, "MCInvReq", mc(True, Chains='{"a"}', Feats='{"b"}',
                                          Keys='{"k2"}', Notes='{"-"}'),
                      workers=1, timeout=600)
    by = {}
    for x in printed(out, "ASK"):
        by.setdefault(json.dumps(x["offer"], sort_keys=True),
                      {"offer": x["offer"], "asks": []})["asks"] += x["asks"]
    for x in by.values():
        g += [x, dict(x, asks=list(reversed(x["asks"])))]
    cases = []
    for x in g:
        extra = []
        for t, v in ((1, "a"), (14, "2"), (20, "a"), (39, "b"), (61, "l"),
                     (1001, "e")):
            if rng.random() < 0.2:
                extra.append({"t": t, "v": v})
        cases.append({"id": len(cases) + 1, "offer": x["offer"],
                      "asks": x["asks"], "extra": extra})
    ctx.notes["requests"] = sum(len(c["asks"]) for c in cases)
    check_traces(ctx, "invreq", "TraceInvReq", [sh] + cases,
                 par=ctx.pick(4, 8), timeout=ctx.pick(300, 3000))
