"""C07: the passes over a way index cover every way exactly once."""
import layoutlib
import waylib as W


def check(ctx):
    ctx.model("WayIdx", "WayIdx_small", workers=8)
    if not ctx.quick:
        ctx.proof("Share")
        ctx.model("WayIdx", "WayIdx_long", workers=8)
        ctx.model("WayIdx", "WayIdx_big", workers=8)
    sc = W.enumerated(ctx, "WayIdxScen_a", ctx.pick(150, 4000)) + W.enumerated(ctx, "WayIdxScen_b", ctx.pick(80, 2000))
    for s in sc:
        s.passes = [1, 2, 3, 4, 5, 6]
    ctx.extra["files_enumerated_by_tlc"] = len(sc)
    sc += W.random_scens(ctx, ctx.pick(120, 2500), many=True)
    for label, r, blobs, *_ in layoutlib.planets(ctx, ctx.pick(24, 580), refs_pool=W.pool):
        sc.append(W.Scen(label, blobs, align=r.choice([0, 1, 2, 3, 4]), passes=[1, 2, 3, 5], workers=r.choice([1, 2, 4]), rng=r))
    sc += W.long_scens(ctx, [1, 2, 3, 7])
    ctx.sample({"first": sc[0].label, "align": sc[0].align})
    W.judge(ctx, sc)
    ctx.assumptions += ["way ids strictly increase and fit 31 bits (ENCODING.md)", "references are not 0"]
