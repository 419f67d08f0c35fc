"""C04: the passes of a node index partition the nodes, evenly."""
import layoutlib
import nidxlib as N


def check(ctx):
    ctx.model("NodeIdx", "NodeIdx_small", workers=4)
    ctx.model("NodeIdx", "NodeIdx_fill", workers=4)
    if not ctx.quick:
        ctx.proof("Share")
        ctx.model("NodeIdx", "NodeIdx_big", workers=8)
    sc, _ = N.enumerated(ctx, "NodeIdxScen_a", 10**6)
    sc2, _ = N.enumerated(ctx, ctx.pick("NodeIdxScen_b", "NodeIdxScen_c"), ctx.pick(250, 6000))
    sc += sc2
    if ctx.quick and len(sc) > 400:
        sc = ctx.rng.sample(sc, 400)
    ctx.extra["files_enumerated_by_tlc"] = len(sc)
    ctx.sample({"enumerated": sc[7].label})
    sc += N.random_scens(ctx, ctx.pick(80, 2500), many_passes=True)
    for label, r, blobs, *_ in layoutlib.planets(ctx, ctx.pick(24, 580)):
        sc.append(N.Scen(blobs, [1, 2, 3, 5], workers=r.choice([1, 2, 4]), label=label, rng=r))
    sc.append(N.long_scen(ctx, 8000, 1, [1, 2, 3, 10], "one block of 8000 nodes"))
    sc.append(N.long_scen(ctx, 16000, 4, [1, 2, 3, 4, 5, 6, 9], "blocks of 4000 consecutive nodes", gaps=[1]))
    sc.append(N.long_scen(ctx, 5000, 2500, [1, 2, 7, 64], "2500 blocks of 2 nodes"))
    sc.append(N.long_scen(ctx, ctx.pick(140000, 700000), 40, [1, 2, 3, 5], "more than 1 MB of locations"))
    N.judge(ctx, sc, share=True)
    ctx.assumptions += ["node ids in the file strictly increase and are not negative (ENCODING.md)"]
