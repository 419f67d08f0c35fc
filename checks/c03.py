"""C03: the node index answers every lookup exactly."""
import layoutlib
import nidxlib as N


def check(ctx):
    ctx.model("NodeIdx", "NodeIdx_small", workers=4)
    ctx.model("NodeIdx", "NodeIdx_fill", workers=4)
    if not ctx.quick:
        ctx.proof("Search")
        ctx.model("NodeIdx", "NodeIdx_big", workers=8)
    sc, _ = N.enumerated(ctx, "NodeIdxScen_a", 10**6)
    sc2, _ = N.enumerated(ctx, ctx.pick("NodeIdxScen_b", "NodeIdxScen_c"), ctx.pick(300, 6000))
    for s in sc + sc2:
        s.passes = [1]
    sc = sc + sc2
    ctx.extra["files_enumerated_by_tlc"] = len(sc)
    ctx.sample({"enumerated": sc[7].label})
    for s in N.random_scens(ctx, ctx.pick(150, 3000)):
        s.passes = [1]
        sc.append(s)
    for label, r, blobs, *_ in layoutlib.planets(ctx, ctx.pick(48, 580)):
        sc.append(N.Scen(blobs, [1], workers=r.choice([1, 2, 4]), label=label, rng=r))
    sc.append(N.long_scen(ctx, 8000, 1, [1], "one block of 8000 nodes"))
    sc.append(N.long_scen(ctx, 16000, 4, [1], "blocks of 4000 consecutive nodes", gaps=[1]))
    sc.append(N.long_scen(ctx, ctx.pick(280000, 700000), ctx.pick(40, 100), [1], "more than 2 MB of locations"))
    sc.append(N.long_scen(ctx, 5000, 2500, [1], "2500 blocks of 2 nodes"))
    sc.append(N.long_scen(ctx, 131072, 17, [1], "exactly 1 MB of locations", gaps=[1]))
    N.judge(ctx, sc, share=False)
    ctx.assumptions += ["node ids in the file strictly increase and are not negative (ENCODING.md)"]
