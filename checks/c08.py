"""C08: the relation index lists every relation with the locations of its ways."""
import layoutlib
import rellib as R
import waylib


def check(ctx):
    ctx.model("RelIdx", "RelIdx_small", workers=8)
    if not ctx.quick:
        ctx.model("RelIdx", "RelIdx_live", workers=8)
        ctx.model("RelIdx", "RelIdx_big", workers=8, heap="6g")
    sc = R.enumerated(ctx, "RelIdxScen_a", ctx.pick(200, 4000))
    ctx.extra["files_enumerated_by_tlc"] = len(sc)
    sc += R.random_scens(ctx, ctx.pick(100, 2500))
    for label, r, blobs, _, wids, _ in layoutlib.planets(ctx, ctx.pick(48, 580)):
        ws = waylib.way_blobs(r, [w for w in wids if r.random() < 0.8], r.choice([1, 2]))
        sc.append(R.Scen(label, blobs, ws, runs=[(r.choice([1, 1, 2, 3]), r.choice([1, 2, 4]))], align=r.choice([0, 3]), rng=r))
    sc += R.special(ctx)
    ctx.sample({"first": sc[0].label, "runs": sc[0].runs})
    R.judge(ctx, sc)
    ctx.assumptions += ["ids of way members are positive"]
