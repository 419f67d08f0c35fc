"""C09: tagfilter drops exactly the unwanted node tags and nothing else."""
import json

import filterlib as F
import layoutlib


def check(ctx):
    ctx.model("TagFilterKeys", "TagFilter_small", workers=8)
    if not ctx.quick:
        ctx.model("TagFilterKeys", "TagFilter_big", workers=8, heap="8g")
    keys, _ = ctx.scenarios("TagFilterKeys", "TagFilterKeys", marker="KEY")
    probes = sorted(keys[0])
    ctx.extra["probe_keys"] = len(probes)
    sc = F.enumerated(ctx, "TagFilterScen_a", ctx.pick(200, 4000)) + F.enumerated(ctx, "TagFilterScen_b", ctx.pick(150, 2380))
    ctx.extra["files_enumerated_by_tlc"] = len(sc)
    sc += F.random_scens(ctx, ctx.pick(150, 2500), probes)
    for label, r, blobs, *_ in layoutlib.planets(ctx, ctx.pick(48, 580)):
        sc.append(F.Scen(label, F.spice(r, blobs, probes), r, [r.choice([1, 2, 4])]))
    sc += F.special(ctx, probes)
    ctx.sample({"first": sc[0].label})
    ctx.sample({"probes": probes[:10], "kept": [keys[0][p] for p in probes[:10]]})
    F.judge(ctx, sc)
    ctx.assumptions += ["keys of an entity are distinct", "a dense node has no empty key (it cannot be encoded)"]
