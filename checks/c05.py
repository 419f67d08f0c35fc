"""C05: rewritenodes replaces references by locations and changes nothing else."""
import random

import gen
import layoutlib
import rewritelib as R


def enumerated(ctx, big, cfg, limit):
    """files, indexes and divisions into passes chosen by TLC, realised on the big index"""
    sc, _ = ctx.scenarios("RewriteScen", cfg)
    if len(sc) > limit:
        sc = ctx.rng.sample(sc, limit)
    out = []
    bypass = {}
    for m, n in big.limits.items():
        bypass.setdefault(n, m)
    have = sorted(bypass)
    for i, x in enumerate(sc):
        rng = random.Random("%s/%d" % (ctx.rng.random(), i))
        n = len(x["cuts"])
        real = min([h for h in have if h >= n])
        m = bypass[real]
        ids = {}
        for a in range(3):
            p = next(j for j, c in enumerate(x["cuts"]) if a < c)      # the pass which answers id a
            q = p if n == real else p * real // n
            v = rng.choice(big.region(q, real))
            ids[a] = v if a in x["index"] else v + 1
        blobs = [gen.header(rng)] if rng.random() < 0.5 or not x["file"] else []
        wid = 1
        for b in x["file"]:
            if b:
                g = [{"ways": [{"id": wid, "refs": [ids[r] for r in b[0]], "tags": []}]}]
                wid += 1
            else:
                g = rng.choice([[], [{"rels": [gen.rel(rng, 4, [[], [1], []])]}], [{"nodes": [{"id": 5, "lon": 6, "lat": -7, "tags": [["a", "b"]]}]}]])
            blobs.append(gen.blob(rng, {"groups": g}))
        s = R.Scen("enumerated %s" % x, blobs, idx=big.idx, at=big.at, runs=[(m, rng.choice([1, 2, 3]))])
        s.rng = rng
        out.append(s)
    return out


def check(ctx):
    ctx.model("Rewrite", "Rewrite_quick", workers=4)
    if not ctx.quick:
        ctx.model("Rewrite", "Rewrite_small", workers=8)
        ctx.model("Rewrite", "Rewrite_big", workers=8, heap="6g")
    layoutlib.model(ctx)
    big = R.Big(ctx)
    ctx.extra["passes"] = sorted(set(big.limits.values()))
    rng = ctx.rng
    sc = []
    n = ctx.pick(60, 1500)
    sc += enumerated(ctx, big, "RewriteScen_a", n)
    sc += enumerated(ctx, big, "RewriteScen_b", n)
    for i in range(ctx.pick(60, 1500)):          # own index, own nodes
        r = random.Random("%s/%d" % (rng.random(), i))
        blobs, *_ = gen.planet(r, odd=True)
        s = R.Scen("random planet %d" % i, blobs, runs=[(None, r.choice([1, 2, 3, 8])), (1, r.choice([1, 4]))])
        s.rng = r
        sc.append(s)
    for i in range(ctx.pick(40, 800)):           # the big index, several passes
        r = random.Random("%s/%d" % (rng.random(), i))
        c = r.randrange(len(big.ids))
        pool = r.choice([big.ids[c:c + 50], r.sample(big.ids, 60), big.ids[:3] + big.ids[-3:] + big.region(1, 3)[:20]])
        pool = pool + [v + 1 for v in r.sample(pool, min(len(pool), 5))] + [-1, -2**63, -123456789]
        blobs, *_ = gen.planet(r, refs_pool=pool, nw=r.choice([1, 5, 20, 60]))
        s = R.Scen("planet %d over the big index" % i, blobs, idx=big.idx, at=big.at,
                   runs=[(m, r.choice([1, 2, 8])) for m in r.sample(sorted(big.limits), ctx.pick(2, 4))] + [(None, 3)])
        s.rng = r
        sc.append(s)

    for label, r, blobs, *_ in layoutlib.planets(ctx, ctx.pick(48, 580)):
        s = R.Scen(label, blobs, runs=[(None, r.choice([1, 2, 4]))])
        s.rng = r
        sc.append(s)

    def special(label, blobs, runs, own=False):
        s = R.Scen(label, blobs, idx=None if own else big.idx, at=None if own else big.at, runs=runs)
        s.rng = random.Random(rng.random())
        sc.append(s)

    ids = big.ids
    for refs in (2000, 20000):
        special("a way of %d references" % refs, [gen.header(rng), gen.blob(rng, {"groups": [{"ways": [
            {"id": 1, "refs": [rng.choice(ids) for _ in range(refs)], "tags": [["a", "b"]]},
            {"id": 2, "refs": ids[:5], "tags": []}]}]})], [(None, 2), (1, 2)])
    # a block which is larger than the worker's output buffer, next to small ones
    ws = [{"id": i + 1, "refs": [rng.choice(ids) for _ in range(40)], "tags": []} for i in range(7000)]
    special("a block of 7000 ways", [gen.header(rng), gen.blob(rng, {"groups": [{"ways": ws[:10]}]}),
                                     gen.blob(rng, {"groups": [{"ways": ws}]}, "raw"),
                                     gen.blob(rng, {"groups": [{"ways": ws[:10]}]})], [(None, 4)])
    special("many small blocks", [gen.header(rng)] + [gen.blob(rng, {"groups": [{"ways": [gen.way(rng, i + 1, ids)]}]})
                                                      for i in range(ctx.pick(120, 600))], [(None, 8), (2, 16)])
    special("no blobs but the header", [gen.header(rng)], [(None, 1), (1, 3)])
    # a payload of more than 64 KB, with few nodes left for the index
    special("nodes and ways in one block", [gen.header(rng), gen.blob(rng, {"groups": [
        {"nodes": [{"id": i, "lon": i, "lat": -i, "tags": [["k%d" % i, "v"]]} for i in range(1, 4000)]},
        {"ways": [{"id": i, "refs": [i, i + 1, 4100], "tags": [["k%d" % i, "é"]]} for i in range(1, 300)]},
        {"rels": [gen.rel(rng, i, [[1], [2], [3]]) for i in range(1, 30)]}], "gran": 100, "latoff": -500, "lonoff": 700})],
        [(None, 2), (None, 7)], own=True)
    ctx.sample({"first": sc[3].label, "runs": sc[3].runs})
    ctx.extra["scenarios"] = len(sc)
    R.judge(ctx, sc)
    ctx.assumptions += ["node ids in the file strictly increase and are not negative", "groups hold one kind of entity (OSM PBF)"]
