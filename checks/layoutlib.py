"""Files whose blocks are laid out as the specification Layout enumerates them."""
import random

import gen


BAD = ["shadow", "blind", "single", "frameless", "lastgroup", "early"]


def model(ctx):
    ctx.model("Layout", "Layout_small", workers=4)
    ctx.refuted("Layout", ["Layout_bad_" + b for b in BAD])
    if not ctx.quick:
        ctx.model("Layout", "Layout_big", workers=8)


def layouts(ctx):
    """every layout, from TLC: groups (sequences of kinds), frame fields, frame before or after the groups"""
    out = []
    for c in "ab":
        out += ctx.scenarios("LayoutScen", "LayoutScen_" + c)[0]
    return out


def frame(rng, fields, odd):
    f = {}
    if "gran" in fields:
        f["gran"] = rng.choice([1, 7, 99, 101, 150, 1000]) if odd else rng.choice([1, 10, 20, 25, 50])
    if "dgran" in fields:
        f["dgran"] = rng.choice([1, 500])
    for a in ("lat", "lon"):
        if a in fields:
            f[a + "off"] = rng.choice([1, -1, 50, -50, 99, 12345]) if odd else rng.choice([100, -100, 12345600, -4294967400, 2147483700, 1000])
    return f


def planet(rng, lays, odd=False, refs_pool=None):
    """-> blobs, node ids, way ids, relation ids; ids increase throughout"""
    ids = {"n": rng.choice(gen.BASES), "w": rng.choice([1, 1, 2, 2**24, 2**30]), "r": rng.choice([1, 3, 10**7, 2**31 + 5])}
    pools = {"n": [], "w": [], "r": []}

    def new(k):
        pools[k].append(ids[k])
        ids[k] += rng.choice([1, 1, 1, 2, 2, 3, 17, 1000])
        return pools[k][-1]

    blobs = [gen.header(rng)] if rng.random() < 0.8 else []
    # the ids first, so that ways and relations can refer to what comes later
    plan = []
    for x in lays:
        gs = []
        for g in x["groups"]:
            gs.append([(k, [new("n") for _ in range(rng.choice([0, 1, 2, 2, 5]))] if k == "n" else None if k == "c" else new(k)) for k in g])
        plan.append((x, gs))
    refs = pools["n"] if refs_pool is None else refs_pool
    for x, gs in plan:
        f = frame(rng, x["frame"], odd)
        groups = []
        for g in gs:
            d = {"order": "".join(k for k, _ in g)}
            for k, i in g:
                if k == "n":
                    d["nodes"] = []
                    for v in i:
                        if odd:
                            q = f.get("gran", 100)
                            lo, la = rng.randrange(-179 * 10**9 // q, 179 * 10**9 // q), rng.randrange(-89 * 10**9 // q, 89 * 10**9 // q)
                        else:
                            lo, la = gen.lonlat(rng)
                            lo, la = gen.raw_coord(lo, f, "lon"), gen.raw_coord(la, f, "lat")
                        d["nodes"].append({"id": v, "lon": lo, "lat": la, "tags": gen.node_tags(rng) if rng.random() < 0.5 else []})
                elif k == "w":
                    d.setdefault("ways", []).append(gen.way(rng, i, refs, rng.choice([0, 1, 2, 3, 5, 9])))
                elif k == "r":
                    d.setdefault("rels", []).append(gen.rel(rng, i, [pools["n"], pools["w"], pools["r"]], rng.choice([0, 1, 2, 3, 5])))
                else:
                    d["changesets"] = 1
            groups.append(d)
        blobs.append(gen.blob(rng, dict({"groups": groups, "late": x["late"]}, **f)))
    return blobs, pools["n"], pools["w"], pools["r"]


def planets(ctx, count, per=8, odd=None, refs_pool=None):
    """count files of per layouts each -> [(label, rng, blobs, node ids, way ids, relation ids)]"""
    ls = layouts(ctx)
    ctx.rng.shuffle(ls)
    out = []
    for i in range(count):
        rng = random.Random("%s/%d" % (ctx.rng.random(), i))
        part = [ls[(i * per + j) % len(ls)] for j in range(per)]
        o = rng.random() < 0.3 if odd is None else odd
        pool = refs_pool(rng) if refs_pool else None
        out.append(("layouts %d" % i, rng) + planet(rng, part, o, pool))
    ctx.extra["layouts"] = min(count * per, len(ls))
    return out
