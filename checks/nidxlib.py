"""Engine of C03/C04: files -> real nodeindex -> lookups through internal/nodeindex -> NodeIdxTrace."""
import json
import os

import gen
import osmpbf
import vf


def cand(nano):
    """a position in nanodegrees -> the acceptable positions in 1e-7 degrees"""
    f = nano // 100
    return (f, f) if nano % 100 == 0 else (f, f + 1)


def positions(blocks):
    """nodes of osmpbf blocks in file order: [(id, lonA, lonB, latA, latB)]"""
    out = []
    for b in blocks:
        g = b.get("gran", 100)
        for gr in b["groups"]:
            for n in gr.get("nodes", []):
                out.append((n["id"],) + cand(b.get("lonoff", 0) + g * n["lon"]) + cand(b.get("latoff", 0) + g * n["lat"]))
    return out


class Scen:
    def __init__(self, blobs, passes=(1, 2, 3), workers=4, hints=(), maxq=400, chains=6, timing=0.0, absent=None,
                 label="", rng=None, bins=None):
        self.blobs, self.passes, self.workers, self.hints = blobs, list(passes), workers, list(hints)
        self.maxq, self.nchains, self.timing, self.label, self.rng = maxq, chains, timing, label, rng
        self.absent = absent
        self.bins = bins


    def cost(self):
        return sum(len(g.get("nodes", [])) for b in self.blobs if b["type"] == "OSMData" for g in b["block"]["groups"])


def prepare(ctx, s, i, d):
    rng = s.rng
    blocks = [b["block"] for b in s.blobs if b["type"] == "OSMData"]
    pos = positions(blocks)
    pbf, idx = os.path.join(d, "%d.pbf" % i), os.path.join(d, "%d.idx" % i)
    with open(pbf, "wb") as f:
        f.write(osmpbf.enc_file(s.blobs, rng=rng))
    r = vf.run([os.path.join(s.bins or ctx.tools(), "nodeindex"), "-r", "0", "-i", pbf, "-o", idx, "-w", str(s.workers)], timeout=180)
    ids = [p[0] for p in pos]
    have = set(ids)
    where = {v: j + 1 for j, v in enumerate(ids)}
    if len(ids) <= s.maxq:
        q = list(ids)
    else:
        q = ids[:50] + ids[-50:] + rng.sample(ids, s.maxq - 100)
        # both sides of every block boundary
        n = 0
        for b in blocks:
            n += sum(len(g.get("nodes", [])) for g in b["groups"])
            q += ids[max(0, n - 2):n + 2]
        q = sorted(set(q))
    ab = set(s.absent or ())
    for v in rng.sample(q, min(len(q), 60)):
        for dlt in (-3, -2, -1, 1, 2, 3):
            ab.add(v + dlt)
    ab |= {0, 1, 2, 2**31, 2**32, 2**40, 2**62}
    if ids:
        ab |= {ids[0] - 1, ids[-1] + 1, ids[-1] + 2, ids[-1] + 2**24}
    q = sorted(set(q) | {v for v in ab if v >= 0 and v not in have})
    nch = [[rng.randrange(len(q)) for _ in range(rng.choice([5, 40]))] for _ in range(s.nchains)] if q else []
    # ways are usually local: runs of neighbouring ids, with jumps
    for _ in range(s.nchains):
        c, j = [], rng.randrange(len(q))
        for _ in range(40):
            j = rng.randrange(len(q)) if rng.random() < 0.15 else min(len(q) - 1, max(0, j + rng.choice([-2, -1, 0, 1, 1, 2])))
            c.append(j)
        nch.append(c)
    conf = {"rc": 0 if r.rc == 0 else 1, "nodes": [list(p[1:]) for p in pos], "q": [where.get(v, 0) for v in q]}
    line = {"k": 0, "idx": idx, "passes": s.passes, "ids": [str(v) for v in q], "hints": s.hints,
            "chains": nch, "timing": s.timing}
    detail = {"label": s.label, "ids": [str(v) for v in ids[:60]], "nodes": len(ids),
              "blocks": [sum(len(g.get("nodes", [])) for g in b["groups"]) for b in blocks][:60],
              "workers": s.workers, "queries": [str(v) for v in q[:80]], "tool": None if r.rc == 0 else r.brief()}
    return conf, line, detail, pbf, idx


def judge(ctx, scens, share, per=20):
    scens = sorted(scens, key=lambda s: -s.cost())
    drv = ctx.driver("nidx")
    ctx.tools()
    nch = max(1, (len(scens) + per - 1) // per)
    chunks = [scens[i::nch] for i in range(nch)]

    def go(chunk):
        d = ctx.fresh("nidx")
        prep = [prepare(ctx, s, i, d) for i, s in enumerate(chunk)]
        base = 0
        bad, nev = [], 0
        while base < len(prep):
            cf, of = os.path.join(d, "c"), os.path.join(d, "o")
            with open(cf, "w") as f:
                for j, (conf, line, *_r) in enumerate(prep[base:]):
                    line["k"] = j + 1
                    f.write(json.dumps(line) + "\n")
            if os.path.exists(of):
                os.remove(of)
            r = vf.run([drv, cf, of], timeout=600)
            evs = [json.loads(x) for x in open(of)] if os.path.exists(of) else []
            if not evs or evs[-1]["ev"] != "end":
                evs.append({"ev": "crash", "k": evs[-1]["k"] if evs else 1, "why": r.err[-800:].decode("utf-8", "replace")})
            else:
                evs = evs[:-1]
            nev += len(evs)
            k = ctx.trace("NodeIdxTrace", "NodeIdxTrace", evs, consts=None, env={
                "CONSTS": wr(d, [p[0] for p in prep[base:]]), "SHARE": "yes" if share else "no"})
            if k is None:
                break
            e = evs[min(k, len(evs) - 1)]
            j = base + max(1, e.get("k", 1)) - 1
            bad.append((prep[j], e))
            if len(bad) >= 3:
                break
            base = j + 1
        for p in prep:
            for fn in p[3:5]:
                if os.path.exists(fn):
                    os.remove(fn)
        return bad, nev

    def wr(d, confs):
        fn = os.path.join(d, "consts")
        with open(fn, "w") as f:
            for c in confs:
                f.write(json.dumps(c) + "\n")
        return fn

    for bad, nev in ctx.pmap_proc(go, chunks):
        ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + nev
        for p, e in bad:
            det = p[2]
            why = wrong(p[0], e)
            ctx.violation("%s: %s event %s" % (det["label"], why or "rejected", e["ev"]),
                          {"file": det, "event": {k: v for k, v in e.items() if k not in ("res", "qs")},
                           "first_wrong": why})
    ctx.evaluations += len(scens)


def wrong(conf, e):
    """a hint for the reader of the replay; plays no part in the verdict"""
    if e["ev"] == "file":
        return "the tool failed"
    if e["ev"] in ("pass", "chain"):
        for j, r in enumerate(e["res"]):
            if r in ([-1], [-2]):
                return "query %d: %s" % (j, "depends on the hint" if r == [-1] else "panicked")
    return None


def nodes_of(rng, ids, frame_tags=False):
    return [(i,) + gen.lonlat(rng) + ([],) for i in ids]


def exact_block(rng, ids):
    nodes = nodes_of(rng, ids)
    fr = gen.coord_frame(rng)
    if fr.get("gran", 100) != 100 or "latoff" in fr:
        g = fr.get("gran", 100)
        # offsets are multiples of 100 nanodegrees, so every position stays exact for g | 100
        assert 100 % g == 0
    return gen.block_of_nodes(rng, nodes, fr)


def odd_block(rng, ids):
    """granularities and offsets which do not give whole 1e-7 degrees"""
    g = rng.choice([1, 7, 99, 101, 150, 1000, 3])
    fr = {"gran": g, "latoff": rng.choice([0, 1, -1, 50, -50, 99, 12345]), "lonoff": rng.choice([0, 1, -1, 33, -99])}
    lim_lon, lim_lat = 179 * 10**9 // g, 89 * 10**9 // g
    gs = [{"nodes": [{"id": i, "lon": rng.randrange(-lim_lon, lim_lon), "lat": rng.randrange(-lim_lat, lim_lat), "tags": []} for i in ids]}]
    b = {"groups": gs}
    b.update(fr)
    return b


def random_file(rng, n, nb, base=None, gaps=None):
    ids = gen.node_ids(rng, n, base, gaps)
    blobs = [gen.header(rng)] if rng.random() < 0.9 else []
    for part in gen.split(rng, ids, nb):
        m = rng.random()
        if m < 0.15:
            b = odd_block(rng, part)
        else:
            b = exact_block(rng, part)
        blobs.append(gen.blob(rng, gen.decorate(rng, b)))
        if rng.random() < 0.1:
            blobs.append(gen.blob(rng, {"groups": [{"ways": [gen.way(rng, 5, ids)]}] if rng.random() < 0.5 else []}))
        if rng.random() < 0.03:
            blobs.append(gen.header(rng))
    for _ in range(rng.choice([0, 0, 1, 2])):
        blobs.append(gen.blob(rng, {"groups": gen.group_split(rng, [gen.way(rng, 10 + i, ids) for i in range(5)], "ways")}))
    if rng.random() < 0.3:
        blobs.append(gen.blob(rng, {"groups": [{"rels": [gen.rel(rng, 3, [ids, [10], []])]}]}))
    return blobs


def enumerated(ctx, cfg, limit):
    s, r = ctx.scenarios("NodeIdxScen", cfg)
    if len(s) > limit:
        s = ctx.rng.sample(s, limit)
    out = []
    for x in s:
        base = ctx.rng.choice([0, 0, 1, 1, 2, 5, 2**31 - 3, 2**32 - 3, 2**24 - 3, 2**33 - 2, 2**40])
        blobs = [gen.header(ctx.rng)]
        flat = []
        for b in x["blocks"]:
            ids = [base + i for i in b]
            flat += ids
            blobs.append(gen.blob(ctx.rng, gen.block_of_nodes(ctx.rng, nodes_of(ctx.rng, ids))))
        ab = set(range(max(0, base - 2), base + 10))
        out.append(Scen(blobs, passes=[1, 2, 3, 4, 5], workers=ctx.rng.choice([1, 2, 4]), absent=ab,
                        label="enumerated file (blocks %s from id %d)" % (x["blocks"], base), rng=ctx.rng, chains=2))
    return out, r


def random_scens(ctx, count, many_passes=False):
    rng = ctx.rng
    out = []
    for i in range(count):
        n = rng.choice([0, 1, 1, 2, 3, 5, 10, 30, 60, 150, 300])
        nb = rng.choice([1, 1, 2, 3, 5, 9])
        blobs = random_file(rng, n, nb)
        passes = [1, 2, 3] if not many_passes else [1, 2, 3, 4, 5, 7, rng.randrange(6, 40), max(1, n), n + 1, n + 7]
        passes = [1] + sorted(set(passes) - {1})
        out.append(Scen(blobs, passes=passes, workers=rng.choice([1, 2, 3, 8]), maxq=400,
                        timing=rng.choice([0.0, 0.0, 0.0, 2.0, 10.0]), label="random file %d" % i, rng=rng,
                        hints=[] if n <= 60 else [0, 1, 2, n // 7, n // 2, -1, -2, -3, 10**6]))
    return out


def long_scen(ctx, n, nb, passes, label, gaps=None, base=None, workers=8):
    rng = ctx.rng
    ids = gen.node_ids(rng, n, base, gaps or [1, 1, 1, 1, 1, 1, 1, 2, 3, 5])
    blobs = [gen.header(rng)]
    step = (n + nb - 1) // nb
    for j in range(0, n, step):
        part = ids[j:j + step]
        blobs.append({"type": "OSMData", "comp": "raw", "block": gen.block_of_nodes(rng, nodes_of(rng, part), {})})
    return Scen(blobs, passes=passes, workers=workers, maxq=1500, label=label, rng=rng, chains=2,
                hints=[0, 1, -1, -2, 17, 100, 1000, 10**7])
