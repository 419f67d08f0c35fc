"""Engine of C06/C07: files of ways with locations -> real wayindex -> lookups through
internal/wayindex -> WayIdxTrace."""
import json
import os
import random

import doc
import gen
import osmpbf
import vf


def ways_of(blobs):
    return [w for b in blobs if b["type"] == "OSMData" for g in b["block"]["groups"] for w in g.get("ways", [])]


class Scen:
    def __init__(self, label, blobs, align=3, passes=(1,), workers=2, hints=(), timing=0.0, maxq=300, chains=3, rng=None, poison=False):
        self.label, self.blobs, self.align, self.passes, self.workers = label, blobs, align, list(passes), workers
        self.hints, self.timing, self.maxq, self.nchains, self.rng = list(hints), timing, maxq, chains, rng

    def cost(self):
        return sum(20 + len(w["refs"]) for w in ways_of(self.blobs)) * len(self.passes)


def prepare(ctx, s, i, d):
    rng = s.rng
    pbf, idx = os.path.join(d, "%d.pbf" % i), os.path.join(d, "%d.idx" % i)
    with open(pbf, "wb") as f:
        f.write(osmpbf.enc_file(s.blobs, rng=rng))
    r = vf.run([os.path.join(ctx.tools(), "wayindex"), "-r", "0", "-i", pbf, "-o", idx, "-w", str(s.workers), "-a", str(s.align)], timeout=300)
    ways = ways_of(s.blobs)
    where = {w["id"]: j + 1 for j, w in enumerate(ways)}
    q = [w["id"] for w in ways]
    if len(q) > s.maxq:
        q = sorted(set(q[:20] + q[-20:] + rng.sample(q, s.maxq - 40)))
    ab = {0, 1, 2, 2**31 - 1, 2**31, 2**32, 2**33, 2**62}
    for v in rng.sample(q, min(len(q), 40)):
        ab |= {v - 1, v + 1, v + 2, v + 2**31, v + 2**33, v + 2**32}
    q = sorted(set(q) | {v for v in ab if v >= 0 and v not in where})
    chains = [[rng.randrange(len(q)) for _ in range(30)] for _ in range(s.nchains)]
    V = doc.Intern()
    asked = {where[v] for v in q if v in where}
    conf = {"ways": [[V(x) for x in w["refs"]] if j + 1 in asked else [] for j, w in enumerate(ways)],
            "q": [where.get(v, 0) for v in q]}
    line = {"k": 0, "idx": idx, "passes": s.passes, "ids": [str(v) for v in q], "hints": s.hints, "chains": chains, "timing": s.timing}
    det = {"label": s.label, "align": s.align, "workers": s.workers, "ways": len(ways), "passes": s.passes,
           "first_ways": [{"id": str(w["id"]), "refs": w["refs"][:10], "n": len(w["refs"])} for w in ways[:12]],
           "queries": [str(v) for v in q[:100]], "tool": None if r.rc == 0 else r.brief()}
    return dict(conf=conf, line=line, det=det, V=V, rc=0 if r.rc == 0 else 1, files=[pbf, idx])


def conv(V, r):
    if not r:
        return []
    if r[0] != "+":
        return [[0], [0]]     # depends on the hint, or panicked
    return [[V(int(x)) for x in r[1:]]]


def judge(ctx, scens, per=20):
    scens = sorted(scens, key=lambda s: -s.cost())
    drv = ctx.driver("widx")
    ctx.tools()
    n = max(1, (len(scens) + per - 1) // per)
    chunks = [scens[i::n] for i in range(n)]

    def go(chunk):
        d = ctx.fresh("widx")
        prep = [prepare(ctx, s, i, d) for i, s in enumerate(chunk)]
        parts = [[{"ev": "build", "rc": p["rc"]}] for p in prep]
        live = [j for j, p in enumerate(prep) if p["rc"] == 0]
        while live:
            cf, of = os.path.join(d, "c"), os.path.join(d, "o")
            with open(cf, "w") as f:
                for j in live:
                    prep[j]["line"]["k"] = j
                    f.write(json.dumps(prep[j]["line"]) + "\n")
            if os.path.exists(of):
                os.remove(of)
            r = vf.run([drv, cf, of], timeout=600)
            evs = []
            if os.path.exists(of):
                for x in open(of):
                    try:
                        evs.append(json.loads(x))
                    except ValueError:
                        break
            done = bool(evs) and evs[-1]["ev"] == "end"
            if r.timeout:
                raise vf.ToolFailed("widx timed out")
            for e in evs:
                if e["ev"] != "end":
                    e["res"] = [conv(prep[e["k"]]["V"], x) for x in e["res"]]
                    parts[e["k"]].append(e)
            if done:
                break
            # the driver died (a fault in the code under test): blame the file it was at, go on after it
            at = evs[-1]["k"] if evs and evs[-1]["ev"] != "closed" else (live[0] if not evs else next((j for j in live if j > evs[-1]["k"]), live[0]))
            parts[at].append({"ev": "crash", "why": r.err[-600:].decode("utf-8", "replace")})
            live = [j for j in live if j > at]
        for p in prep:
            for fn in p["files"]:
                if os.path.exists(fn):
                    os.remove(fn)
        return vf.judge_parts(ctx, "WayIdxTrace", parts, [p["conf"] for p in prep], [p["det"] for p in prep])

    for bad, nev in ctx.pmap_proc(go, chunks):
        ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + nev
        for det, e in bad:
            what = {k: v for k, v in e.items() if k not in ("res", "qs")}
            if "res" in e:
                what["odd"] = [j for j, x in enumerate(e["res"]) if x == [[0], [0]]][:5]
            ctx.violation("%s: event %s rejected" % (det["label"], e["ev"]), {"file": det, "event": what})
    ctx.evaluations += len(scens)


# ------------------------------------------------------------------ scenarios
SPECIAL = [-1, -2, -3, -2**63, -2**63 + 1, -2**62, -128, -129, -16384, -2**31, -2**32 - 1]


def loc(rng, prev=None):
    r = rng.random()
    if r < 0.15:
        return rng.choice(SPECIAL)
    if r < 0.25 and prev is not None:
        return prev
    if r < 0.4 and prev is not None:
        v = prev + rng.choice([-1, 1, -63, -64, 63, 64, 65, 8191, 8192, -8192, -8193])
        return v if -2**63 <= v < 0 else prev
    if r < 0.45:
        return rng.choice([1, 5, 77, 2**31, 2**40])          # a node which could not be located
    return osmpbf.morton_encode(*gen.lonlat(rng))


def pool(rng):
    return [loc(rng) for _ in range(20)]


def locs(rng, n=None):
    if n is None:
        n = rng.choice([0, 0, 1, 1, 2, 2, 3, 5, 8, 20, 120])
    out = []
    for _ in range(n):
        out.append(loc(rng, out[-1] if out else None))
    if len(out) > 2 and rng.random() < 0.3:
        out[-1] = out[0]                                       # a closed way
    return out


def way_ids(rng, n):
    base = rng.choice([1, 1, 1, 2, 7, 2**24 - 3, 2**30, 2**31 - 3 - 3 * n])
    out = []
    for _ in range(n):
        out.append(base)
        base += rng.choice([1, 1, 1, 2, 3]) if base > 2**30 else rng.choice([1, 1, 1, 2, 5, 1000, 10**6])
    return [x for x in out if x < 2**31]


def way_blobs(rng, ids, nb, mk=None):
    blobs = [gen.header(rng)] if rng.random() < 0.9 else []
    if rng.random() < 0.3:
        blobs.append(gen.blob(rng, gen.block_of_nodes(rng, [(i, 5, 6, []) for i in range(1, 5)])))
    for part in gen.split(rng, ids, nb):
        ws = [{"id": i, "refs": mk(rng) if mk else locs(rng), "tags": gen.tags(rng)} for i in part]
        b = {"groups": gen.group_split(rng, ws, "ways")}
        if rng.random() < 0.1:
            b["groups"].insert(0, {"nodes": [{"id": 9, "lon": 1, "lat": 2}]})
        blobs.append(gen.blob(rng, gen.decorate(rng, b)))
        if rng.random() < 0.1:
            blobs.append(gen.blob(rng, {"groups": []}))
    if rng.random() < 0.3:
        blobs.append(gen.blob(rng, {"groups": [{"rels": [gen.rel(rng, 3, [[], ids, []])]}]}))
    return blobs


def enumerated(ctx, cfg, limit):
    sc, _ = ctx.scenarios("WayIdxScen", cfg)
    if len(sc) > limit:
        sc = ctx.rng.sample(sc, limit)
    out = []
    for i, x in enumerate(sc):
        rng = random.Random("%s/%d" % (ctx.rng.random(), i))
        base = rng.choice([0, 0, 1, 5, 2**24, 2**31 - 8])
        val = {v: rng.choice(SPECIAL) if rng.random() < 0.5 else loc(rng) for v in (1, 2, 3)}
        blobs = [gen.header(rng)]
        for b in x["blocks"]:
            blobs.append(gen.blob(rng, {"groups": [{"ways": [{"id": base + w[0], "refs": [val[v] for v in w[1]], "tags": []} for w in b]}]}))
        out.append(Scen("enumerated %s" % x["blocks"], blobs, align={1: 0, 2: 1, 4: 3}[x["align"]], workers=rng.choice([1, 2, 4]), rng=rng, chains=1))
    return out


def random_scens(ctx, count, many=False):
    out = []
    for i in range(count):
        rng = random.Random("%s/%d" % (ctx.rng.random(), i))
        n = rng.choice([0, 1, 2, 3, 8, 20, 60])
        ids = way_ids(rng, n)
        passes = [1]
        if many:
            passes = sorted({1, 2, 3, 4, 5, rng.randrange(6, 40), max(1, n), n + 1, n + 6})
        out.append(Scen("random ways %d" % i, way_blobs(rng, ids, rng.choice([1, 1, 2, 3, 6])), align=rng.choice([0, 1, 2, 3, 3, 3, 4, 6]),
                        passes=passes, workers=rng.choice([1, 2, 3, 8]), rng=rng, timing=rng.choice([0, 0, 0, 2.0, 10.0]),
                        hints=[] if n <= 20 else [0, 1, -1, -2, n // 3, 10**6]))
    return out


def long_scens(ctx, passes):
    out = []
    rng = random.Random(ctx.rng.random())

    def add(label, blobs, **kw):
        out.append(Scen(label, blobs, rng=rng, passes=passes, hints=[0, 1, -1, 5, 10**6], **kw))

    ids = list(range(1, ctx.pick(8001, 30001)))
    add("8000 ways in few blocks", way_blobs(rng, ids, 5, lambda r: locs(r, r.choice([1, 2, 3, 6]))), maxq=200, workers=8)
    add("ways of 2000 locations", way_blobs(rng, [3, 4, 9], 2, lambda r: [loc(r) for _ in range(2000)]))
    add("more than 1 MB of locations", way_blobs(rng, list(range(1, 400)), 9, lambda r: [loc(r) for _ in range(400)]), maxq=60, workers=4)
    add("many small blocks", way_blobs(rng, list(range(1, 900)), 700, lambda r: locs(r, 2)), maxq=200, workers=8, align=0)
    add("large alignment", way_blobs(rng, list(range(5, 60, 2)), 3), align=12)
    add("empty ways only", way_blobs(rng, list(range(5, 60, 2)), 3, lambda r: []), align=3)
    add("empty ways, no alignment", way_blobs(rng, list(range(5, 60, 2)), 3, lambda r: []), align=0)
    add("one value repeated", way_blobs(rng, [1, 2, 3], 1, lambda r: [-7] * r.choice([1, 2, 500])), align=2)
    return out
