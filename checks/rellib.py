"""Engine of C08: relations + way index -> real relindex -> RelIdxTrace."""
import json
import os
import random
import struct

import doc
import gen
import osmpbf
import vf
import waylib


def rels_of(blobs):
    return [r for b in blobs if b["type"] == "OSMData" for g in b["block"]["groups"] for r in g.get("rels", [])]


def parse(data):
    """words of a relation index -> records; raises ValueError when they do not add up"""
    if len(data) % 8:
        raise ValueError("length %d" % len(data))
    w = struct.unpack("<%dq" % (len(data) // 8), data)
    i, out = 0, []
    while i < len(w):
        if i + 2 > len(w):
            raise ValueError("record cut at word %d" % i)
        rid, n = w[i], w[i + 1]
        i += 2
        ways = []
        if n < 0:
            raise ValueError("%d ways at word %d" % (n, i))
        for _ in range(n):
            if i + 2 > len(w) or w[i + 1] < 0 or i + 2 + w[i + 1] > len(w):
                raise ValueError("way cut at word %d" % i)
            ways.append((w[i], w[i + 2:i + 2 + w[i + 1]]))
            i += 2 + w[i + 1]
        out.append((rid, ways))
    return out


class Scen:
    """blobs: the relations; ways: blobs of the file the way index is made from"""

    def __init__(self, label, blobs, ways, runs=((1, 2),), align=3, rng=None):
        self.label, self.blobs, self.ways, self.runs, self.align, self.rng = label, blobs, ways, list(runs), align, rng

    def cost(self):
        return (sum(len(r["members"]) for r in rels_of(self.blobs)) + 50) * len(self.runs)


def conf_of(V, L, rels, ways):
    """-> conf line; V interns 64 bit values, L location lists"""
    where = {w["id"]: j + 1 for j, w in enumerate(ways)}
    W = {}
    wids, rl = [], []
    for r in rels:
        ms = []
        for role, mid, typ in r["members"]:
            if typ == 1:
                if mid not in W:
                    W[mid] = len(wids) + 1
                    wids.append([V(mid), where.get(mid, 0)])
                ms.append([1, W[mid]])
            else:
                ms.append([typ, 0])
        rl.append([V(r["id"]), ms])
    used = {j for _, j in wids}
    return {"rels": rl, "wids": wids, "ways": [[V(x) for x in w["refs"]] if j + 1 in used else [] for j, w in enumerate(ways)]}


def records(V, L, k, rc, path):
    evs = [{"ev": "run", "k": k, "rc": rc}]
    if rc:
        return evs, None
    try:
        recs = parse(open(path, "rb").read())
    except (ValueError, OSError) as e:
        return evs + [{"ev": "garbage", "why": str(e)}], str(e)
    for rid, ways in recs:
        evs.append({"ev": "rec", "id": V(rid), "n": len(ways), "ways": [[V(a), L(b)] for a, b in ways]})
    return evs + [{"ev": "endrun"}], None


def run_scen(ctx, s, d):
    T = ctx.tools()
    pbf, wpbf, widx, out = (os.path.join(d, x) for x in ("r.pbf", "w.pbf", "w.idx", "r.idx"))
    with open(pbf, "wb") as f:
        f.write(osmpbf.enc_file(s.blobs, rng=s.rng))
    with open(wpbf, "wb") as f:
        f.write(osmpbf.enc_file(s.ways, rng=s.rng))
    r = vf.run([os.path.join(T, "wayindex"), "-r", "0", "-i", wpbf, "-o", widx, "-a", str(s.align)], timeout=300)
    if r.rc != 0:
        raise vf.ToolFailed("wayindex failed on %s: %s" % (s.label, r.brief()))
    V, L = doc.Intern(), doc.Intern()
    rels = rels_of(s.blobs)
    conf = conf_of(V, L, rels, waylib.ways_of(s.ways))
    evs = []
    det = {"label": s.label, "align": s.align, "runs": [], "relations": [[str(r["id"]), [[m[2], str(m[1])] for m in r["members"][:20]]] for r in rels[:20]],
           "ways": [[str(w["id"]), w["refs"][:10]] for w in waylib.ways_of(s.ways)[:20]]}
    for p, w in s.runs:
        r = vf.run([os.path.join(T, "relindex"), "-r", "0", "-i", pbf, "-x", widx, "-o", out, "-p", str(p), "-w", str(w)], timeout=300)
        e, why = records(V, L, 1, 0 if r.rc == 0 else 1, out)
        det["runs"].append({"passes": p, "workers": w, "rc": r.rc, "parse": why, "tool": None if r.rc == 0 else r.brief()})
        e[0]["run"] = len(det["runs"]) - 1
        evs += e
        if os.path.exists(out):
            os.remove(out)
    conf["lists"] = [[V(x) for x in t] for t in L.d]
    return evs, conf, det


def judge(ctx, scens, per=16):
    ctx.tools()
    scens = sorted(scens, key=lambda s: -s.cost())
    n = max(1, (len(scens) + per - 1) // per)

    def go(chunk):
        evs, confs, dets = [], [], []
        for s in chunk:
            d = ctx.fresh("rel")
            e, c, t = run_scen(ctx, s, d)
            vf.shutil.rmtree(d)
            evs.append(e)
            confs.append(c)
            dets.append(t)
        return vf.judge_parts(ctx, "RelIdxTrace", evs, confs, dets)

    for bad, nev in ctx.pmap_proc(go, [scens[i::n] for i in range(n)]):
        ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + nev
        for det, e in bad:
            s = json.dumps(e)
            ctx.violation("%s: event %s rejected" % (det["label"], e["ev"]), {"file": det, "event": e if len(s) < 3000 else s[:3000]})
    ctx.evaluations += sum(len(s.runs) for s in scens)


# ------------------------------------------------------------------ scenarios
def enumerated(ctx, cfg, limit):
    sc, _ = ctx.scenarios("RelIdxScen", cfg)
    if len(sc) > limit:
        sc = ctx.rng.sample(sc, limit)
    out = []
    for i, x in enumerate(sc):
        rng = random.Random("%s/%d" % (ctx.rng.random(), i))
        n, cut = len(x["cuts"]), x["cuts"][0]
        base = rng.choice([100, 1000, 2**24, 2**30])
        have = sorted(x["index"])
        # ways around those of the scenario bring the division into passes to where TLC put it
        lo, hi = len([w for w in have if w <= cut]), len([w for w in have if w > cut])
        m = max(lo, hi) + rng.choice([0, 0, 1, 3])
        ids = list(range(base - (m - lo), base)) + [base + w for w in have] + list(range(base + 50, base + 50 + m - hi))
        if n == 1 and rng.random() < 0.6:
            ids = [base + w for w in have]
        ws = [gen.blob(rng, {"groups": [{"ways": [{"id": v, "refs": waylib.locs(rng), "tags": []} for v in ids]}]})]
        rl = [{"id": r[0], "members": [["", base + m[1] if m[0] == 1 else m[1], m[0]] for m in r[1]], "tags": []} for r in x["rels"]]
        bl = [gen.header(rng)] + [gen.blob(rng, {"groups": gen.group_split(rng, part, "rels")}) for part in gen.split(rng, rl, rng.choice([1, 2]))]
        out.append(Scen("enumerated %s" % x, bl, ws, runs=[(n, rng.choice([1, 2, 4]))], align=rng.choice([0, 3]), rng=rng))
    return out


def random_scens(ctx, count):
    out = []
    for i in range(count):
        rng = random.Random("%s/%d" % (ctx.rng.random(), i))
        blobs, nids, wids, rids = gen.planet(rng, nr=rng.choice([0, 1, 3, 10, 40]))
        ids = [w for w in wids if rng.random() < 0.8]
        if rng.random() < 0.2:
            ids = waylib.way_ids(rng, rng.choice([1, 5, 40]))
        ws = waylib.way_blobs(rng, ids, rng.choice([1, 2, 3])) if rng.random() < 0.95 else [gen.header(rng)]
        if waylib.ways_of(ws) == [] and False:
            continue
        # a missing way whose id does not fit the way index at all
        for r in rels_of(blobs):
            for m in r["members"]:
                if m[2] == 1 and rng.random() < 0.05:
                    m[1] = rng.choice([2**31, 2**31 + (ids or [1])[0], 2**33 + 1, 2**40, 2**62, (ids or [1])[0] + 2**32])
        ps = rng.sample([1, 2, 3, 4, 5, 8, 17], 2) + [max(1, len(ids) + rng.choice([-1, 0, 1]))]
        out.append(Scen("random relations %d" % i, blobs, ws, runs=[(p, rng.choice([1, 2, 8])) for p in ps], align=rng.choice([0, 1, 3, 4]), rng=rng))
    return out


def special(ctx):
    out = []
    rng = random.Random(ctx.rng.random())

    def rel(i, ms):
        return {"id": i, "members": ms, "tags": []}

    ids = list(range(1, 400))
    ws = waylib.way_blobs(rng, ids, 5)

    def add(label, rels, runs, ws=ws, nb=1):
        bl = [gen.header(rng)] + [gen.blob(rng, {"groups": [{"rels": p}]}) for p in gen.split(rng, rels, nb)]
        out.append(Scen(label, bl, ws, runs=runs, rng=rng))

    add("one relation of 10000 ways", [rel(5, [["", rng.choice(ids + [500, 501]), 1] for _ in range(10000)])], [(1, 2), (3, 2)])
    add("one relation of 3000 nodes", [rel(5, [["", i + 1, 0] for i in range(3000)]), rel(6, [["x", 3, 1]])], [(2, 2)])
    add("2000 relations without members", [rel(i, []) for i in range(1, 2001)], [(1, 8), (4, 1)], nb=50)
    add("relations of relations", [rel(i, [["", i - 1, 2], ["", i, 0]]) for i in range(2, 50)], [(2, 8)])
    add("no relations", [], [(1, 1), (3, 2)])
    # the output buffer is flushed at 1,000,000 words
    long = [{"id": i, "refs": [waylib.loc(rng) for _ in range(1500)], "tags": []} for i in range(1, 41)]
    lws = [gen.header(rng)] + [gen.blob(rng, {"groups": [{"ways": p}]}) for p in gen.split(rng, long, 6)]
    big = [rel(i, [["", rng.randrange(1, 44), rng.choice([1, 1, 1, 0])] for _ in range(rng.choice([1, 20, 60]))]) for i in range(1, ctx.pick(80, 200))]
    add("more than a million words", big, [(1, 4), (2, 4), (5, 4)], ws=lws, nb=7)
    add("one record of more than a million words", [rel(1, []), rel(2, [["", i % 40 + 1, 1] for i in range(900)]), rel(3, [["", 1, 1]]), rel(4, [])],
        [(1, 4), (3, 4)], ws=lws)
    return out
