"""C11: location values are lossless and always distinguishable from ids."""
import json
import os

import doc
import gen
import osmpbf
import vf


def limbs(v):
    return doc.limbs(v)


def positions(ctx):
    rng = ctx.rng
    out = []
    lons = {0, 1, -1, gen.LON_MAX, -gen.LON_MAX}
    lats = {0, 1, -1, gen.LAT_MAX, -gen.LAT_MAX}
    for k in range(31):
        for d in (-1, 0, 1):
            for s in (1, -1):
                v = s * ((1 << k) + d)
                if abs(v) <= gen.LON_MAX:
                    lons.add(v)
                if abs(v) <= gen.LAT_MAX:
                    lats.add(v)
    lons, lats = sorted(lons), sorted(lats)
    out += [(a, b) for a in lons for b in rng.sample(lats, ctx.pick(20, len(lats)))]
    out += [(a, b) for b in lats for a in rng.sample(lons, ctx.pick(20, len(lons)))]
    # every value of every byte of either coordinate, over some values of the others
    for k in range(4):
        for b in range(256):
            for _ in range(ctx.pick(2, 20)):
                lo, la = gen.lonlat(rng)
                lo2 = ((lo & ~(255 << 8 * k) | b << 8 * k) + 2**31) % 2**32 - 2**31
                la2 = ((la & ~(255 << 8 * k) | b << 8 * k) + 2**31) % 2**32 - 2**31
                if abs(lo2) <= gen.LON_MAX:
                    out.append((lo2, la))
                if abs(la2) <= gen.LAT_MAX:
                    out.append((lo, la2))
    out += [gen.lonlat(rng) for _ in range(ctx.pick(10000, 200000))]
    return out


def parse(path):
    r = []
    for line in open(path):
        w, lo, la = line.split()
        r.append((limbs(int(w)), int(lo), int(la)))
    return r


def check(ctx):
    ctx.model("Morton", "Morton_small", workers=4)
    if not ctx.quick:
        ctx.model("Morton", "Morton_big", workers=8)
    tab, _ = ctx.scenarios("MortonTable", "MortonTable", marker="TAB")
    drv = ctx.driver("loc")
    ctx.tools()
    pos = positions(ctx)
    d = ctx.fresh("loc")
    evs = []

    def batches(path, rc, items):
        for i in range(0, len(items), 2000):
            evs.append({"ev": "words", "path": path, "rc": rc, "items": items[i:i + 2000]})
        if not items:
            evs.append({"ev": "words", "path": path, "rc": rc, "items": []})

    def items(ps, res):
        if len(ps) != len(res):
            return 1, []
        return 0, [[p[0], p[1], w, lo, la] for p, (w, lo, la) in zip(ps, res)]

    # 1. the encoder
    fi, fo = os.path.join(d, "in"), os.path.join(d, "out")
    with open(fi, "w") as f:
        f.write("".join("%d %d\n" % p for p in pos))
    r = vf.run([drv, "enc", fi, fo], timeout=600)
    batches("morton", *((1, []) if r.rc else items(pos, parse(fo))))
    # 2. nodeindex, in several coordinate frames
    part = pos if not ctx.quick else ctx.rng.sample(pos, 12000)
    blobs = [gen.header(ctx.rng)]
    nid = 1
    for i in range(0, len(part), 1000):
        fr = gen.coord_frame(ctx.rng)
        ns = []
        for lo, la in part[i:i + 1000]:
            ns.append({"id": nid, "lon": gen.raw_coord(lo, fr, "lon"), "lat": gen.raw_coord(la, fr, "lat")})
            nid += 1
        blobs.append(gen.blob(ctx.rng, dict({"groups": [{"nodes": ns}]}, **fr)))
    pbf, idx, out = (os.path.join(d, x) for x in ("n.pbf", "n.idx", "w.pbf"))
    open(pbf, "wb").write(osmpbf.enc_file(blobs))
    T = ctx.tools()
    r = vf.run([os.path.join(T, "nodeindex"), "-r", "0", "-i", pbf, "-o", idx], timeout=600)
    if r.rc:
        batches("nodeindex", 1, [])
    else:
        r = vf.run([drv, "find", idx, str(nid - 1), fo], timeout=600)
        batches("nodeindex", *((1, []) if r.rc else items(part, parse(fo))))
        # 3. rewritenodes
        ws = [{"id": j + 1, "refs": list(range(a, min(a + 500, nid))), "tags": []} for j, a in enumerate(range(1, nid, 500))]
        open(pbf, "wb").write(osmpbf.enc_file([gen.header(ctx.rng), gen.blob(ctx.rng, {"groups": [{"ways": ws}]})]))
        r = vf.run([os.path.join(T, "rewritenodes"), "-r", "0", "-i", pbf, "-x", idx, "-o", out], timeout=600)
        rc, its = 1, []
        if r.rc == 0:
            try:
                refs = [x for _, _, b, _ in doc.decode(open(out, "rb").read()) if b for g in b["groups"] for w in g.get("ways", []) for x in w["refs"]]
                with open(fi, "w") as f:
                    f.write("".join("%d\n" % x for x in refs))
                r = vf.run([drv, "dec", fi, fo], timeout=600)
                if r.rc == 0:
                    rc, its = items(part, parse(fo))
            except osmpbf.DecodeError:
                pass
        batches("rewritenodes", rc, its)
    # 4. a sweep over one coordinate at a time, against the table of the specification
    step = ctx.pick(37, 1)
    r = vf.run([drv, "sweep", json.dumps({"Spread": tab[0], "Top": tab[1]}), str(step)], timeout=1500)
    if r.rc != 0:
        raise vf.ToolFailed("sweep: %s" % r.brief())
    s = json.loads(r.out)
    ctx.evaluations += s["n"]
    ctx.extra["positions_swept"] = s["n"]
    evs.append({"ev": "sweep", "n": 1 if s["n"] > 1000 else 0, "bad": min(s["bad"], 2**30), "first": s["first"]})
    ctx.evaluations += len(pos) + 2 * len(part)
    ctx.sample({"position": pos[5], "paths": ["morton", "nodeindex", "rewritenodes", "sweep"]})
    n = 8

    def judge(part):
        k = ctx.trace("MortonTrace", "MortonTrace", part)
        return None if k is None else part[min(k, len(part) - 1)]

    for bad in ctx.pmap(judge, [evs[i::n] for i in range(n) if evs[i::n]]):
        if bad:
            if bad["ev"] == "words":
                odd = [x for x in bad["items"] if x[0] != x[3] or x[1] != x[4] or x[2][3] < 32768]
                bad = dict(bad, items=(odd or bad["items"])[:5])
            ctx.violation("%s: location words rejected" % bad.get("path", "sweep"), bad)
    vf.shutil.rmtree(d)
    ctx.extra["words_validated_by_tlc"] = sum(len(e.get("items", [])) for e in evs)
    ctx.assumptions += ["positions are within [-180, 180] x [-90, 90] degrees"]
