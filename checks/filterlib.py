"""Engine of C09: files -> real tagfilter -> TagFilterTrace."""
import json
import os
import random

import doc
import gen
import osmpbf
import vf


class Scen:
    def __init__(self, label, blobs, rng, runs=(2,)):
        self.label, self.blobs, self.rng, self.runs = label, blobs, rng, list(runs)

    def cost(self):
        return sum(len(v) for b in self.blobs if b["type"] == "OSMData" for g in b["block"]["groups"] for v in g.values() if isinstance(v, list)) * len(self.runs)


def near(V, nano):
    f = nano // 100 * 100
    return [V.c(v) for v in dict.fromkeys([nano, f, -(-nano // 100) * 100])]


def ent(V, b, blk, out):
    r = []
    g = blk.get("gran", 100)
    for grp in blk["groups"]:
        for n in grp.get("nodes", []):
            lo, la = blk.get("lonoff", 0) + g * n["lon"], blk.get("latoff", 0) + g * n["lat"]
            r.append([1, V.i(n["id"]), V.c(lo) if out else near(V, lo), V.c(la) if out else near(V, la), doc.tags(V, n.get("tags", []))])
        for w in grp.get("ways", []):
            r.append([2, V.i(w["id"]), doc.tags(V, w.get("tags", [])), [V.i(x) for x in w["refs"]]])
        for x in grp.get("rels", []):
            r.append([3, V.i(x["id"]), doc.tags(V, x.get("tags", [])), [[V.s(m[0]), V.i(m[1]), m[2]] for m in x["members"]]])
    return r


def run_scen(ctx, s, d):
    pbf, out = os.path.join(d, "i.pbf"), os.path.join(d, "o.pbf")
    with open(pbf, "wb") as f:
        f.write(osmpbf.enc_file(s.blobs, rng=s.rng))
    V = doc.Values()
    ins = []
    for b in s.blobs:
        if b["type"] != "OSMData":
            ins.append([1, V.i(("h", osmpbf.enc_header() if "payload" not in b else b["payload"]))])
        else:
            ins.append([2, ent(V, b, b["block"], False)])
    evs = []
    det = {"label": s.label, "runs": [], "blobs": [b["type"] if b["type"] != "OSMData" else b["block"] for b in s.blobs][:6]}
    if len(json.dumps(det, default=str)) > 20000:
        det["blobs"] = len(s.blobs)
    for w in s.runs:
        r = vf.run([os.path.join(ctx.tools(), "tagfilter"), "-r", "0", "-i", pbf, "-o", out, "-w", str(w)], timeout=300)
        why, outs = None, []
        if r.rc == 0:
            try:
                outs = doc.decode(open(out, "rb").read())
            except (osmpbf.DecodeError, OSError) as e:
                why = "undecodable output: %s" % e
        det["runs"].append({"workers": w, "rc": r.rc, "decode": why, "tool": None if r.rc == 0 else r.brief()})
        evs.append({"ev": "run", "rc": 0 if r.rc == 0 else 1, "run": len(det["runs"]) - 1})
        if why:
            evs.append({"ev": "garbage", "why": why})
        for typ, payload, block, _ in outs:
            evs.append({"ev": "blob", "b": [2, ent(V, None, block, True)] if typ == "OSMData" else [1, V.i(("h", payload))]})
        if r.rc == 0:
            evs.append({"ev": "endrun"})
        if os.path.exists(out):
            os.remove(out)
    return evs, {"s": list(V.s.d), "in": ins}, det


def judge(ctx, scens, per=16):
    ctx.tools()
    scens = sorted(scens, key=lambda s: -s.cost())
    n = max(1, (len(scens) + per - 1) // per)

    def go(chunk):
        evs, confs, dets = [], [], []
        for s in chunk:
            d = ctx.fresh("tf")
            e, c, t = run_scen(ctx, s, d)
            vf.shutil.rmtree(d)
            evs.append(e)
            confs.append(c)
            dets.append(t)
        return vf.judge_parts(ctx, "TagFilterTrace", evs, confs, dets)

    for bad, nev in ctx.pmap_proc(go, [scens[i::n] for i in range(n)]):
        ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + nev
        for det, e in bad:
            s = json.dumps(e)
            ctx.violation("%s: event %s rejected" % (det["label"], e["ev"]), {"file": det, "event": e if len(s) < 3000 else s[:3000]})
    ctx.evaluations += sum(len(s.runs) for s in scens)


# ------------------------------------------------------------------ scenarios
def enumerated(ctx, cfg, limit):
    sc, _ = ctx.scenarios("TagFilterKeys", cfg)
    if len(sc) > limit:
        sc = ctx.rng.sample(sc, limit)
    out = []
    for i, x in enumerate(sc):
        rng = random.Random("%s/%d" % (ctx.rng.random(), i))
        blobs = [gen.header(rng)] if rng.random() < 0.5 or not x else []
        nid = 1
        for b in x:
            gs, fr = [], gen.coord_frame(rng)
            for kind, keys in b:
                nid += rng.choice([1, 2, 100])
                tg = [[k, gen.word(rng)] for k in rng.sample(keys, len(keys))]
                if kind == 1:
                    lo, la = gen.lonlat(rng)
                    e, name = {"id": nid, "lon": gen.raw_coord(lo, fr, "lon"), "lat": gen.raw_coord(la, fr, "lat"), "tags": tg}, "nodes"
                elif kind == 2:
                    e, name = dict(gen.way(rng, nid, [1, 2, 3]), tags=tg), "ways"
                else:
                    e, name = dict(gen.rel(rng, nid, [[1], [2], [3]]), tags=tg), "rels"
                if gs and name in gs[-1] and rng.random() < 0.8:
                    gs[-1][name].append(e)
                else:
                    gs.append({name: [e]})
            blobs.append(gen.blob(rng, dict({"groups": gs}, **fr)))
        out.append(Scen("enumerated %s" % json.dumps(x), blobs, rng, [rng.choice([1, 2, 4])]))
    return out


def spice(rng, blobs, probes):
    """replace keys by ones the filter looks at, and ones which nearly are"""
    for b in blobs:
        if b["type"] != "OSMData":
            continue
        for g in b["block"]["groups"]:
            for kind in ("nodes", "ways", "rels"):
                for e in g.get(kind, []):
                    tg = e.get("tags", [])
                    if kind == "nodes" and not tg and rng.random() < 0.5:
                        tg = [["k", "v"]]
                    seen, new = set(), []
                    for k, v in tg:
                        if rng.random() < 0.5:
                            k = rng.choice(probes)
                        if rng.random() < 0.1:
                            v = rng.choice(probes)
                        if k not in seen and (k or kind != "nodes"):
                            new.append([k, v])
                        seen.add(k)
                    e["tags"] = new
    return blobs


def random_scens(ctx, count, probes):
    out = []
    for i in range(count):
        rng = random.Random("%s/%d" % (ctx.rng.random(), i))
        blobs, *_ = gen.planet(rng, odd=True)
        out.append(Scen("random planet %d" % i, spice(rng, blobs, probes), rng, [rng.choice([1, 2, 3, 8])]))
    return out


def special(ctx, probes):
    out = []
    rng = random.Random(ctx.rng.random())

    def add(label, blocks, runs=(2,)):
        out.append(Scen(label, [gen.header(rng)] + [gen.blob(rng, b) for b in blocks], rng, runs))

    # every probe key of the specification, alone on a node, on a way and on a relation
    for j in range(0, len(probes), 300):
        part = [p for p in probes[j:j + 300] if p]
        add("probe keys %d.." % j, [{"groups": [
            {"nodes": [{"id": i + 1, "lon": i, "lat": -i, "tags": [[k, "v"]]} for i, k in enumerate(part)]},
            {"ways": [{"id": i + 1, "refs": [i], "tags": [[k, "v"]]} for i, k in enumerate(part)]},
            {"rels": [{"id": i + 1, "members": [], "tags": [[k, "v"]]} for i, k in enumerate(part)]}]}])
    add("many strings", [{"groups": [{"nodes": [{"id": i, "lon": i, "lat": i, "tags": [["k%d" % i, "v%d" % (i % 5000)], ["note", "x"]]} for i in range(1, 12000)]}]}])
    add("long strings", [{"groups": [{"nodes": [{"id": 5, "lon": 1, "lat": 2, "tags": [["a" * n, "b" * n], ["source:" + "a" * n, "b" * n]]} for n in (1, 126, 127, 128, 16383, 16384, 70000)]}]}])
    add("more than 65536 strings", [{"groups": [{"nodes": [{"id": i, "lon": 1, "lat": 2, "tags": [["%s%d/%d" % ("az"[j % 2], i, j), "m%d/%d" % (i, j)] for j in range(340)]} for i in range(1, 101)]},
                                                {"ways": [{"id": 1, "refs": [], "tags": [["k5/7", "zzz"]]}]}]}])
    add("a node with 300 tags", [{"groups": [{"nodes": [{"id": 5, "lon": 1, "lat": 2, "tags": [["k%d" % i, "v"] for i in range(300)] + [["note:%d" % i, "w"] for i in range(100)]}]}]}])
    add("a way of 20000 references and a relation of 20000 members", [{"groups": [
        {"ways": [{"id": 1, "refs": [rng.randrange(1, 2**40) for _ in range(20000)], "tags": [["a", "b"]]}]},
        {"rels": [{"id": 1, "members": [[rng.choice(["", "a", "é"]), rng.randrange(1, 2**40), rng.randrange(3)] for _ in range(20000)], "tags": [["a", "b"]]}]}]}])
    add("only unwanted nodes", [{"groups": [{"nodes": [{"id": i, "lon": 1, "lat": 2, "tags": [["note", "x"]]}]}]} for i in range(1, 40)], (1, 8))
    add("every other block goes", [{"groups": [{"nodes": [{"id": i, "lon": i, "lat": 2, "tags": [["note" if i % 2 else "name", "x"]]}]}]} for i in range(1, 200)], (1, 8, 16))
    add("negative ids", [{"groups": [{"nodes": [{"id": -5, "lon": 1, "lat": 2, "tags": [["a", "b"]]}]}, {"ways": [{"id": 7, "refs": [-1, -2**63, 2**63 - 1, 0, 0], "tags": []}]},
                                     {"rels": [{"id": -9, "members": [["r", -4, 1], ["", 0, 0], ["r", 2**62, 2]], "tags": []}]}]}])
    add("extreme coordinates", [dict({"groups": [{"nodes": [{"id": i + 1, "lon": lo, "lat": la, "tags": [["a", "b"]]} for i, (lo, la) in enumerate(
        [(gen.LON_MAX, gen.LAT_MAX), (-gen.LON_MAX, -gen.LAT_MAX), (0, 0), (1, -1), (-1, 1), (gen.LON_MAX, -gen.LAT_MAX)])]}]})])
    return out
