"""C25: the whole tool chain yields each relation's way geometry."""
import json
import os
import random

import doc
import gen
import layoutlib
import nidxlib
import osmpbf
import rellib
import rewritelib
import toollib
import vf

KEEP = [["highway", "crossing"], ["name", "note"], ["Note", "x"], ["natural", "tree"], ["tiger", "1"]]
DROP = [["note", "x"], ["source", "survey"], ["note:en", "y"], ["tiger:id", "5"], ["created_by", ""]]


def tag_nodes(rng, blobs):
    """node tags of which it is known whether they stay -> ids of nodes which do"""
    stay = set()
    p = rng.choice([0.0, 0.2, 0.7, 1.0])
    for b in blobs:
        if b["type"] == "OSMData":
            for g in b["block"]["groups"]:
                for n in g.get("nodes", []):
                    n["tags"] = rng.sample(DROP, rng.choice([0, 0, 1, 2]))
                    if rng.random() < p:
                        n["tags"] = n["tags"] + rng.sample(KEEP, rng.choice([1, 2]))
                        rng.shuffle(n["tags"])
                        stay.add(n["id"])
    return stay


def ways_of(blobs):
    return [w for b in blobs if b["type"] == "OSMData" for g in b["block"]["groups"] for w in g.get("ways", [])]


class World:
    def __init__(self, label, blobs, stay, flows, at=None, path=None, mems=(None,), rng=None):
        self.label, self.blobs, self.stay, self.flows, self.rng, self.mems = label, blobs, stay, flows, rng, mems
        self.at, self.path = at, path


def opts(rng, op, mems):
    a = ["-w", str(rng.choice([1, 2, 3, 8]))]
    if op == "wayindex":
        a += ["-a", str(rng.choice([0, 1, 2, 3, 3, 4, 6]))]
    elif op == "relindex":
        a += ["-p", str(rng.choice([1, 1, 2, 3, 4, 7, 50]))]
    elif op == "rewritenodes":
        m = rng.choice(mems)
        a += [] if m is None else ["-m", str(m)]
    return a


def run_world(ctx, s, d):
    T = ctx.tools()
    rng = s.rng
    V, L = doc.Intern(), doc.Intern()
    src = os.path.join(d, "0")
    if s.path:
        os.symlink(s.path, src)
        at = s.at
    else:
        with open(src, "wb") as f:
            f.write(osmpbf.enc_file(s.blobs, rng=rng))
        at = {i: osmpbf.morton_encode(lo[0], la[0]) for i, lo, la in exact(s.blobs)}
    ids = {}
    conf = {"ids": [], "ways": [], "rels": [], "lists": []}
    where = {}
    for w in ways_of(s.blobs):
        rs = []
        for r in w["refs"]:
            if r not in ids:
                ids[r] = len(ids) + 1
                conf["ids"].append([V(r), V(at[r]) if r in at else 0, int(r in s.stay)])
            rs.append(ids[r])
        conf["ways"].append([V(w["id"]), rs])
        where[w["id"]] = len(conf["ways"])
    for r in rellib.rels_of(s.blobs):
        conf["rels"].append([V(r["id"]), [[V(m[1]), where.get(m[1], 0)] for m in r["members"] if m[2] == 1]])
    evs, det = [], {"label": s.label, "flows": [], "ways": [[w["id"], [str(r) for r in w["refs"][:10]]] for w in ways_of(s.blobs)[:10]]}
    for fl in s.flows:
        evs.append({"ev": "planet"})
        log = []
        for n, c in enumerate(fl, 1):
            args = ["-i", os.path.join(d, str(c["in"]))] + (["-x", os.path.join(d, str(c["x"]))] if c["x"] else []) + opts(rng, c["op"], s.mems)
            out = os.path.join(d, str(n))
            r = toollib.tool(T, c["op"], args, out=out)
            log.append("%s %s -> %d" % (c["op"], " ".join(os.path.basename(x) if x.startswith("/") else x for x in args), n))
            evs.append({"ev": "cmd", "op": c["op"], "n": n, "in": c["in"], "x": c["x"], "rc": 0 if r.rc == 0 else 1, "flow": len(det["flows"])})
            if r.rc:
                log.append(r.brief())
                break
            if c["op"] == "relindex":
                try:
                    recs = rellib.parse(open(out, "rb").read())
                except (ValueError, OSError) as e:
                    evs.append({"ev": "garbage", "why": str(e), "flow": len(det["flows"])})
                    break
                for rid, ways in recs:
                    evs.append({"ev": "rec", "id": V(rid), "n": len(ways), "ways": [[V(a), L(b)] for a, b in ways], "flow": len(det["flows"])})
                evs.append({"ev": "endrec", "flow": len(det["flows"])})
        det["flows"].append(log)
        for n in range(1, len(fl) + 1):
            if os.path.exists(os.path.join(d, str(n))):
                os.remove(os.path.join(d, str(n)))
    conf["lists"] = [[V(x) for x in t] for t in L.d]
    return evs, conf, det


def exact(blobs):
    for p in nidxlib.positions([b["block"] for b in blobs if b["type"] == "OSMData"]):
        assert p[1] == p[2] and p[3] == p[4], p
        yield p[0], p[1:3], p[3:5]


def judge(ctx, worlds, per=8):
    ctx.tools()
    n = max(8, (len(worlds) + per - 1) // per)

    def go(chunk):
        evs, confs, dets = [], [], []
        for s in chunk:
            d = ctx.fresh("chain")
            e, c, t = run_world(ctx, s, d)
            vf.shutil.rmtree(d)
            evs.append(e)
            confs.append(c)
            dets.append(t)
        return vf.judge_parts(ctx, "ChainTrace", evs, confs, dets)

    for bad, nev in ctx.pmap_proc(go, [c for c in (worlds[i::n] for i in range(n)) if c]):
        ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + nev
        for det, e in bad:
            fl = det["flows"][e["flow"]] if "flow" in e else []
            s = json.dumps(e)
            ctx.violation("%s: %s rejected after %s" % (det["label"], e["ev"], "; ".join(map(str, fl))[:800]),
                          {"file": det["label"], "ways": det["ways"], "flow": fl, "event": e if len(s) < 3000 else s[:3000]})
    ctx.evaluations += sum(len(f) for s in worlds for f in s.flows)
    ctx.extra["workflows_run"] = ctx.extra.get("workflows_run", 0) + sum(len(s.flows) for s in worlds)


def worlds(ctx, flows, count, per):
    out = []
    lays = layoutlib.layouts(ctx)
    for i in range(count):
        rng = random.Random("%s/%d" % (ctx.rng.random(), i))
        blobs, nids, wids, rids = layoutlib.planet(rng, [rng.choice(lays) for _ in range(rng.choice([3, 8]))]) if i % 4 == 3 else gen.planet(rng, nn=rng.choice([0, 1, 5, 40, 150]), nw=rng.choice([1, 3, 12, 40]), nr=rng.choice([1, 2, 6, 25]))
        # nodes at the same place next to each other
        ns = [n for b in blobs if b["type"] == "OSMData" for g in b["block"]["groups"] for n in g.get("nodes", [])]
        stay = tag_nodes(rng, blobs)
        fs = [flows[j % len(flows)] for j in range(i * per, (i + 1) * per)]
        out.append(World("planet %d" % i, blobs, stay, fs, rng=rng))
        same(rng, blobs)
    return out


def same(rng, blobs):
    """some ways run over nodes at one place"""
    for b in blobs:
        if b["type"] == "OSMData":
            for g in b["block"]["groups"]:
                ns = g.get("nodes", [])
                for a, c in zip(ns, ns[1:]):
                    if rng.random() < 0.2:
                        c["lon"], c["lat"] = a["lon"], a["lat"]
    ids = [[n["id"] for n in g.get("nodes", [])] for b in blobs if b["type"] == "OSMData" for g in b["block"]["groups"]]
    ids = [x for x in ids if len(x) > 1]
    for w in ways_of(blobs):
        if ids and rng.random() < 0.4:
            x = rng.choice(ids)
            i = rng.randrange(len(x) - 1)
            j = rng.randrange(len(w["refs"]) + 1)
            w["refs"][j:j] = x[i:i + rng.choice([2, 3])]


def big_worlds(ctx, flows):
    """an index of several MB: rewriting takes several passes"""
    big = rewritelib.Big(ctx)
    rng = random.Random(ctx.rng.random())
    pool = rng.sample(big.ids, 200) + big.ids[:3] + big.ids[-3:] + [big.ids[0] + 1, 2**41]
    blobs, _, wids, _ = gen.planet(rng, nn=0, nw=60, nr=15, refs_pool=pool)
    for w in ways_of(blobs):
        if rng.random() < 0.7:
            w["refs"] += gen.some_refs(rng, pool, 20)
    path = os.path.join(ctx.fresh("bigchain"), "big.pbf")
    with open(path, "wb") as f:
        f.write(open(big.pbf, "rb").read() + osmpbf.enc_file(blobs, rng=rng))
    at = {i: osmpbf.morton_encode(p[0], p[2]) for i, p in big.at.items()}
    return [World("planet with %d nodes" % len(at), blobs, set(), fs, at=at, path=path, mems=sorted(big.limits), rng=random.Random(rng.random()))
            for fs in flows]


BASE = [{"op": "nodeindex", "in": 0, "x": 0}, {"op": "rewritenodes", "in": 0, "x": 1}, {"op": "wayindex", "in": 2, "x": 0}, {"op": "relindex", "in": 0, "x": 3}]
REAL = [{"op": "nodeindex", "in": 0, "x": 0}, {"op": "tagfilter", "in": 0, "x": 0}, {"op": "rewritenodes", "in": 2, "x": 1},
        {"op": "decompress", "in": 3, "x": 0}, {"op": "wayindex", "in": 4, "x": 0}, {"op": "relindex", "in": 4, "x": 5}]


def check(ctx):
    ctx.model("Chain", "Chain_small", workers=8)
    ctx.refuted("Chain", ["Chain_bad_noflag", "Chain_bad_twice", "Chain_bad_early", "Chain_bad_lossy"])
    if not ctx.quick:
        ctx.model("Chain", "Chain_big", workers=8, timeout=1200, heap="8g")
    sc, _ = ctx.scenarios("ChainScen", ctx.pick("ChainScen", "ChainScen_big"), workers=4, heap="6g")
    ctx.extra["workflows_enumerated_by_tlc"] = len(sc)
    sc.sort(key=json.dumps)
    ctx.rng.shuffle(sc)
    flows = []
    for f in sc[:ctx.pick(240, 5000)]:
        flows += [f, ctx.rng.choice([BASE, REAL])] if ctx.rng.random() < 0.15 else [f]
    per = ctx.pick(4, 5)
    ws = worlds(ctx, flows, len(flows) // per, per)
    ctx.sample({"workflow": flows[0], "planet": ws[0].label})
    judge(ctx, ws)
    judge(ctx, big_worlds(ctx, [[BASE], [REAL]] * ctx.pick(1, 4)), per=1)
    ctx.assumptions += ["node and way ids strictly increase; way ids fit 31 bits; ids of references are positive", "positions are multiples of 1e-7 degrees"]
