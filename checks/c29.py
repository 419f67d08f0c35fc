"""C29: an index of which the end is missing is refused by every tool that reads it."""
import os
import shutil

import c22
import c28
import gen
import osmpbf
import toollib as TL
import vf


def way_info(path):
    d = open(path, "rb").read()
    _, ents, loc = osmpbf.dec_wayidx(d)
    if not ents:
        return {"kind": "way", "entries": 0, "last": [0, 0], "size": len(d)}, ents
    o = ents[-1][1]
    i = o
    while loc[i]:
        # to the end of this varint
        while loc[i] & 128:
            i += 1
        i += 1
    return {"kind": "way", "entries": len(ents), "last": [o, i + 1 - o], "size": len(d)}, ents


def bounds(kind, path, conf):
    """-> (behind the entries, [start and end of the locations of each entry])"""
    if kind == "node":
        b = 16 + 16 * len(conf["counts"])
        out, off = [], b
        for n in conf["counts"]:
            out.append((off, off + 8 * n))
            off += 8 * n
        return b, out
    b = 16 + 8 * conf["entries"]
    ents = osmpbf.dec_wayidx(open(path, "rb").read())[1]
    starts = [b + o for _, o in ents]
    return b, list(zip(starts, starts[1:] + [b + sum(conf["last"])]))


def place(x, behind, spans, size, rng):
    w, i, r = x[0], x[1], x[2]
    if w == "whole":
        return size
    if w == "header":
        return min(4 * i + r, 15)
    if w == "entries":
        return min(16 + (behind - 16) * i // 4 + r, max(behind - 1, 15))
    if not spans:
        return rng.randrange(size)
    a, b = spans[min(i, len(spans)) - 1]
    return min(size, {"before": a, "first": a + 1, "middle": (a + b) // 2, "end": b - 8 if b - 8 > a else b - 1}[w] + r)


def pbf_for(ids, path, rng, rel):
    blobs = [gen.header(rng)]
    ids = list(ids)
    for i in range(0, max(1, len(ids)), 40):
        part = ids[i:i + 40]
        if rel:
            g = {"rels": [{"id": i + 1, "tags": [], "members": [["", x, 1] for x in part]}]}
        else:
            g = {"ways": [{"id": i + 1, "refs": part, "tags": []}]}
        blobs.append({"type": "OSMData", "block": {"groups": [g]}})
    open(path, "wb").write(osmpbf.enc_file(blobs))


def use(ctx, T, d, tool, idx, pbf, passes, rng, mem=None):
    out = os.path.join(d, "result")
    if tool == "rewritenodes":
        args = ["-i", pbf, "-x", idx] + (["-m", str(mem)] if mem else [])
    elif tool == "relindex":
        args = ["-i", pbf, "-x", idx, "-p", str(passes)]
    else:
        q = rng.randrange(passes)
        args = ["-i", idx, "-p", "-s"] + (["--sub-index-count", str(passes), "--sub-index-index", str(q)] if passes > 1 else [])
    if tool.startswith("dump"):
        r = TL.tool(T, tool, args)
        res = r.out
        left = False
    else:
        r = TL.tool(T, tool, args, out=out)
        left = os.path.exists(out)
        res = open(out, "rb").read() if left else None
        for n in os.listdir(d):
            if n.startswith("result"):
                os.unlink(os.path.join(d, n))
    return r, left, res, " ".join([tool] + args)


def case(ctx, T, version, kind, seed, scns, dense):
    rng = vf.random.Random(seed)
    d = ctx.fresh("cutoff")
    idx, cut, pbf = (os.path.join(d, n) for n in ("i", "c", "p.pbf"))
    mem = None
    if kind in ("node", "big"):
        if kind == "big":
            els, holes = c28.layout(rng, rng.choice(["mms", "lll", "usml", "msm"]), "apart")
            c28.write_index(idx, version, els, holes)
            mem = 1
        else:
            c22.made_node(rng, version, idx)
        _, es, _ = osmpbf.dec_nodeidx(open(idx, "rb").read())
        conf = {"kind": "node", "counts": [n for _, n, _ in es], "size": os.path.getsize(idx)}
        ids = sorted({i for f, n, _ in es for i in (f, f + n - 1, f + n // 2) if i < 1 << 63})
        tools = ["rewritenodes", "dumpnodeindex"] if kind == "node" else ["rewritenodes"]
    else:
        if kind == "way":
            c22.made_way(rng, idx)
        else:
            blobs, *_ = gen.planet(rng, nn=60, nw=20, nr=0, odd=False)
            w = TL.World(ctx, "planet", blobs, d=ctx.fresh("pl"))
            shutil.copy(w.widx, idx)
            shutil.rmtree(w.dir)
        conf, es = way_info(idx)
        ids = [w for w, _ in es]
        tools = ["relindex", "dumpwayindex"]
    data = open(idx, "rb").read()
    pbf_for(ids, pbf, rng, kind in ("way", "planet"))
    behind, spans = bounds("node" if kind in ("node", "big") else "way", idx, conf)
    evs, whole = [], {}
    todo = [(rng.choice(tools), place(x, behind, spans, len(data), rng), x[3]) for x in scns]
    if dense:
        todo += [(rng.choice(tools), c, rng.choice([1, 1, 2, 5])) for c in range(max(0, len(data) - 40), len(data) + 1)]
    for tool, c, passes in todo:
        with open(cut, "wb") as f:
            f.write(data[:c])
        seed2 = rng.random()
        key = (tool, passes)
        if tool.startswith("dump"):
            key += (vf.random.Random(seed2).randrange(passes),)
        if key not in whole:
            r, _, res, cmd = use(ctx, T, d, tool, idx, pbf, passes, vf.random.Random(seed2), mem)
            if r.rc:
                raise vf.ToolFailed("%s on a whole index: %s" % (cmd, r.brief()))
            whole[key] = res
        r, left, res, cmd = use(ctx, T, d, tool, cut, pbf, passes, vf.random.Random(seed2), mem)
        evs.append({"ev": "use", "tool": tool, "cut": c, "rc": 0 if r.rc == 0 else 1, "left": left, "same": res == whole[key], "passes": passes, "part": tool.startswith("dump") and passes > 1,
                    "run": cmd.replace(d, ""), "err": r.err[:160].decode("utf-8", "replace")})
    shutil.rmtree(d)
    return conf, evs


def check(ctx):
    ctx.model("Cutoff", "Cutoff_small", workers=4)
    ctx.refuted("Cutoff", ["Cutoff_bad_" + x for x in ("seen", "use", "entry", "first")])
    if not ctx.quick:
        ctx.model("Cutoff", "Cutoff_big", workers=8, timeout=900)
    T = ctx.tools()
    rng = ctx.rng
    w0 = TL.World(ctx, "first", gen.planet(rng, nn=20, nw=5, nr=0)[0])
    version = osmpbf.dec_nodeidx(open(w0.nidx, "rb").read())[0]
    scn, _ = ctx.scenarios("CutoffScen", "CutoffScen")
    ctx.extra["cuts_of_the_specification"] = len(scn)
    kinds = (["node"] * 12 + ["way"] * 12 + ["planet"] * 4 + ["big"] * 3) * ctx.pick(1, 12)
    jobs = []
    for i, k in enumerate(kinds):
        n = ctx.pick(30, 120) if k != "big" else ctx.pick(8, 20)
        jobs.append((k, rng.randrange(1 << 60), rng.sample(scn, n) + [x for x in scn if x[0] == "whole"][:2], k != "big" and i % 3 == 0))
    got = ctx.pmap(lambda j: (j[0], case(ctx, T, version, *j)), jobs)
    chunks = [got[i::4] for i in range(4)]

    def judge(ch):
        return vf.judge_parts(ctx, "CutoffTrace", [x[1][1] for x in ch], [x[1][0] for x in ch], [{"what": x[0], "index": x[1][0]} for x in ch])

    for bad, nev in ctx.pmap(judge, chunks):
        ctx.evaluations += nev
        for det, e in bad:
            ctx.violation("%s with only %d of %d bytes of the %s index: status %d, result %s" % (
                e["run"], e["cut"], det["index"]["size"], det["index"]["kind"], e["rc"], "as of the whole" if e["same"] else "left" if e["left"] else "none"), {"case": det, "event": e})
    ctx.extra["indexes"] = len(got)
    ctx.extra["runs"] = sum(len(x[1][1]) for x in got)
    ctx.extra["refused"] = sum(1 for x in got for e in x[1][1] if e["rc"])
    ctx.sample({"index": got[0][1][0], "event": got[0][1][1][0]})
    ctx.assumptions += ["entries of a node index are in the order of their locations, as the tools write them"]
