"""C28: passes are as few as the memory target allows, and every lookup is counted once."""
import os
import re
import shutil
import struct

import c22
import gen
import osmpbf
import toollib as TL
import vf

LOC = struct.pack("<Q", (1 << 63) | 12345)
CNT = {"hitHint": "hint", "hitDefault": "other", "missDefault": "none", "missDeferred": "deferred"}
LINE = re.compile(rb"(\w+): +(\d+)$")
TIME = re.compile(rb"time: (\d+) .*= (\d+)$")
PASS = re.compile(rb"Pass (\d+) run time: ")
RUNNING = re.compile(rb"Running pass (\d+)/(\d+)$")


def report(r, timing):
    e = {"ev": "run", "rc": 0 if r.rc == 0 else 1, "passes": [], "running": [], "times": [], "timing": timing, "hint": -1, "other": -1, "none": -1, "deferred": -1}
    for ln in r.out.split(b"\n"):
        m = LINE.match(ln)
        if m and m.group(1).decode() in CNT:
            e[CNT[m.group(1).decode()]] = min(int(m.group(2)), 2**31 - 1)
        m = TIME.match(ln)
        if m:
            e["times"].append([int(m.group(1)), int(m.group(2))])
        m = PASS.match(ln)
        if m:
            e["passes"].append(int(m.group(1)))
        m = RUNNING.match(ln)
        if m:
            e["running"].append([int(m.group(1)), int(m.group(2))])
    return e


def layout(rng, sizes, how):
    """-> ranges and holes"""
    els, holes, cur = [], [], rng.choice([1, 2, 5, 70000])
    for s in sizes:
        n = {"s": rng.choice([1, 2, 7]), "u": 32768, "m": 131072, "l": 3 * 32768 + 5}[s]
        if not (els and (how == "touch" or how == "mixed" and rng.random() < 0.5)):
            cur += rng.choice([2, 3, 100000])
        els.append([cur, cur + n - 1, n])
        if n > 2:
            holes += sorted({cur + 1, cur + rng.randrange(1, n - 1)})
        cur += n
    return els, holes


def write_index(path, version, els, holes):
    d, off, loc = struct.pack("<qq", version, len(els)), 0, []
    for a, b, n in els:
        d += struct.pack("<QQ", a, off << 24 | n)
        x = bytearray(LOC * n)
        for h in holes:
            if a <= h <= b:
                x[8 * (h - a):8 * (h - a) + 8] = bytes(8)
        loc.append(x)
        off += n
    with open(path, "wb") as f:
        f.write(d)
        for x in loc:
            f.write(x)


def ref(rng, els, holes, place):
    i, w = place
    if w == "neg":
        return -rng.randrange(1, 1 << 30)
    if w == "zero":
        return 0
    if w == "end":
        return els[-1][1] + rng.choice([1, 2, 10**6]) if els else rng.randrange(1, 100)
    if not els:
        return rng.randrange(1, 1000)
    a, b, n = els[min(i, len(els)) - 1]
    inside = [h for h in holes if a <= h <= b]
    if w == "hole" and inside:
        return rng.choice(inside)
    return {"first": a, "last": b, "gap": a - 1}.get(w, rng.randrange(a, b + 1))


def block_of(refs, rng):
    """one block: the references in order, shared out over ways and groups"""
    ways, cur = [], []
    for id, n in refs:
        cur += [id] * n
        if rng.random() < 0.3:
            ways.append(cur)
            cur = []
    ways.append(cur)
    groups = []
    for i, w in enumerate(ways):
        if not groups or rng.random() < 0.2:
            groups.append({"ways": []})
        groups[-1]["ways"].append({"id": i + 1, "refs": w, "tags": []})
    return {"groups": groups}


def run_nodes(ctx, T, version, rng, sizes, how, mb, pats, widths, busy=False):
    d = ctx.fresh("look")
    els, holes = layout(rng, sizes, how)
    idx, pbf = os.path.join(d, "n.idx"), os.path.join(d, "in.pbf")
    write_index(idx, version, els, holes)
    blocks = []
    if busy:
        for _ in range(24):
            blocks.append([[ref(rng, els, holes, (rng.randrange(1, 5), rng.choice(["in", "gap", "hole"]))), 700] for _ in range(20)])
    else:
        for _ in range(rng.choice([1, 2, 5])):
            b = []
            for p in rng.sample(pats, rng.choice([0, 1, 3, 8])):
                b += [[ref(rng, els, holes, q), rng.choice([1, 1, 1, 2, 30])] for q in p[1:]]
            # some of them a second time, later
            b += [[rng.choice(b)[0], 1] for _ in range(rng.choice([0, 3])) if b]
            blocks.append(b)
    out = [gen.header(rng)]
    for b in blocks:
        out.append({"type": "OSMData", "block": block_of(b, rng)})
        if rng.random() < 0.2:
            out.append({"type": "OSMData", "block": {"groups": []}})
    with open(pbf, "wb") as f:
        f.write(osmpbf.enc_file(out))
    evs = []
    for w in widths:
        timing = rng.random() < 0.4
        args = ["-i", pbf, "-x", idx, "-w", str(w)] + (["-m", str(mb) if mb < 100 else rng.choice(["100", "4096", "17592186044416", "18446744073709551615"])] if mb else []) \
            + (["-t", rng.choice(["1.01", "1.5", "2", "10"])] if timing else [])
        r = TL.tool(T, "rewritenodes", args, out=os.path.join(d, "out.pbf"))
        e = report(r, timing)
        e["run"] = "rewritenodes " + " ".join(args[4:])
        evs.append(e)
    shutil.rmtree(d)
    return {"els": els, "holes": holes, "target": 0, "mb": mb, "blocks": blocks, "hints": True}, evs


def run_ways(ctx, T, rng, passes):
    d = ctx.fresh("lookw")
    idx, pbf = os.path.join(d, "w.idx"), os.path.join(d, "in.pbf")
    while True:
        c22.made_way(rng, idx)
        _, ents, loc = osmpbf.dec_wayidx(open(idx, "rb").read())
        if all(0 < w < 1 << 30 for w, _ in ents):
            break
    ends = [o for _, o in ents[1:]] + [len(loc)]
    els = [[w, w, e - o] for (w, o), e in zip(ents, ends)]
    ids = [w for w, _ in ents]
    blocks, out = [], [gen.header(rng)]
    rid = 1
    for _ in range(rng.choice([0, 1, 2, 4])):
        rels, look = [], []
        for _ in range(rng.choice([1, 2, 10])):
            ms = []
            for _ in range(rng.choice([0, 1, 3, 12])):
                w = rng.choice(ids) if ids and rng.random() < 0.7 else rng.choice([1, 2, (ids[-1] if ids else 0) + rng.choice([1, 50]), rng.randrange(1, 1 << 29)] + [x + 1 for x in ids[:3]])
                k = rng.choice([1, 1, 1, 1, 0, 2])
                ms.append(["", w, k])
                if k == 1:
                    look.append([w, 1])
            rels.append({"id": rid, "tags": [], "members": ms})
            rid += 1
        blocks.append(look)
        out.append({"type": "OSMData", "block": {"groups": [{"rels": rels}]}})
    with open(pbf, "wb") as f:
        f.write(osmpbf.enc_file(out))
    args = ["-i", pbf, "-x", idx, "-w", str(rng.choice([1, 3])), "-p", str(passes)]
    r = TL.tool(T, "relindex", args, out=os.path.join(d, "out.idx"))
    e = report(r, False)
    e["run"] = "relindex " + " ".join(args[4:])
    shutil.rmtree(d)
    return {"els": els, "holes": [], "target": passes, "mb": 0, "blocks": blocks, "hints": False}, [e]


def check(ctx):
    ctx.model("Lookup", "Lookup_small", workers=4, allow_dead=("Store",))
    ctx.refuted("Lookup", ["Lookup_bad_" + x for x in ("torn", "carry", "again", "early", "floor", "below")])
    if not ctx.quick:
        ctx.model("Lookup", "Lookup_big", workers=8, timeout=1500, heap="8g", allow_dead=("Store",))
    T = ctx.tools()
    rng = ctx.rng
    w0 = TL.World(ctx, "first", gen.planet(rng, nn=20, nw=5, nr=0)[0])
    version = osmpbf.dec_nodeidx(open(w0.nidx, "rb").read())[0]
    scn, _ = ctx.scenarios("LookupScen", "LookupScen")
    lay, pats = [x for x in scn if x[0] == "layout"], [x for x in scn if x[0] == "refs"]
    ctx.extra["layouts_of_the_specification"] = len(lay)
    # every target with some layouts of each number of ranges
    rng.shuffle(lay)
    pick, seen = [], {}
    for x in lay:
        k = (len(x[1]), x[3])
        if seen.get(k, 0) < ctx.pick(4, 60):
            seen[k] = seen.get(k, 0) + 1
            pick.append(x)
    jobs = [("nodes", rng.randrange(1 << 60), x) for x in pick]
    jobs += [("busy", rng.randrange(1 << 60), ["layout", "mmmm"[:n], "apart", mb]) for n, mb in ((1, 0), (4, 2), (3, 0), (2, 1))[:ctx.pick(2, 4)]]
    jobs += [("ways", rng.randrange(1 << 60), p) for p in [1, 1, 2, 3, 5, 20] * ctx.pick(8, 100)]

    def go(job):
        kind, seed, x = job
        rg = vf.random.Random(seed)
        if kind == "ways":
            return ("a way index in %d passes" % x,) + run_ways(ctx, T, rg, x)
        return ("ranges %s %s, %d MB" % ("".join(x[1]), x[2], x[3]),) + run_nodes(ctx, T, version, rg, x[1], x[2], x[3], pats,
                                                                                 [8, 8, 1] if kind == "busy" else [1, rg.choice([2, 3, 8])], kind == "busy")

    got = ctx.pmap(go, jobs)
    chunks = [got[i::8] for i in range(8)]

    def judge(ch):
        return vf.judge_parts(ctx, "LookupTrace", [x[2] for x in ch], [x[1] for x in ch], [{"what": x[0], "case": x[1]} for x in ch])

    for bad, nev in ctx.pmap(judge, chunks):
        ctx.evaluations += nev
        for det, e in bad:
            ctx.violation("%s: %s does not tell what the passes and lookups are: %s" % (det["what"], e.get("run"), {k: e[k] for k in ("rc", "passes", "hint", "other", "none", "deferred", "times")}),
                          {"case": det, "event": e})
    ctx.extra["cases"] = len(got)
    ctx.extra["runs"] = sum(len(x[2]) for x in got)
    ctx.extra["runs_in_several_passes"] = sum(1 for x in got for e in x[2] if len(e["passes"]) > 1)
    ctx.extra["lookups"] = sum(e["hint"] + e["other"] + e["none"] + e["deferred"] for x in got for e in x[2])
    ctx.sample({"what": got[0][0], "event": got[0][2][0]})
    ctx.assumptions += ["the text of the lines is that of the current tools", "a range which lies across the end of a share may be on either side of it",
                        "which interval a time falls into is not judged"]
