"""C22: the dump tools print exactly what is in the index."""
import os
import re
import shutil
import struct

import gen
import osmpbf
import toollib as TL
import vf
from osmpbf import varint, zigzag

M64 = (1 << 64) - 1


def limbs(v):
    return [v >> 16 * i & 0xFFFF for i in range(4)]


F = rb"(-?\d+\.\d{6})"
EXT = re.compile(rb"Extract: ([0-9a-f]+) \(" + F + rb", " + F + rb"\) \[(\d+)\+(\d+)=(\d+)\]$")
SEA = re.compile(rb" Search: ([0-9a-f]+) \(" + F + rb", " + F + rb"\)$")
WAY = re.compile(rb"(-?\d+) \[((?:-?\d+(?: -?\d+)*)?)\]$")
MIS = re.compile(rb"XX failed to find way (-?\d+)$")


def micro(s):
    return int(s.replace(b".", b""))


def node_items(out):
    items = []
    for ln in out.split(b"\n"):
        if not ln:
            continue
        m = EXT.match(ln)
        if m:
            w, x, y, f, i, a = m.groups()
            w, f, i, a = int(w, 16), int(f), int(i), int(a)
            if max(w, f, a) <= M64 and i < 1 << 30:
                items.append(["E", limbs(w), micro(x), micro(y), limbs(f), i, limbs(a)])
                continue
        m = SEA.match(ln)
        if m and int(m.group(1), 16) <= M64:
            items.append(["S", limbs(int(m.group(1), 16)), micro(m.group(2)), micro(m.group(3))])
        elif ln == b"Extract: skip":
            items.append(["E0"])
        elif ln == b" Search: skip":
            items.append(["S0"])
        else:
            items.append(["? " + ln[:80].decode("utf-8", "replace")])
    return items


def way_items(out):
    items = []
    for ln in out.split(b"\n"):
        if not ln:
            continue
        m = WAY.match(ln)
        if m:
            items.append(["W", limbs(int(m.group(1)) & M64), [limbs(int(x) & M64) for x in m.group(2).split()]])
            continue
        m = MIS.match(ln)
        items.append(["X", limbs(int(m.group(1)) & M64)] if m else ["? " + ln[:80].decode("utf-8", "replace")])
    return items


def rnd_word(rng):
    lo = rng.choice([rng.randrange(-1800000000, 1800000001), rng.randrange(-50, 51), rng.choice([-1800000000, 1800000000, 0, -1, 1])])
    la = rng.choice([rng.randrange(-900000000, 900000001), rng.randrange(-50, 51), rng.choice([-900000000, 900000000, 0, -1, 1])])
    return osmpbf.morton_encode(lo, la) & M64


def made_node(rng, version, path, big=False):
    """a node index written here"""
    els, cur = [], rng.choice([1, 1, 5, 2**31 - 20, 2**32 - 3, 2**40, 2**62, 2**63 - 10**7])
    for _ in range(rng.choice([0, 1, 2, 3, 8, 40])):
        n = rng.choice([1, 1, 1, 2, 3, 10, 40]) if not big else rng.choice([1, 300, 1500])
        ws = [rnd_word(rng) if i in (0, n - 1) or rng.random() < 0.7 else 0 for i in range(n)]
        els.append((cur, ws))
        cur += n + rng.choice([0, 1, 1, 2, 100, 70000])
    d, off = struct.pack("<qq", version, len(els)), 0
    for f, ws in els:
        d += struct.pack("<QQ", f, off << 24 | len(ws))
        off += len(ws)
    d += b"".join(struct.pack("<%dQ" % len(ws), *ws) for _, ws in els)
    with open(path, "wb") as f:
        f.write(d)


def made_way(rng, path):
    """a way index written here"""
    sh = rng.choice([0, 0, 1, 2, 3, 5, 7])
    ents, loc, wid = [], b"", rng.choice([1, 1, 3, 2**20, 2**31 - 5000])
    for _ in range(rng.choice([0, 1, 2, 3, 10, 60])):
        ents.append((wid, len(loc) >> sh))
        last, n = 0, rng.choice([0, 1, 2, 3, 10])
        for _ in range(n):
            while True:
                v = rng.choice([rnd_word(rng), rnd_word(rng), last + rng.randrange(-300, 300), rng.randrange(1 << 63), -rng.randrange(1, 100), 1 << 63])
                v = osmpbf.to_i64(v & M64)
                if v != last:
                    break
            loc += varint(zigzag(osmpbf.to_i64(v - last & M64)) & M64)
            last = v
        loc += b"\0"
        loc += bytes(-len(loc) % (1 << sh))
        wid += rng.choice([1, 1, 2, 50])
    with open(path, "wb") as f:
        f.write(struct.pack("<qq", len(ents), sh) + b"".join(struct.pack("<Q", w << 33 | o) for w, o in ents) + loc)


def read_node(path):
    _, els, words = osmpbf.dec_nodeidx(open(path, "rb").read())
    return [[limbs(f), [limbs(w & M64) for w in words[o:o + n]]] for f, n, o in els]


def read_way(path):
    _, ents, loc = osmpbf.dec_wayidx(open(path, "rb").read())
    return [[limbs(w), [limbs(x & M64) for x in osmpbf.dec_waylocs(loc, o)[0]]] for w, o in ents]


def flags(m):
    return (["-p"] if m[0] else []) + (["-s"] if m[1] else [])


def dump_node(ctx, T, path, rng):
    els = read_node(path)
    evs, runs = [{"ev": "index"}], []

    def one(kind, n, p, m, a=None, b=None):
        args = ["-i", path] + flags(m)
        if (n, p) != (1, 0) or rng.random() < 0.5:
            args += ["--sub-index-index", str(p), "--sub-index-count", str(n)]
        args += (["--start-element", str(a)] if a is not None else []) + (["--end-element", str(b)] if b is not None else [])
        r = TL.tool(T, "dumpnodeindex", args)
        evs.append({"ev": kind, "n": n, "p": p, "x": m[0], "s": m[1], "rc": 0 if r.rc == 0 else 1, "items": node_items(r.out),
                    "a": -1 if a is None else min(a, 10**6), "b": -1 if b is None else min(b, 10**6), "run": " ".join(args[2:])})

    modes = [(True, True), (True, False), (False, True)]
    for m in modes:
        one("npass", 1, 0, m)
    ne = len(els)
    for _ in range(ctx.pick(4, 12)):
        ab = [rng.choice([None, 0, 1, ne - 1 if ne else 0, ne, ne + 1, 2**31, rng.randrange(ne + 1)]) for _ in range(2)]
        one("npart", 1, 0, rng.choice(modes), *ab)
    for n in rng.sample([2, 3, 4, 5, 7, 20, 65], ctx.pick(2, 5)):
        m = rng.choice(modes)
        for p in range(n):
            one("npass", n, p, m)
            if rng.random() < 0.5:
                one("npart", n, p, rng.choice(modes), rng.choice([None, 0, 1, 2, ne]), rng.choice([None, 0, 1, 2, 3, ne]))
    one("npass", 1, 0, (False, False))
    return {"kind": "node", "els": els}, evs


def dump_way(ctx, T, path, rng):
    evs = [{"ev": "index"}]
    modes = [(True, True), (True, False), (False, True)]

    def one(n, p, m):
        args = ["-i", path] + flags(m)
        if (n, p) != (1, 0) or rng.random() < 0.5:
            args += ["--sub-index-index", str(p), "--sub-index-count", str(n)]
        r = TL.tool(T, "dumpwayindex", args)
        evs.append({"ev": "wpass", "n": n, "p": p, "x": m[0], "s": m[1], "rc": 0 if r.rc == 0 else 1, "items": way_items(r.out), "run": " ".join(args[2:])})

    for m in modes:
        one(1, 0, m)
    for n in rng.sample([2, 3, 4, 5, 7, 20, 65], ctx.pick(2, 5)):
        m = rng.choice(modes)
        for p in range(n):
            one(n, p, m)
    one(1, 0, (False, False))
    return {"kind": "way", "ways": read_way(path)}, evs


def check(ctx):
    ctx.model("Dump", "Dump_small", workers=4)
    ctx.refuted("Dump", ["Dump_bad_" + x for x in ("last", "end", "clip", "total", "rel")])
    if not ctx.quick:
        ctx.model("Dump", "Dump_big", workers=8, timeout=900)
    T = ctx.tools()
    rng = ctx.rng
    # a real index tells the version
    w0 = TL.World(ctx, "first", gen.planet(rng, nn=20, nw=5, nr=0)[0])
    version = osmpbf.dec_nodeidx(open(w0.nidx, "rb").read())[0]

    def go(job):
        kind, seed = job
        rg = vf.random.Random(seed)
        d = ctx.fresh("dump")
        out = []
        if kind == "tools":
            blobs, nids, wids, _ = gen.planet(rg)
            w = TL.World(ctx, "planet", blobs, d=d)
            out.append(("the node index of a planet",) + dump_node(ctx, T, w.nidx, rg))
            a = rg.choice([0, 1, 2, 4])
            r = TL.tool(T, "wayindex", ["-i", w.rew, "-a", str(a)], out=w.widx)
            if r.rc != 0:
                raise vf.ToolFailed("wayindex -a %d: %s" % (a, r.brief()))
            out.append(("the way index of a planet, -a %d" % a,) + dump_way(ctx, T, w.widx, rg))
        elif kind == "way":
            p = os.path.join(d, "w.idx")
            made_way(rg, p)
            out.append(("a way index",) + dump_way(ctx, T, p, rg))
        else:
            p = os.path.join(d, "n.idx")
            made_node(rg, version, p, kind == "big")
            out.append(("a node index",) + dump_node(ctx, T, p, rg))
        shutil.rmtree(d)
        return out

    jobs = ["tools"] * ctx.pick(8, 120) + ["way"] * ctx.pick(14, 300) + ["node"] * ctx.pick(14, 300) + ["big"] * ctx.pick(1, 8)
    jobs = [(j, rng.randrange(1 << 60)) for j in jobs]
    got = [x for xs in ctx.pmap(go, jobs) for x in xs]
    per = 12
    for b in range(0, len(got), per * 8):
        lot = got[b:b + per * 8]
        chunks = [lot[i::8] for i in range(8) if lot[i::8]]

        def judge(ch):
            return vf.judge_parts(ctx, "DumpTrace", [x[2] for x in ch], [x[1] for x in ch], [{"what": x[0], "index": x[1]} for x in ch])

        for bad, nev in ctx.pmap(judge, chunks):
            ctx.evaluations += nev
            for det, e in bad:
                ctx.violation("%s: the listing of %s is not what the index has" % (det["what"], e.get("run")), {"case": det, "event": e})
    ctx.extra["indexes"] = len(got)
    ctx.extra["listings"] = sum(len(x[2]) - 1 for x in got)
    ctx.extra["lines"] = sum(len(e.get("items", ())) for x in got for e in x[2])
    ctx.sample({"what": got[0][0], "event": {k: v if k != "items" else v[:4] for k, v in got[0][2][1].items()}})
    ctx.assumptions += ["the text of the lines is that of the current tools", "first and last location of a run are present, as nodeindex writes them"]
