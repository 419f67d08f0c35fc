"""C20: files the tools cannot process correctly are rejected, never skipped silently."""
import os
import re
import shutil
import struct

import damagelib as D
import toollib as TL
import vf

TOOLS = ["blockcount", "decompress", "entitycount", "entityfind", "tagfilter", "nodeindex", "rewritenodes", "wayindex", "relindex"]


def args_of(tool, p, w, out, rng):
    a = ["-i", p, "-w", str(rng.choice([1, 1, 2, 4]))]
    if tool == "entityfind":
        a += ["-e", str(rng.choice([1, 2, 7]))]
    if tool == "rewritenodes":
        a += ["-x", w.nidx]
    if tool == "relindex":
        a += ["-x", w.widx]
    return a, (None if tool in ("blockcount", "entitycount", "entityfind") else out)


def rows(tool, out):
    if tool == "blockcount":
        pats = [rb"^Counted (\d+) blocks$"]
    elif tool == "entitycount":
        pats = [rb"^Counted (\d+) blocks$", rb"^Counted (\d+) nodes, ", rb"^Counted (\d+) ways, ", rb"^Counted (\d+) ways refs, ", rb"^Counted (\d+) relations, "]
    else:
        return []
    r = []
    for p in pats:
        m = re.findall(p, out, re.M)
        r.append(min(int(m[0]), 2**31 - 1) if len(m) == 1 else -1)
    return r


def make(rng, kind, base):
    """-> bytes of a file"""
    if kind == "field" or kind == "frame":
        fs = [f.copy() for f in base]
        for _ in range(rng.choice([1, 1, 1, 2])):
            try:
                (D.damage_field if kind == "field" else D.damage_frame)(rng, fs)
            except IndexError:
                pass
        return D.encode(fs)
    if kind == "inner":
        # bytes of the data inside a block
        fs = [f.copy() for f in base]
        fr = rng.choice([f for f in fs if not isinstance(f.payload, bytes)])
        fr.payload = D.damage_bytes(rng, D.content(fr.payload))
        return D.encode(fs)
    if kind == "bytes":
        return D.damage_bytes(rng, D.encode(base))
    return D.encode(base)


class Home:
    """a correct file with its indexes, whose damaged versions are tried"""

    def __init__(self, ctx, T, rng, small):
        self.base = D.base(rng, small)
        d = ctx.fresh("home")
        self.pbf, self.nidx, self.rew, self.widx = (os.path.join(d, x) for x in ("p.pbf", "p.nidx", "p.rew.pbf", "p.widx"))
        with open(self.pbf, "wb") as f:
            f.write(D.encode(self.base))
        for tool, a in (("nodeindex", ["-i", self.pbf, "-o", self.nidx]), ("rewritenodes", ["-i", self.pbf, "-x", self.nidx, "-o", self.rew]),
                        ("wayindex", ["-i", self.rew, "-o", self.widx])):
            r = TL.tool(T, tool, a)
            if r.rc != 0:
                raise vf.ToolFailed("%s on a correct file: %s" % (tool, r.brief()))


def check(ctx):
    rng = ctx.rng
    ctx.model("Reader", "Reader_small", workers=4, allow_dead=["Outside"])
    ctx.refuted("Reader", ["Reader_bad_cap", "Reader_bad_skip", "Reader_bad_fill", "Reader_bad_room"])
    if not ctx.quick:
        ctx.model("Reader", "Reader_big", workers=8, timeout=900, allow_dead=["Outside"])
    T = ctx.tools()
    homes = [Home(ctx, T, rng, i % 2 == 0) for i in range(ctx.pick(8, 40))]
    jobs = []
    # truncation at every byte
    for h in homes[:ctx.pick(2, 12)]:
        whole = D.encode(h.base)
        for i in range(1, len(whole)):
            jobs.append((h, "cut at %d of %d" % (i, len(whole)), whole[:i], rng.randrange(1 << 60), ctx.pick(1, 3)))
    n = ctx.pick(110, 2500)
    for h in homes:
        for kind, share in (("field", 1.0), ("frame", 0.5), ("inner", 0.25), ("bytes", 0.25), ("same", 0.02)):
            for i in range(max(1, int(n * share))):
                s = rng.randrange(1 << 60)
                jobs.append((h, "%s %x" % (kind, s), make(vf.random.Random(s), kind, h.base), s, ctx.pick(2, 4)))
    rng.shuffle(jobs)
    per = 60

    def go(chunk):
        parts, confs, dets = [], [], []
        d = ctx.fresh("x")
        p, out = os.path.join(d, "f.pbf"), os.path.join(d, "out")
        st = {}
        for h, label, data, s, k in chunk:
            rg = vf.random.Random(s)
            with open(p, "wb") as f:
                f.write(data)
            runs, det = [], {"file": label, "bytes": data.hex(), "runs": []}
            ts = rg.sample(TOOLS, k)
            if label[:5] == "frame" and rg.random() < 0.3:
                ts[0] = "decompress"
            elif label[:5] == "field" and rg.random() < 0.4:
                ts[0] = rg.choice(["entityfind", "tagfilter"])
            for tool in sorted(set(ts)):
                a, o = args_of(tool, p, h, out, rg)
                r = TL.tool(T, tool, a, out=o, timeout=60)
                runs.append({"tool": tool, "rc": 0 if r.rc == 0 else 1, "rows": rows(tool, r.out)})
                st[(tool, r.rc == 0)] = st.get((tool, r.rc == 0), 0) + 1
                det["runs"].append([tool, a[2:], r.rc, r.out[-300:].decode("utf-8", "replace"), r.err[:300].decode("utf-8", "replace")])
                for fn in os.listdir(d):
                    if fn.startswith("out"):
                        os.remove(os.path.join(d, fn))
            parts.append([{"ev": "run", "runs": runs}])
            confs.append({"b": list(data), "inf": D.inflated(data)})
            dets.append(det)
        shutil.rmtree(d)
        bad, nev = vf.judge_parts(ctx, "AcceptTrace", parts, confs, dets)
        return bad, nev, st, {"file": dets[0]["file"], "size": len(dets[0]["bytes"]) // 2, "runs": parts[0][0]["runs"]}

    out = {}
    for bad, nev, st, smp in ctx.pmap_proc(go, [jobs[i:i + per] for i in range(0, len(jobs), per)]):
        ctx.evaluations += nev
        ctx.sample(smp)
        for k, v in st.items():
            name = "%s %s" % (k[0], "accepts" if k[1] else "rejects")
            out[name] = out.get(name, 0) + v
        for det, e in bad:
            ctx.violation("%s: a damaged file is accepted, or what is read of it is wrong" % det["file"], {"file": det, "event": e})
    ctx.extra["outcomes"] = out
    ctx.extra["files"] = len(jobs)
    if min(out.get("%s %s" % (t, x), 0) for t in TOOLS for x in ("accepts", "rejects")) == 0:
        raise vf.CheckError("a tool accepted, or rejected, every file: %s" % out)
    refuse(ctx, T, homes[0])
    ctx.assumptions += ["a field which may occur once does not occur repeatedly", "zlib (of Python) decides what a compressed stream holds",
                        "an empty file, changesets, values wider than their field and bytes after a compressed stream may be treated either way"]


def refuse(ctx, T, h):
    """missing inputs, and node indexes of another version"""
    rng = ctx.rng
    d = ctx.fresh("r")
    none, out = os.path.join(d, "none"), os.path.join(d, "out")
    evs, dets = [], []

    def one(what, tool, a, o):
        r = TL.tool(T, tool, a, out=o, timeout=60)
        evs.append({"ev": "refuse", "rc": 0 if r.rc == 0 else 1})
        dets.append({"file": "%s: %s" % (tool, what), "runs": [tool, a, r.brief()]})

    for tool in TOOLS:
        a, o = args_of(tool, none, h, out, rng)
        one("input missing", tool, a, o)
    one("node index missing", "rewritenodes", ["-i", h.pbf, "-x", none], out)
    one("way index missing", "relindex", ["-i", h.pbf, "-x", none], out)
    one("node index missing", "dumpnodeindex", ["-i", none, "-p"], None)
    one("way index missing", "dumpwayindex", ["-i", none, "-p"], None)
    good = open(h.nidx, "rb").read()
    ver = struct.unpack("<q", good[:8])[0]
    for v in [ver + 1, ver - 1, 0, -1, ver + 256, ver + (1 << 32), ver ^ (1 << 63) if ver < 0 else ver - (1 << 63), ver << 8, ver ^ 1, ver ^ 2]:
        if v == ver:
            continue
        with open(none + ".idx", "wb") as f:
            f.write(struct.pack("<Q", v & (1 << 64) - 1) + good[8:])
        one("node index of version %d" % v, "rewritenodes", ["-i", h.pbf, "-x", none + ".idx"], out)
        one("node index of version %d" % v, "dumpnodeindex", ["-i", none + ".idx", "-p"], None)
    parts = [[e] for e in evs]
    bad, nev = vf.judge_parts(ctx, "AcceptTrace", parts, [{"b": [], "inf": []} for _ in parts], dets)
    ctx.evaluations += nev
    for det, e in bad:
        ctx.violation("%s is accepted" % det["file"], {"case": det})
