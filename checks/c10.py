"""C10: decompress keeps every blob's content, type and order."""
import json
import os
import random
import struct
import zlib

import doc
import osmpbf
import vf
from osmpbf import fb, fv


def deflate(rng, p):
    """a zlib stream, now and then with many flushes, so that reads come up short"""
    c = zlib.compressobj(rng.choice([0, 1, 6, 9]), zlib.DEFLATED, rng.choice([9, 15]), strategy=rng.choice([0, 1, 2, 3, 4]))
    if len(p) < 200000 and rng.random() < 0.5:
        out, i = b"", 0
        while i < len(p):
            n = rng.choice([1, 100, 5000, 70000]) if len(p) > 50 else 1
            out += c.compress(p[i:i + n])
            i += n
            if rng.random() < 0.5:
                out += c.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
        return out + c.flush()
    return c.compress(p) + c.flush()


def frame(rng, b):
    f = {"raw": lambda: fb(1, b["p"]), "size": lambda: fv(2, len(b["p"])), "zlib": lambda: fb(3, deflate(rng, b["p"]))}
    blob = b"".join(f[x]() for x in b["layout"])
    t, s = fb(1, b["type"].encode()), fv(3, len(blob))
    bh = t + s if b["header"] == "type-size" else s + t
    return struct.pack(">I", len(bh)) + bh + blob


LAYOUTS = [["raw"], ["raw", "size"], ["size", "raw"], ["size", "zlib"], ["zlib", "size"]]


def content(rng, n):
    r = rng.random()
    if r < 0.3:
        return bytes(n)
    if r < 0.6:
        return rng.randbytes(n)
    w = rng.randbytes(rng.choice([3, 50, 1000]))
    return (w * (n // len(w) + 1))[:n]


def rblob(rng, n):
    return {"type": "OSMData" if rng.random() < 0.9 else "OSMHeader", "p": content(rng, n), "layout": rng.choice(LAYOUTS),
            "header": rng.choice(["type-size", "size-type"])}


SMALL = [0, 0, 1, 2, 3, 5, 16, 100, 126, 127, 128, 129, 255, 256, 1000, 4096, 16382, 16383, 16384, 16385, 40000, 65535, 65536, 65537]


def scenarios(ctx):
    out = []
    sc, _ = ctx.scenarios("DecompressScen", "DecompressScen")
    if len(sc) > ctx.pick(400, 6481):
        sc = ctx.rng.sample(sc, ctx.pick(400, 6481))
    ctx.extra["files_enumerated_by_tlc"] = len(sc)
    for i, x in enumerate(sc):
        rng = random.Random("%s/%d" % (ctx.rng.random(), i))
        p = {1: b"", 2: content(rng, rng.choice([1, 2, 3])), 3: content(rng, rng.choice(SMALL)), 4: content(rng, rng.choice([100000, 2**16 + 1, 131072, 3]))}
        out.append((rng, "enumerated %s" % json.dumps(x), [dict(b, p=p[b["payload"]]) for b in x], [rng.choice([1, 2, 3])]))
    for i in range(ctx.pick(120, 1500)):
        rng = random.Random("%s/%d" % (ctx.rng.random(), i))
        n = rng.choice([0, 1, 2, 5, 12, 40])
        out.append((rng, "random blobs %d" % i, [rblob(rng, rng.choice(SMALL) if rng.random() < 0.8 else rng.randrange(200000)) for _ in range(n)],
                    [rng.choice([1, 2, 4, 8])]))
    rng = random.Random(ctx.rng.random())
    sizes = [2**20, 2**20 - 1, 2**21 - 1, 2**21, 2**21 + 1, 2**24, 2**24 + 5] + ([] if ctx.quick else [2**25 - 100, 2**25, 30000000])
    out.append((rng, "large blobs", [rblob(rng, n) for n in sizes], [1, 4]))
    out.append((rng, "shrinking blobs", [dict(rblob(rng, n), layout=["size", "zlib"]) for n in (300000, 200000, 100000, 5000, 5000, 1, 0, 70000, 3, 0, 1)] * 3, [1, 2, 8]))
    out.append((rng, "growing blobs", [dict(rblob(rng, 2**k + d), layout=["size", "zlib"]) for k in range(0, 18) for d in (0, 1)], [1, 2]))
    out.append((rng, "600 blobs", [rblob(rng, rng.choice(SMALL)) for _ in range(600)], [1, 8, 16]))
    return out


def run_one(ctx, s, d):
    rng, label, blobs, runs = s
    fi, fo = os.path.join(d, "i.pbf"), os.path.join(d, "o.pbf")
    with open(fi, "wb") as f:
        for b in blobs:
            f.write(frame(rng, b))
    if not blobs:
        with open(fi, "wb") as f:
            f.write(frame(rng, {"type": "OSMHeader", "p": b"x", "layout": ["raw"], "header": "type-size"}))
        blobs = [{"type": "OSMHeader", "p": b"x", "layout": ["raw"]}]
    P = doc.Intern()
    conf = {"in": [[P(b["type"]), P(b["p"])] for b in blobs]}
    det = {"label": label, "blobs": [[b["type"], len(b["p"]), b["layout"], b["p"][:40].hex()] for b in blobs[:60]], "runs": []}
    evs = []
    for w in runs:
        r = vf.run([os.path.join(ctx.tools(), "decompress"), "-r", "0", "-i", fi, "-o", fo, "-w", str(w)], timeout=300)
        evs.append({"ev": "run", "rc": 0 if r.rc == 0 else 1, "run": len(det["runs"])})
        det["runs"].append({"workers": w, "rc": r.rc, "tool": None if r.rc == 0 else r.brief()})
        if r.rc == 0:
            try:
                fr = osmpbf.dec_frames(open(fo, "rb").read())
                evs += [{"ev": "blob", "type": P(x["type"]), "payload": P(x["payload"]), "enc": x["enc"]} for x in fr]
                evs.append({"ev": "endrun"})
            except (osmpbf.DecodeError, OSError, ValueError, zlib.error) as e:
                det["runs"][-1]["decode"] = str(e)
                evs.append({"ev": "garbage"})
            if os.path.exists(fo):
                os.remove(fo)
    return evs, conf, det


def check(ctx):
    ctx.model("Decompress", "Decompress_small", workers=4)
    if not ctx.quick:
        ctx.model("Decompress", "Decompress_live", workers=4)
        ctx.model("Decompress", "Decompress_big", workers=8, heap="6g")
    sc = scenarios(ctx)
    ctx.tools()
    n = max(8, len(sc) // 40)
    sc.sort(key=lambda s: -sum(len(b["p"]) + 100 for b in s[2]) * len(s[3]))

    def go(chunk):
        d = ctx.fresh("dec")
        r = [run_one(ctx, s, d) for s in chunk]
        vf.shutil.rmtree(d)
        return vf.judge_parts(ctx, "DecompressTrace", [x[0] for x in r], [x[1] for x in r], [x[2] for x in r])

    for bad, nev in ctx.pmap_proc(go, [sc[i::n] for i in range(n)]):
        ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + nev
        for det, e in bad:
            ctx.violation("%s: event %s rejected" % (det["label"], e["ev"]), {"file": det, "event": e})
    ctx.evaluations += sum(len(s[3]) for s in sc)
    ctx.sample({"first": sc[-1][1]})
