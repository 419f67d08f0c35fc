"""C21: values beyond the index formats' limits are rejected, not wrapped."""
import os
import re
import shutil
import zlib

import osmpbf
import toollib as TL
import vf
from osmpbf import fb, fv, varint, zigzag


def limbs(v):
    return [v >> 16 * i & 0xFFFF for i in range(4)]


def word(l):
    return sum(x << 16 * i for i, x in enumerate(l))


def values(ctx):
    """pairs for the encoders: those of the specification, and random ones of every length"""
    rng = ctx.rng
    scn, _ = ctx.scenarios("LimitsScen", "LimitsScen")
    pairs = [(k, word(x), word(y)) for k, x, y in scn]
    ctx.extra["pairs_of_the_specification"] = len(pairs)

    def rnd():
        n = rng.choice([rng.randrange(1, 65), 24, 31, 33, 40])
        v = rng.getrandbits(n)
        return v if rng.random() < 0.9 else -v & (1 << 64) - 1

    for _ in range(ctx.pick(4000, 200000)):
        pairs.append((rng.choice(["co", "wi"]), rnd(), rnd()))
    for _ in range(ctx.pick(4000, 200000)):
        # both fit, or nearly
        if rng.random() < 0.5:
            pairs.append(("co", rng.getrandbits(rng.choice([24, 24, 24, 25])), rng.getrandbits(rng.choice([40, 40, 40, 41]))))
        else:
            pairs.append(("wi", rng.getrandbits(rng.choice([31, 31, 31, 32])), rng.getrandbits(rng.choice([33, 33, 33, 34]))))
    return pairs


def encoders(ctx):
    drv = ctx.driver("limits")
    pairs = values(ctx)
    d = ctx.fresh("lim")
    i, o = os.path.join(d, "in"), os.path.join(d, "out")
    with open(i, "w") as f:
        for p in pairs:
            f.write("%s %d %d\n" % p)
    r = vf.run([drv, i, o], timeout=300)
    if r.rc != 0:
        raise vf.ToolFailed("limits driver: %s" % r.brief())
    got = [[int(x) for x in ln.split()] for ln in open(o)]
    if len(got) != len(pairs):
        raise vf.CheckError("limits driver: %d answers of %d" % (len(got), len(pairs)))
    items = [[k, limbs(x), limbs(y), t == 1, limbs(a), limbs(b)] for (k, x, y), (t, a, b) in zip(pairs, got)]
    ctx.extra["pairs_encoded"] = len(items)
    ctx.extra["pairs_taken"] = sum(1 for x in items if x[3])
    ctx.sample({"pair": items[0]})
    shutil.rmtree(d)
    per = 4000
    chunks = [items[j:j + per] for j in range(0, len(items), per)]

    def judge(ch):
        # bisect by batches, so that a rejection names few pairs
        evs = [{"ev": "pack", "items": ch[j:j + 20]} for j in range(0, len(ch), 20)]
        k = ctx.trace("LimitsTrace", "LimitsTrace", evs)
        return None if k is None else evs[min(k, len(evs) - 1)]

    ctx.evaluations += len(items)
    for e in ctx.pmap(judge, chunks):
        if e is not None:
            shown = ["%s %d %d -> %s" % (k, word(x), word(y), "%d %d" % (word(a), word(b)) if t else "refused") for k, x, y, t, a, b in e["items"]]
            ctx.violation("an index entry is refused although it fits, taken although it does not, or read back differently", {"pairs": shown})


def span_file(first, n, lo, la, last):
    """one block with a run of n ids (every second one, and the last), -> (bytes, ids)"""
    k = (n - 1) // 2
    one = (n - 1) % 2
    ids = varint(zigzag(first)) + varint(zigzag(2)) * k + varint(zigzag(1)) * one
    cnt = 1 + k + one
    lat = varint(zigzag(la)) + b"\0" * (cnt - 2) + varint(zigzag(last[1] - la))
    lon = varint(zigzag(lo)) + b"\0" * (cnt - 2) + varint(zigzag(last[0] - lo))
    blk = fb(1, fb(1, b"")) + fb(2, fb(2, fb(1, ids) + fb(8, lat) + fb(9, lon)))
    blob = fv(2, len(blk)) + fb(3, zlib.compress(blk, 1))
    return osmpbf.enc_blob_frame("OSMData", blob)


def spans(ctx, T):
    """a node index over one long run of ids"""
    rng = ctx.rng
    ns = [2**24 - 1, 2**24, 2**24 + 1, 2**24 - 2] if ctx.quick else [2**24 - 2, 2**24 - 1, 2**24, 2**24 + 1, 2**24 + 2, 2**25 - 1, 2**25, 2**25 + 3, 3 * 2**24]
    cases = [(n, rng.randrange(1, 1000), rng.randrange(1 << 30)) for n in ns]

    def go(case):
        n, first, seed = case
        rg = vf.random.Random(seed)
        d = ctx.fresh("span")
        p, x, q, o = (os.path.join(d, f) for f in ("n.pbf", "n.idx", "w.pbf", "o.pbf"))

        def pos():
            return rg.randrange(-1800000000, 1800000000), rg.randrange(-900000000, 900000000)

        (lo, la), (lo2, la2), (lo3, la3) = pos(), pos(), pos()
        # a second, ordinary block behind it
        after = first + n + 10
        tail = {"type": "OSMData", "comp": "raw", "block": {"groups": [{"nodes": [{"id": after, "lon": lo3, "lat": la3}]}]}}
        with open(p, "wb") as f:
            f.write(span_file(first, n, lo, la, (lo2, la2)) + osmpbf.enc_file([tail]))
        want = {first: (lo, la), first + 2: (lo, la), first + (n - 1) // 2 // 2 * 2: (lo, la), first + n - 1: (lo2, la2), after: (lo3, la3)}
        ids = list(want)
        with open(q, "wb") as f:
            f.write(osmpbf.enc_file([{"type": "OSMData", "comp": "raw", "block": {"groups": [{"ways": [{"id": 1, "refs": ids, "tags": []}]}]}}]))
        r = TL.tool(T, "nodeindex", ["-i", p, "-w", "1"], out=x)
        ev = {"ev": "span", "n": n, "rc": 0 if r.rc == 0 else 1, "at": []}
        det = {"what": "nodeindex over a run of %d ids from %d" % (n, first), "nodeindex": r.brief()}
        if r.rc == 0:
            r2 = TL.tool(T, "rewritenodes", ["-i", q, "-x", x], out=o)
            got = []
            if r2.rc == 0:
                for b in osmpbf.dec_frames(open(o, "rb").read()):
                    if b["type"] == "OSMData":
                        for g in osmpbf.dec_block(b["payload"])["groups"]:
                            for w in g.get("ways", []):
                                got = w["refs"]
            got = (got + [0] * len(ids))[:len(ids)]
            ev["at"] = [[want[i][0], want[i][1], limbs(w & (1 << 64) - 1)] for i, w in zip(ids, got)]
            det["rewritenodes"] = r2.brief()
        shutil.rmtree(d)
        return ev, det

    return ctx.pmap(go, cases, jobs=2)


def loc(rng):
    return -rng.randrange(1, 1 << 62)


def ways(ctx, T):
    """way ids at the limit through wayindex, and members beside it through relindex"""
    rng = ctx.rng
    out = []
    L = 1 << 31
    ids = [L - 1, L - 2, L, L + 1, L + 5, 2 * L - 1, 2 * L, 2 * L + 5, 1 << 33, 1 << 40, (1 << 62) + 9, (1 << 63) - 1, -1, -2, -L, -L + 5, -(1 << 63) + 5, 1, 2]
    ids += [rng.getrandbits(rng.choice([30, 31, 31, 32, 33, 62])) | 8 for _ in range(ctx.pick(6, 100))]

    def go(case):
        wid, seed = case
        rg = vf.random.Random(seed)
        d = ctx.fresh("way")
        p, x, q, o = (os.path.join(d, f) for f in ("w.pbf", "w.idx", "r.pbf", "o"))
        refs = [loc(rg) for _ in range(rg.choice([1, 2, 5]))]
        small = [loc(rg) for _ in range(3)]
        before = [{"id": 5, "refs": small, "tags": []}] if wid > 5 or wid < 0 else []
        with open(p, "wb") as f:
            f.write(osmpbf.enc_file([{"type": "OSMData", "comp": "raw", "block": {"groups": [{"ways": before + [{"id": wid, "refs": refs, "tags": []}]}]}}]))
        r = TL.tool(T, "wayindex", ["-i", p], out=x)
        fits = 0 <= wid < L
        ev = {"ev": "way", "fits": fits, "rc": 0 if r.rc == 0 else 1, "found": False}
        evs, det = [ev], {"what": "wayindex over way %d" % wid, "wayindex": r.brief()}
        if r.rc == 0:
            r2 = TL.tool(T, "dumpwayindex", ["-i", x, "-p"])
            ev["found"] = ("%d [%s]" % (wid, " ".join(map(str, refs)))).encode() in r2.out.split(b"\n")
            det["dumpwayindex"] = r2.brief()
            # members which agree with a way of the index in the bits which are stored
            ms = [wid, wid + L, wid + 2 * L, wid + (1 << 33), 5, 5 + L, 5 + 2 * L, 5 + (1 << 62), L]
            ms = [m for m in ms if 0 < m < 1 << 63]
            have = {wid: len(refs)}
            if before:
                have[5] = len(small)
            with open(q, "wb") as f:
                f.write(osmpbf.enc_file([{"type": "OSMData", "comp": "raw", "block": {"groups": [{"rels": [{"id": 1, "tags": [], "members": [("", m, 1) for m in ms]}]}]}}]))
            r3 = TL.tool(T, "relindex", ["-i", q, "-x", x, "-p", str(rg.choice([1, 1, 2, 3]))], out=o)
            try:
                rel = osmpbf.dec_relidx(open(o, "rb").read()) if r3.rc == 0 else []
                got = [len(w[1]) if w[0] == m else -1 for w, m in zip(rel[0][1], ms)]
                assert len(got) == len(ms)
            except (osmpbf.DecodeError, IndexError, AssertionError, OSError):
                got = [-1] * len(ms)
            for m, g in zip(ms, got):
                evs.append({"ev": "member", "rc": 0 if r3.rc == 0 else 1, "known": m in have, "got": g, "want": have.get(m, 0)})
            det["members"] = [str(m) for m in ms]
            det["relindex"] = r3.brief()
        shutil.rmtree(d)
        return evs, det

    return ctx.pmap(go, [(i, rng.randrange(1 << 60)) for i in ids])


def far(ctx):
    """more way locations than an offset can address; what is written of them is dropped, not stored"""
    B = ctx.tools_fault()
    d = ctx.fresh("far")
    p, x = os.path.join(d, "w.pbf"), os.path.join(d, "w.idx")
    n = 1 << 20
    step = 1 << 62
    refs = varint(zigzag(-step)) + (varint(zigzag(step - 1)) + varint(zigzag(-step + 1))) * (n // 2)
    blobs = {}

    def blob(wid):
        blk = fb(1, fb(1, b"")) + fb(2, fb(3, fv(1, wid) + fb(8, refs)))
        return osmpbf.enc_blob_frame("OSMData", fv(2, len(blk)) + fb(3, zlib.compress(blk, 1)))

    per = len(refs)
    count = (1 << 33) // per + 3
    blobs = ctx.pmap(blob, range(1, count + 1))
    with open(p, "wb") as f:
        for b in blobs:
            f.write(b)
    r = vf.run([os.path.join(B, "wayindex"), "-r", "0", "-i", p, "-a", "0", "-w", "4", "-o", x], env={"VFAULT": "0:sink:65536"}, timeout=600)
    shutil.rmtree(d)
    ctx.extra["far"] = {"ways": count, "bytes_each": per, "seconds": round(r.wall, 1)}
    return {"ev": "far", "rc": 0 if r.rc == 0 else 1}, {"what": "wayindex over %d bytes of locations" % (count * per), "wayindex": r.brief()}


def check(ctx):
    ctx.model("Limits", "Limits_small", workers=2)
    ctx.refuted("Limits", ["Limits_bad_" + x for x in ("late", "one", "mask", "signed")])
    if not ctx.quick:
        ctx.model("Limits", "Limits_big", workers=8, timeout=900)
    T = ctx.tools()
    encoders(ctx)
    todo = [([e], det) for e, det in spans(ctx, T)] + ways(ctx, T)
    if not ctx.quick:
        e, det = far(ctx)
        todo.append(([e], det))
    parts = [t[0] for t in todo]
    bad, nev = vf.judge_parts(ctx, "LimitsTrace", parts, [{} for _ in parts], [t[1] for t in todo])
    ctx.extra["tool_events"] = nev
    ctx.evaluations += nev
    ctx.sample({"what": todo[0][1]["what"], "event": {k: v for k, v in parts[0][0].items() if k != "at"}})
    ctx.sample({"what": todo[-1][1]["what"], "events": parts[-1][:3]})
    for det, e in bad:
        ctx.violation("%s: a value that does not fit is taken, or one that fits is lost" % det["what"], {"case": det, "event": e})
    ctx.assumptions += ["a run of ids is at most that of one block", "2^40 locations are reached by the encoder only"]
