"""C24: progress markup shows the text exactly, at every position."""
import json
import os

import osmpbf
import vf

CH = {"p": "%", "e": "\u00e9"}
POOL = ["%", "%%", "%S", "%N", "S", "N", "a", "B", " ", "\u00e9", "\u0151", "%d", "/", "7", "%U", "~", "%A"]
WIDE = ["\u6f22", "\u0301", "\U0001f5fa", "\u200b"]


def drive(ctx, exe, jobs):
    d = ctx.fresh("bar")
    i, o = os.path.join(d, "in"), os.path.join(d, "out")
    with open(i, "w") as f:
        for k, j in enumerate(jobs):
            j["k"] = k
            f.write(json.dumps({x: y for x, y in j.items() if x != "look"}) + "\n")
    r = vf.run([exe, i, o], timeout=600, env={"LC_ALL": "C", "LANG": "C", "RUNEWIDTH_EASTASIAN": "0"})
    if r.rc != 0:
        if b"panic" in r.err or b"fatal error" in r.err:
            raise vf.ToolFailed("the display panics: %s" % r.err[:1500].decode("utf-8", "replace"))
        raise vf.CheckError("uidrv: %s" % r.brief())
    evs = [[] for _ in jobs]
    for ln in open(o):
        e = json.loads(ln)
        evs[e["k"]].append(e)
    return evs


def cp(s):
    return [ord(c) for c in s]


def single(s):
    return not any(c in s for c in WIDE)


def judge(ctx, jobs, evs, what):
    """each job has look: (event) -> what the specification is to know about it"""
    parts = []
    for j, p in zip(jobs, evs):
        q = []
        for e in p:
            if e["ev"] not in ("see", "end"):
                q.append(e)
                continue
            x = j["look"](e)
            if x is None:
                continue
            x.setdefault("ev", "see")
            q.append(dict(x, k=e["k"], w=j["width"], shown=e["shown"], hl=e["hl"], cells=e["cells"], chl=e["chl"]))
        parts.append(q)

    def go(rng):
        a, b = rng
        return vf.judge_parts(ctx, "BarTrace", parts[a:b], [{}] * (b - a), list(range(a, b)))
    n = len(jobs)
    per = max(1, (n + 7) // 8)
    for bad, nev in ctx.pmap_proc(go, [(a, min(n, a + per)) for a in range(0, n, per)]):
        ctx.evaluations += nev
        ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + nev
        for i, e in bad:
            ctx.violation("%s: %s" % (what(jobs[i]), "does not end" if e["ev"] == "hang" else
                                      "shows %r at %s/%s" % ("".join(map(chr, e.get("shown", []))), e.get("num"), e.get("den"))),
                          {"job": {k: v for k, v in jobs[i].items() if k != "look"}, "events": parts[i][:200], "rejected": e})
    ctx.sample({"job": {k: v for k, v in jobs[n // 2].items() if k != "look"}, "events": parts[n // 2][-2:]})


def marks(ctx, exe):
    scn, _ = ctx.scenarios("BarScen", ctx.pick("BarScen", "BarScen_big"), workers=4, heap="4g")
    rng = ctx.rng
    scn.sort(key=lambda s: json.dumps(s))
    rng.shuffle(scn)
    jobs = []

    def job(text, w, ats, den):
        jobs.append({"mode": "bar", "tool": "mark", "width": w, "text": text, "At": ats, "Max": den, "look":
                     lambda e: {"pre": cp(text), "pct": 0, "post": [], "num": ats[e["i"]], "den": den, "single": int(single(text))}})
    for s in scn[:ctx.pick(1300, 15000)]:
        den = rng.choice([4, 7, 6])
        job("".join(CH.get(c, c) for c in s["text"]), s["width"], list(range(den + 1)), den)
    # long texts and large widths, every position once
    for _ in range(ctx.pick(60, 500)):
        t = "".join(rng.choice(POOL) for _ in range(rng.choice([5, 20, 60, 90])))
        w = rng.choice([1, 20, 79, 80, 81, 120])
        den = rng.choice([w, 2 * w + 1, 1000, 65521])
        ats = sorted({0, den} | {rng.randrange(den + 1) for _ in range(12)} | {min(den, (den * c) // w + 1) for c in rng.sample(range(w), min(w, 8))})
        job(t, w, ats, den)
    for _ in range(ctx.pick(40, 400)):
        t = "x" + "".join(rng.choice(POOL + WIDE * 2) for _ in range(rng.choice([3, 8, 30])))
        job(t, rng.choice([0, 5, 40]), list(range(9)), 8)
    # beyond the end, and 0 of 0
    for w in (0, 10, 40):
        job("99% of%%", w, [8, 9, 16], 8)
        job("99% of%%", w, [0], 0)
    ctx.extra["texts_and_widths"] = len(jobs)
    judge(ctx, jobs, drive(ctx, exe, jobs), lambda j: "markup of %r, width %d" % (j["text"], j["width"]))


def lines(ctx, exe):
    """the lines which have a bar, at amounts of any size"""
    rng = ctx.rng
    jobs = []
    for tool in ("nodeindex.writer", "wayindex.writer", "rewritenodes.worker"):
        for _ in range(ctx.pick(40, 400)):
            w = rng.choice([0, 20, 30, 45, 60, 80, 100, 132])
            den = rng.choice([1, 3, 8, 100, rng.randrange(1, 1 << 19), rng.randrange(1, 1 << 19)])
            ats = sorted({0, den} | {rng.randrange(den + 1) for _ in range(6)})
            copy = "writer" in tool
            sh = rng.choice([0, 0, 10, 15, 24]) if copy else 0
            blk = rng.choice([0, 1, 77, rng.randrange(1 << 31)])
            if not copy:
                den, ats = den % 2000 + 1, sorted({a % (den % 2000 + 1) for a in ats})
            ops = [{"op": "copying", "arg": den << sh}] if copy else [{"op": "decoding", "arg": blk}, {"op": "working", "arg": den}]
            mine, at = {}, 0
            for a in ats:
                ops.append({"op": "advance" if copy else "next", "arg": (a - at) << sh})
                at = a
                mine[len(ops)] = a
                ops.append({"op": "see"})

            def look(e, copy=copy, den=den, sh=sh, blk=blk, mine=mine):
                a = mine[e["i"]]
                pre = "Writer: copying locations (%d/%d) " % (a << sh, den << sh) if copy else "Worker: working on block %d, way %d/%d" % (blk, a, den)
                return {"pre": cp(pre), "pct": int(copy), "post": cp("%") if copy else [], "num": a, "den": den, "single": 1}
            jobs.append({"mode": "bar", "tool": tool, "width": w, "ops": ops, "look": look})
    ctx.extra["lines"] = len(jobs)
    judge(ctx, jobs, drive(ctx, exe, jobs), lambda j: "line of %s, width %d" % (j["tool"], j["width"]))


NAMES = ["planet.osm.pbf", "100%.pbf", "%S%N%%.pbf", "\u0150\u00e9\u00e9 50%S.pbf", "%", "\u6f22\u5b57%.pbf", "a b%d.pbf", "%%" * 30]


def files(ctx, exe):
    """the lines on the file being read, over real runs of the reader"""
    rng = ctx.rng
    jobs = []
    d = ctx.fresh("files")
    for n in range(ctx.pick(36, 300)):
        sub = os.path.join(d, "%d" % n)
        os.mkdir(sub)
        name = os.path.join(sub, rng.choice(NAMES))
        raws = [bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 40, 300, 3000]))) for _ in range(rng.choice([1, 2, 5, 12]))]
        blobs = [(osmpbf.enc_blob_frame("OSMHeader" if i == 0 else "OSMData", r), len(r)) for i, r in enumerate(raws)]
        # where the data of each blob starts
        at, ats, buf = 0, [], b""
        for b, raw in blobs:
            ats.append(at + len(b) - raw)
            at += len(b)
            buf += b
        with open(name, "wb") as f:
            f.write(buf)
        mx = len(buf)
        count = rng.choice([0, 0, 1, 3, 8])
        pas = rng.randrange(count) if count else 0
        w = rng.choice([10, 60, 100, 120, 160])

        def look(e, name=name, ats=ats, mx=mx, count=count, pas=pas):
            a = ats[e["i"]] if e["ev"] == "see" else mx
            s = int(single(name) and "\u5b57" not in name)
            if count:
                return {"pre": cp("Pass %d/%d" % (pas + 1, count)), "pct": 0, "post": [], "num": pas * mx + a, "den": count * mx, "single": 1}
            head = "[action] Processing PBF %s: " % name
            if e["ev"] == "end":
                return {"ev": "plain", "pre": cp(head + "shutting down")}
            return {"pre": cp(head + "sending block %d/%d " % (a, mx)), "pct": 1, "post": cp("%"), "num": a, "den": mx, "single": s}
        jobs.append({"mode": "bar", "tool": "file", "width": w, "text": name, "At": ats, "Max": mx, "Pass": pas, "Count": count, "look": look})
    ctx.extra["runs_of_the_reader"] = len(jobs)
    judge(ctx, jobs, drive(ctx, exe, jobs), lambda j: "reading %s, width %d, pass %d/%d" % (os.path.basename(j["text"]), j["width"], j["Pass"], j["Count"]))


def check(ctx):
    ctx.model("Bar", "Bar_small", workers=4)
    ctx.refuted("Bar", ["Bar_bad_late", "Bar_bad_bytes", "Bar_bad_tail", "Bar_bad_nopad", "Bar_bad_once"])
    if not ctx.quick:
        ctx.model("Bar", "Bar_big", workers=8, timeout=900, heap="8g")
    exe = ctx.driver("uidrv", overlay=ctx.atomic_overlay(["internal/tracker", "cmd"], mutex=True))
    marks(ctx, exe)
    lines(ctx, exe)
    files(ctx, exe)
    ctx.assumptions += ["texts are valid UTF-8 on one line and do not start with a combining character", "characters as wide as the locale C has them"]
