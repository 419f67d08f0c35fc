"""The workers and writers of the tools themselves in cancelled runs: orders of work from CutScen ->
harness/cut -> CutTrace."""
import json
import os
import random
import struct

import gen
import osmpbf
import vf

TOOLS = ["decompress", "tagfilter", "rewritenodes", "relindex", "nodeindex", "wayindex"]
FREE = {"nodeindex", "wayindex"}


def mkfile(ctx, rng, b, n, d):
    """b blobs, every one with about n entities which are in no other"""
    blobs, nid, wid, rid = [], 1, 1, 1
    for i in range(b):
        kind = rng.choice(["header" if i == 0 else "nodes", "nodes", "bare", "ways", "ways", "rels", "mixed", "mixed", "empty"])
        if kind == "header":
            blobs.append(gen.header(rng))
            continue
        gs = []
        if kind in ("nodes", "bare", "mixed"):
            ns = []
            for j in range(max(1, rng.randrange(n // 2, n + 1))):
                lo, la = gen.lonlat(rng)
                ns.append({"id": nid, "lon": lo, "lat": la, "tags": [] if kind == "bare" else [["k%d" % rng.randrange(9), "v%d" % nid]] + ([["note", "x"]] if j % 3 else [])})
                nid += rng.choice([1, 1, 2, 3])
            gs.append({"nodes": ns})
        if kind in ("ways", "mixed"):
            ws = []
            for _ in range(max(1, rng.randrange(n // 4, n // 2 + 1))):
                ws.append({"id": wid, "refs": [rng.randrange(1, nid + 3) for _ in range(rng.choice([1, 2, 5, 9]))], "tags": gen.tags(rng)})
                wid += 1
            gs.append({"ways": ws})
        if kind in ("rels", "mixed"):
            rs = []
            for _ in range(max(1, rng.randrange(n // 4, n // 2 + 1))):
                rs.append({"id": rid, "members": [["r", rng.randrange(1, wid + 2), rng.choice([0, 1, 1, 2])] for _ in range(rng.choice([1, 2, 4]))], "tags": gen.tags(rng)})
                rid += 1
            gs.append({"rels": rs})
        blobs.append(gen.blob(rng, {"groups": gs}))
    p = os.path.join(d, "in.pbf")
    enc = [osmpbf.enc_file([x]) for x in blobs]
    with open(p, "wb") as f:
        f.write(b"".join(enc))
    for i, e in enumerate(enc):
        with open(os.path.join(d, "b%d.pbf" % i), "wb") as f:
            f.write(e)
    return p


def units(tool, data):
    """the file as a list of byte strings; what is no unit comes as None"""
    out, i = [], 0
    if tool == "relindex":
        while i < len(data):
            n = struct.unpack_from("<q", data, i + 8)[0] if i + 16 <= len(data) else -1
            j = i + 16 + 8 * n
            if n < 0 or j > len(data):
                return out + [None]
            out.append(data[i:j])
            i = j
        return out
    while i < len(data):
        if i + 4 > len(data):
            return out + [None]
        h = struct.unpack_from(">I", data, i)[0]
        size = None
        try:
            for num, wt, v in osmpbf.fields(data[i + 4:i + 4 + h]):
                if (num, wt) == (3, 0):
                    size = v
        except osmpbf.DecodeError:
            return out + [None]
        j = i + 4 + h + (size or 0)
        if j > len(data):
            return out + [None]
        out.append(data[i:j])
        i = j
    return out


def drive(ctx, drv, runs, d):
    """-> for each run the list of its events, None if it cannot be, [] if it was not made"""
    todo, res = list(range(len(runs))), {}
    while todo:
        cf, of = os.path.join(d, "c"), os.path.join(d, "o")
        with open(cf, "w") as f:
            for i in todo:
                f.write(json.dumps(dict(runs[i], k=i)) + "\n")
        if os.path.exists(of):
            os.remove(of)
        r = vf.run([drv, cf, of], timeout=600)
        evs = []
        if os.path.exists(of):
            for x in open(of):
                try:
                    evs.append(json.loads(x))
                except ValueError:
                    break
        if not evs:
            raise vf.ToolFailed("driver cut: %s" % r.brief())
        for e in evs:
            if e["ev"] != "end":
                res.setdefault(e["k"], []).append({"ev": e["ev"], "i": e["i"]})
        if evs[-1]["ev"] == "end":
            break
        last = evs[-1]["k"]
        if evs[-1]["ev"] == "void":
            res[last] = None
        elif evs[-1]["ev"] == "hang":
            break                       # every hang takes 20 s: one says it
        else:
            res[last].append({"ev": "crash", "i": 0, "why": r.err[:600].decode("utf-8", "replace")})
        todo = [i for i in todo if i > last]
    return [res.get(i, []) for i in range(len(runs))]


def check(ctx):
    rng = ctx.rng
    ctx.model("Cut", "Cut_small", workers=2, allow_dead=("Quit",))
    ctx.model("Cut", "Cut_drain", workers=2, allow_dead=("Quit",))
    ctx.refuted("Cut", ["Cut_bad_" + x for x in ("skip", "late", "torn", "resume", "quit")])
    if not ctx.quick:
        ctx.model("Cut", "Cut_big", workers=8, allow_dead=("Quit",))
    drv = ctx.driver("cut")
    T = ctx.tools()
    scheds = []
    for cfg, n in (("a", ctx.pick(40, 231)), ("b", ctx.pick(40, 2500)), ("c", ctx.pick(20, 1531))):
        s = ctx.scenarios("CutScen", "CutScen_" + cfg)[0]
        ctx.extra["tool_schedules_enumerated"] = ctx.extra.get("tool_schedules_enumerated", 0) + len(s)
        scheds += s if len(s) <= n else rng.sample(s, n)
    jobs = [(tool, b, [s for s in scheds if s["b"] == b], rng.random()) for tool in TOOLS for b in (3, 4) for _ in range(ctx.pick(1, 3))]
    jobs += [(tool, rng.choice([12, 30, 60]), None, rng.random()) for tool in TOOLS for _ in range(ctx.pick(2, 16))]

    def go(job):
        tool, b, ss, seed = job
        r = random.Random(seed)
        d = ctx.fresh("cut")
        p = mkfile(ctx, r, b, r.choice([2, 6, 40]) if ss else r.choice([20, 400, 3000]), d)
        idx = os.path.join(d, "n.idx")
        if tool == "rewritenodes":
            x = vf.run([os.path.join(T, "nodeindex"), "-r", "0", "-i", p, "-o", idx])
            if x.rc != 0:
                raise vf.ToolFailed("nodeindex: %s" % x.brief())
        out = lambda n: os.path.join(d, "out%s" % n)
        ids, outs = {}, []
        free = tool in FREE
        if not free:
            ref = [{"tool": tool, "in": os.path.join(d, "b%d.pbf" % i), "out": out("r%d" % i), "index": idx, "blocks": 1, "w": 1, "steps": [], "afterus": -1} for i in range(b)]
            for i, ev in enumerate(drive(ctx, drv, ref, d)):
                if not ev or ev[-1]["ev"] != "done":
                    raise vf.ToolFailed("%s of one block: %s" % (tool, ev))
                us = units(tool, open(out("r%d" % i), "rb").read())
                if None in us:
                    raise vf.ToolFailed("%s of one block leaves a file which is cut" % tool)
                outs.append([ids.setdefault(u, len(ids) + 1) for u in us])
        if ss:
            runs = [{"steps": s["steps"], "w": s["w"], "afterus": -1} for s in ss]
        else:
            runs = [{"steps": [], "w": r.choice([1, 2, 3, 4, 8]), "afterus": r.choice([-1, 0, 50, r.randrange(0, 400), r.randrange(0, 4000), r.randrange(0, 20000)])} for _ in range(ctx.pick(12, 40))]
        for i, x in enumerate(runs):
            x.update({"tool": tool, "in": p, "out": out(i), "index": idx, "blocks": b})
        parts, confs, dets, void = [], [], [], 0
        for i, ev in enumerate(drive(ctx, drv, runs, d)):
            if ev is None:
                void += 1
                continue
            if not ev:
                continue
            evs = [{"ev": e["ev"], "i": e["i"]} for e in ev]
            done = [j for j, e in enumerate(evs) if e["ev"] == "done"]
            if done and evs[-1]["ev"] == "cancel":  # it came after the end
                evs = evs[:done[0] + 1]
            if evs[-1]["ev"] == "done":
                us = units(tool, open(out(i), "rb").read())
                evs.append({"ev": "file", "u": [] if free else [ids.get(u, 0) for u in us]})
            parts.append(evs)
            confs.append({"b": b, "outs": outs or [[]] * b, "free": free})
            dets.append({"tool": tool, "blocks": b, "workers": runs[i]["w"], "steps": ["%s %d" % (s["op"], s["i"]) for s in runs[i]["steps"]], "cancel_after_us": runs[i]["afterus"],
                         "what the blocks become": outs[:20], "events": ["%s %s" % (e["ev"], e.get("i", e.get("u"))) for e in evs][-30:], "why": ev[-1].get("why", "")})
        bad, nev = vf.judge_parts(ctx, "CutTrace", parts, confs, dets)
        vf.shutil.rmtree(d, ignore_errors=True)
        return bad, nev, len(parts), void, dets[0] if dets else {}

    for bad, nev, n, void, smp in ctx.pmap_proc(go, jobs):
        ctx.evaluations += n
        ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + nev
        ctx.extra["cancelled_tool_runs"] = ctx.extra.get("cancelled_tool_runs", 0) + n
        ctx.extra["schedules_without_a_run"] = ctx.extra.get("schedules_without_a_run", 0) + void
        for det, e in bad:
            what = {"file": "the file is not what the first blocks become", "hang": "processing does not end", "crash": "the tool crashes"}.get(e["ev"], "event " + e["ev"])
            ctx.violation("%s cancelled after %s: %s" % (det["tool"], " ".join(det["steps"]) or "%s us" % det["cancel_after_us"], what), det)
    ctx.sample(smp)
