"""C17: the counting and finding tools report exactly what is in the file."""
import ast
import hashlib
import json
import os
import re
import shutil

import gen
import layoutlib
import osmpbf
import toollib as TL
import vf

M64 = (1 << 64) - 1
TOK = re.compile(rb'\s*(?:("(?:[^"\\]|\\.)*")|(-?0x[0-9a-f]+|-?\d+)|(\(nil\))|((?:map\[\w+\]|\[\]|&)?[\w.]+)|([{}:,]))')


def goval(s):
    """the value of a Go-syntax (%#v) literal: structs and maps as dicts, slices as lists"""
    toks, p = [], 0
    while p < len(s):
        m = TOK.match(s, p)
        if not m:
            if not s[p:].strip():
                break
            raise ValueError(s[p:p + 40])
        toks.append(m)
        p = m.end()
    pos = 0

    def peek(i=0):
        return toks[pos + i] if pos + i < len(toks) else None

    def val():
        nonlocal pos
        t = peek()
        pos += 1
        if t.group(1):
            return ast.literal_eval(t.group(1).decode("utf-8"))
        if t.group(2):
            return int(t.group(2), 0) & M64
        name = t.group(4).decode()
        if peek().group(3):
            pos += 1
            return {} if name.startswith("map") else []
        if peek().group(5) != b"{":
            return name
        pos += 1
        out = [] if name.startswith("[]") else {}
        while peek().group(5) != b"}":
            if isinstance(out, list):
                out.append(val())
            else:
                k = val()
                if peek().group(5) != b":":
                    raise ValueError("no colon")
                pos += 1
                out[k] = val()
            if peek().group(5) == b",":
                pos += 1
        pos += 1
        if name.startswith("&"):
            out["kind"] = name
        return out

    v = val()
    if peek() is not None:
        raise ValueError("more text")
    return v


def text(x):
    s = json.dumps(x, sort_keys=True)
    return s if len(s) < 200 else s[:120] + "#" + hashlib.sha1(s.encode()).hexdigest()


def canon(line):
    """an entity printed by entityfind in the form of entities()"""
    try:
        v = goval(line)
        kind = v["kind"]
        if "Node" in kind and "Lat" in v:
            return text(["node", v["Id"], v["Tags"], v["Lat"], v["Lon"]])
        if "Way" in kind:
            return text(["way", v["Id"], v["Tags"], v["Nodes"]])
        return text(["rel", v["Id"], v["Tags"], [list(m) for m in zip(v["Roles"], v["Members"], v["MemberType"])], len(v["Roles"]), len(v["Members"]), len(v["MemberType"])])
    except (ValueError, KeyError, AttributeError, IndexError, SyntaxError, TypeError) as e:
        return "?" + line.decode("utf-8", "replace")[:200]


def entities(blobs):
    nodes, ways, rels, refs, ents = [], [], [], [], []
    for b in blobs:
        if b["type"] != "OSMData":
            continue
        k = b["block"]
        g = k.get("gran", 100)
        for gr in k["groups"]:
            for n in gr.get("nodes", []):
                nodes.append(n["id"])
                ents.append((n["id"], text(["node", n["id"] & M64, dict(map(tuple, n.get("tags", []))), (k.get("latoff", 0) + g * n["lat"]) & M64,
                                            (k.get("lonoff", 0) + g * n["lon"]) & M64])))
            for w in gr.get("ways", []):
                ways.append(w["id"])
                refs.append(len(w["refs"]))
                ents.append((w["id"], text(["way", w["id"] & M64, dict(map(tuple, w.get("tags", []))), [r & M64 for r in w["refs"]]])))
            for r in gr.get("rels", []):
                rels.append(r["id"])
                m = r["members"]
                ents.append((r["id"], text(["rel", r["id"] & M64, dict(map(tuple, r.get("tags", []))), [list(x) for x in ((a, b2 & M64, c) for a, b2, c in m)],
                                            len(m), len(m), len(m)])))
    return nodes, ways, rels, refs, ents


ROWS = [("blocks", rb"Counted (\d+) blocks"), ("nodes", rb"Counted (\d+) nodes, (\d+) max"), ("ways", rb"Counted (\d+) ways, (\d+) max"),
        ("refs", rb"Counted (\d+) ways refs, (\d+) maximum length"), ("rels", rb"Counted (\d+) relations, (\d+) max")]


def rows(out, rank):
    r = []
    for name, rx in ROWS:
        m = re.findall(rb"^" + rx + rb"$", out, re.M)
        if len(m) != 1:
            r.append([-9, len(m)])
            continue
        v = [int(x) for x in (m[0] if isinstance(m[0], tuple) else (m[0],))]
        if name in ("nodes", "ways", "rels"):
            v[1] = 0 if v[1] == 0 else rank.get(v[1], -1)
        r.append([min(x, 2**31 - 1) for x in v])
    return r


def shape(rng, i, lays):
    """a file for the tools to report on"""
    m = i % 8
    if m > 5:
        return layoutlib.planet(rng, [rng.choice(lays) for _ in range(8)], odd=rng.random() < 0.3)[0]
    if m == 0:
        return TL.skewed(rng, rng.choice([3, 12, 25]))
    if m == 1:
        return gen.planet(rng, nn=rng.choice([0, 1, 60, 400]), nw=rng.choice([0, 1, 30, 80]), nr=rng.choice([0, 1, 20]))[0]
    # entities of all kinds in any order, ids in any order, blocks with mixed groups, extremes anywhere
    blobs = [gen.header(rng)] if rng.random() < 0.8 else []
    pool = list(range(1, 30))
    for _ in range(rng.choice([0, 1, 2, 5, 30])):
        if rng.random() < 0.08:
            blobs.append(gen.header(rng))
            continue
        gs = []
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            t = rng.random()
            n = rng.choice([0, 1, 1, 2, 7, 40])
            ids = [rng.choice([1, 2, 3, 7, rng.randrange(1, 40), rng.randrange(1, 2**62), 2**32, 2**63 - 1, 2**31]) for _ in range(n)]
            if t < 0.4:
                gs.append({"nodes": [{"id": j, "lon": lo, "lat": la, "tags": gen.node_tags(rng)} for j in ids for lo, la in [gen.lonlat(rng)]]})
            elif t < 0.7:
                ws = [gen.way(rng, j, pool) for j in ids]
                for w in ws:
                    if rng.random() < 0.1:
                        w["refs"] = [-rng.randrange(1, 2**63) for _ in w["refs"]]
                gs.append({"ways": ws})
            else:
                gs.append({"rels": [gen.rel(rng, j, [pool, pool, pool]) for j in ids]})
        blk = {"groups": gs}
        if rng.random() < 0.2:
            blk.update({"gran": rng.choice([1, 7, 1000]), "latoff": rng.choice([0, -1, 10**9]), "lonoff": rng.choice([0, 5, -2**33])})
        blobs.append(gen.blob(rng, blk))
    return blobs or [gen.header(rng)]


def check(ctx):
    rng = ctx.rng
    ctx.model("Count", "Count_small", workers=4, allow_dead=["Store"])
    ctx.refuted("Count", ["Count_bad_split", "Count_bad_once"])
    if not ctx.quick:
        ctx.model("Count", "Count_big", workers=8, timeout=900, allow_dead=["Store"])
    T = ctx.tools()
    lays = layoutlib.layouts(ctx)
    n = ctx.pick(160, 2000)
    seeds = [(i, rng.randrange(1 << 60)) for i in range(n)]
    per = 12

    def go(chunk):
        parts, confs, dets = [], [], []
        d = ctx.fresh("c")
        for i, seed in chunk:
            rg = vf.random.Random(seed)
            blobs = shape(rg, i, lays)
            p = os.path.join(d, "f.pbf")
            with open(p, "wb") as f:
                f.write(osmpbf.enc_file(blobs, rng=rg))
            nodes, ways, rels, refs, ents = entities(blobs)
            ids = sorted(set(nodes) | set(ways) | set(rels))
            rank = {v: j + 1 for j, v in enumerate(ids)}
            evs, det = [], {"file": i, "blobs": len(blobs), "nodes": nodes[:40], "ways": ways[:40], "rels": rels[:40], "runs": []}
            for k in range(ctx.pick(2, 5)):
                w = rg.choice([1, 1, 2, 3, 8, 33])
                r = TL.tool(T, "entitycount", ["-i", p, "-w", str(w)])
                evs.append({"ev": "count", "rc": 0 if r.rc == 0 else 1, "rows": rows(r.out, rank)})
                det["runs"].append(["entitycount", w, r.brief()])
            w = rg.choice([1, 2, 5, 33])
            r = TL.tool(T, "blockcount", ["-i", p, "-w", str(w)])
            m = re.findall(rb"^Counted (\d+) blocks$", r.out, re.M)
            evs.append({"ev": "blocks", "rc": 0 if r.rc == 0 else 1, "n": int(m[0]) if len(m) == 1 else -1})
            det["runs"].append(["blockcount", w, r.brief()])
            for k in range(ctx.pick(2, 5)):
                w = rg.choice([1, 1, 2, 3, 8, 33])
                ask = [rg.choice(ids) for _ in range(rg.choice([1, 1, 2, 5, 40]))] if ids else []
                ask += [rg.choice([0, 1, 2, 999, 2**63 - 1, 2**64 - 1])] if rg.random() < 0.5 or not ids else []
                rg.shuffle(ask)
                r = TL.tool(T, "entityfind", ["-i", p, "-w", str(w)] + [x for a in ask for x in ("-e", str(a))])
                got = [canon(x) for x in r.out.split(b"\n") if x.strip()]
                evs.append({"ev": "find", "rc": 0 if r.rc == 0 else 1, "ask": sorted({rank.get(a, 0) for a in ask}), "got": got})
                det["runs"].append(["entityfind", w, [str(a) for a in ask[:20]], r.brief()])
            parts.append(evs)
            confs.append({"blobs": len(blobs), "nodes": [rank[x] for x in nodes], "ways": [rank[x] for x in ways], "rels": [rank[x] for x in rels],
                          "refs": refs, "ents": [[rank[a], b] for a, b in ents]})
            dets.append(det)
        shutil.rmtree(d)
        bad, nev = vf.judge_parts(ctx, "CountTrace", parts, confs, dets)
        return bad, nev, {"file": dets[0]["file"], "events": [e["ev"] for e in parts[0]], "rows": parts[0][0]["rows"]}

    for bad, nev, smp in ctx.pmap_proc(go, [seeds[i:i + per] for i in range(0, n, per)]):
        ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + nev
        ctx.evaluations += nev
        ctx.sample(smp)
        for det, e in bad:
            ctx.violation("%s of file %s: wrong report" % ({"count": "entitycount", "blocks": "blockcount", "find": "entityfind"}[e["ev"]], det["file"]),
                          {"file": det, "event": {k: (v if k != "got" else v[:20]) for k, v in e.items()}})
    races(ctx)
    delays(ctx)
    ctx.assumptions += ["node ids are not negative", "a tag key occurs once in an entity"]


def races(ctx):
    """the model's steps on shared counters must be atomic in the code: the race detector is the recorder"""
    try:
        d = ctx.path("binrace")
        ctx._go_build(d, ["./cmd/entitycount", "./cmd/blockcount", "./cmd/entityfind"], race=True)
    except vf.CheckError as e:
        if "race" in str(e) or "cgo" in str(e):
            ctx.extra["race_detector"] = "not available"
            return
        raise
    rng = ctx.rng
    n = 0
    for i in range(ctx.pick(2, 8)):
        blobs = TL.skewed(rng, 24)
        dd = ctx.fresh("race")
        p = os.path.join(dd, "f.pbf")
        open(p, "wb").write(osmpbf.enc_file(blobs))
        for tool, args in (("entitycount", []), ("blockcount", []), ("entityfind", ["-e", "1", "-e", "2"])):
            r = vf.run([os.path.join(d, tool), "-i", p, "-w", "16"] + args, env={"GORACE": "halt_on_error=0 exitcode=0"}, timeout=300)
            n += 1
            evs = []
            for rep in r.err.split(b"WARNING: DATA RACE")[1:]:
                rep = rep.split(b"==================")[0]
                if b"/cmd/" + tool.encode() in rep:
                    evs.append({"ev": "race", "k": 1, "rc": 0})
            if evs and ctx.trace("CountTrace", "CountTrace", evs, env={"CONSTS": const(dd)}) is not None:
                ctx.violation("%s: unsynchronised access to its counters" % tool, {"report": r.err[:3000].decode("utf-8", "replace")})
    ctx.extra["runs_under_race_detector"] = n


def delays(ctx):
    """the same counts with every atomic operation delayed at random, so that the workers' final sums overlap"""
    B = ctx.path("bindelay")
    ctx._go_build(B, ["./cmd/entitycount", "./cmd/blockcount"], overlay=ctx.atomic_overlay(["cmd/entitycount", "cmd/blockcount"]))
    rng = ctx.rng
    seeds = [rng.randrange(1 << 60) for _ in range(ctx.pick(16, 200))]

    def go(seed):
        rg = vf.random.Random(seed)
        blobs = TL.skewed(rg, 24)
        d = ctx.fresh("dl")
        p = os.path.join(d, "f.pbf")
        open(p, "wb").write(osmpbf.enc_file(blobs))
        nodes, ways, rels, refs, ents = entities(blobs)
        rank = {v: j + 1 for j, v in enumerate(sorted(set(nodes) | set(ways) | set(rels)))}
        evs, det = [], {"file": "delayed-%x" % seed, "runs": []}
        for _ in range(3):
            w = rg.choice([2, 8, 16])
            r = vf.run([os.path.join(B, "entitycount"), "-i", p, "-w", str(w)], env={"VATOMIC": "delay:%d" % rg.choice([50, 300, 1000])}, timeout=120)
            evs.append({"ev": "count", "rc": 0 if r.rc == 0 else 1, "rows": rows(r.out, rank)})
            det["runs"].append(["entitycount", w, r.brief()])
            r = vf.run([os.path.join(B, "blockcount"), "-i", p, "-w", str(w)], env={"VATOMIC": "delay:300"}, timeout=120)
            m = re.findall(rb"^Counted (\d+) blocks$", r.out, re.M)
            evs.append({"ev": "blocks", "rc": 0 if r.rc == 0 else 1, "n": int(m[0]) if len(m) == 1 else -1})
            det["runs"].append(["blockcount", w, r.brief()])
        shutil.rmtree(d)
        return evs, {"blobs": len(blobs), "nodes": [rank[x] for x in nodes], "ways": [rank[x] for x in ways], "rels": [rank[x] for x in rels],
                     "refs": refs, "ents": [[rank[a], b] for a, b in ents]}, det

    res = ctx.pmap(go, seeds)
    bad, nev = vf.judge_parts(ctx, "CountTrace", [r[0] for r in res], [r[1] for r in res], [r[2] for r in res])
    ctx.extra["runs_with_delayed_atomics"] = nev
    ctx.evaluations += nev
    for det, e in bad:
        ctx.violation("%s of file %s: wrong report" % (e["ev"], det["file"]), {"file": det, "event": e})


def const(d):
    p = os.path.join(d, "consts")
    open(p, "w").write(json.dumps({"blobs": 0, "nodes": [], "ways": [], "rels": [], "refs": [], "ents": []}) + "\n")
    return p
