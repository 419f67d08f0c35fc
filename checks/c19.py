"""C19: a pooled buffer has one owner at a time and its content does not leak."""
import json
import os
import random

import c14
import gen
import toollib as TL
import vf


def check(ctx):
    rng = ctx.rng
    ctx.model("BufPool", "BufPool_small", workers=4)
    if not ctx.quick:
        ctx.model("BufPool", "BufPool_big", workers=8, heap="6g")
    scn, _ = ctx.scenarios("BufPoolScen", ctx.pick("BufPoolScen", "BufPoolScen_big"), workers=1)
    limit = ctx.pick(3000, 60000)
    if len(scn) > limit:
        scn = rng.sample(scn, limit)
    real = ctx.driver("poolhist")
    ov = ctx.pool_overlay()
    adv = ctx.driver("poolhist", overlay=ov)
    T, P = ctx.tools(), ctx.tools_poison()
    ctx.extra["files_of_the_pool_watched"] = ctx.pool_shimmed
    d = ctx.fresh("pool")
    jobs = []
    for ops in scn:
        # sizes 0, 2, 3 of the specification against a pool of default size 2, and others
        k = rng.randrange(3)
        f = [lambda n: n, lambda n: {0: 0, 2: 4096, 3: 4097}[n], lambda n: {0: 0, 2: 65536, 3: 65537}[n]][k]
        jobs.append({"def": [2, 4096, 65536][k] if rng.random() < 0.9 else rng.choice([0, 1, 100]),
                     "ops": [[o[0], o[1], f(o[2])] if o[0] == "get" else o for o in ops]})
        if k == 2 and rng.random() < 0.8:       # large buffers are slow
            jobs[-1]["def"], jobs[-1]["ops"] = 2, ops
    for _ in range(ctx.pick(60, 600)):
        ops, has = [], set()
        sizes = rng.choice([[0, 1, 2], [1, 7, 8, 9], [100, 1000, 65536, 65537], [5]])
        for _ in range(rng.randint(10, 80)):
            u = rng.randint(1, 6)
            if u in has:
                has.discard(u)
                ops.append(["put", u])
            elif rng.random() < 0.1:
                ops.append(["foreign", u, rng.randint(1, 9)])
            else:
                has.add(u)
                ops.append(["get", u, rng.choice(sizes)])
        jobs.append({"def": rng.choice([0, 1, 8, 65536]), "ops": ops})
    fi = os.path.join(d, "in")
    with open(fi, "w") as f:
        f.write("".join(json.dumps(j) + "\n" for j in jobs))
    traces = []        # label, events, what to report

    def seq(x):
        label, exe, env = x
        fo = os.path.join(d, "o-" + label.replace(" ", ""))
        r = vf.run([exe, "seq", fi, fo], env=env, timeout=300)
        evs = [json.loads(l) for l in open(fo)] if os.path.exists(fo) else []
        if r.rc != 0:
            evs.append({"ev": "crash", "why": r.brief()})
        return label, evs

    def conc(x):
        label, exe, env, users, n, seed = x
        fo = os.path.join(d, "c-" + label.replace(" ", ""))
        r = vf.run([exe, "conc", fo, str(users), str(n), str(seed)], env=env, timeout=300)
        evs = [json.loads(l) for l in open(fo)] if os.path.exists(fo) else []
        if r.rc != 0:
            evs.append({"ev": "crash", "why": r.brief()})
        return label, evs

    fills = [{"VPOOL_FILL": "219"}, {"VPOOL_FILL": "0", "VPOOL_MODE": "fifo"}]
    traces += ctx.pmap(seq, [("real pool", real, {}), ("lifo pool", adv, fills[0]), ("fifo pool", adv, fills[1])])
    cs = []
    for s in range(ctx.pick(3, 16)):
        cs += [("concurrent real %d" % s, real, {}, 8, ctx.pick(150, 400), ctx.seed * 100 + s), ("concurrent lifo %d" % s, adv, fills[s % 2], 6, ctx.pick(100, 300), s)]
    traces += ctx.pmap(conc, cs, jobs=4)
    # the tools: whatever was in a buffer, the output is that of the ordinary tools
    nw = ctx.pick(8, 60)
    worlds = []
    for i in range(nw):
        blobs = TL.skewed(rng, ctx.pick(12, 30)) if i % 3 == 0 else gen.planet(rng, nn=rng.choice([20, 150]), nw=rng.choice([12, 60]), nr=rng.choice([5, 30]))[0]
        for b in blobs:
            if rng.random() < 0.8:
                b["comp"] = "zlib"      # only these need a buffer
        worlds.append(blobs)

    def tools(i):
        rg = random.Random("%d/%d" % (ctx.seed, i))
        w = TL.World(ctx, "planet %d" % i, worlds[i])
        evs = []
        cases = dict(w.cases())
        del cases["blockcount"]
        cases["entityfind"] = ("entityfind", ["-i", w.pbf] + [a for k in range(1, 40) for a in ("-e", str(k))], False)
        for g, (name, args, writes) in sorted(cases.items()):
            rc, dg = c14.once(ctx, T, P, name, args, writes, dict(w=2), w.dir, 0)
            evs.append({"ev": "out", "g": "%d %s" % (i, g), "rc": rc, "d": dg})
            variants = [("lifo", 219), ("lifo", 0), ("fifo", 255), ("fresh", 128), ("lifo", 8)]
            for mode, fill in rg.sample(variants, ctx.pick(3, 5)):
                tr = os.path.join(w.dir, "trace")
                if os.path.exists(tr):
                    os.remove(tr)
                s = dict(w=rg.choice([1, 2, 3, 8]), pool=mode, fill=fill)
                rc, dg = once(ctx, P, name, args, writes, s, w.dir, tr)
                evs.append({"ev": "new"})
                if os.path.exists(tr):
                    for l in open(tr):
                        e = json.loads(l)
                        if e["b"]:
                            evs.append({"ev": "t" + e["ev"], "b": e["b"], "case": g})
                evs.append({"ev": "out", "g": "%d %s" % (i, g), "rc": rc, "d": dg, "setting": s})
        vf.shutil.rmtree(w.dir)
        return "tools on planet %d" % i, evs

    traces += ctx.pmap(tools, range(nw))
    ctx.evaluations += sum(len(e) for _, e in traces)
    ctx.extra["events"] = {k: sum(1 for _, t in traces for e in t if e["ev"] == k) for k in ("get", "put", "foreign", "tget", "tput", "out")}
    ctx.sample({"history": jobs[0], "events": traces[0][1][:8]})

    def judge(t):
        label, evs = t
        k = ctx.trace("BufPoolTrace", "BufPoolTrace", evs)
        return None if k is None else (label, evs[min(k, len(evs) - 1)], evs[max(0, k - 12):k + 1])

    pieces = []
    for label, evs in traces:
        cur = []
        for e in evs:
            if e["ev"] == "new" and len(cur) > 4000 and label.find("tools") < 0:
                pieces.append((label, cur))
                cur = []
            cur.append(e)
        pieces.append((label, cur))
    for bad in ctx.pmap(judge, pieces):
        if bad:
            label, e, tail = bad
            why = e.get("g") or e["ev"]
            ctx.violation("%s: %s rejected" % (label, why), {"event": e, "before": tail})
    vf.shutil.rmtree(d)
    ctx.assumptions += ["the pool is a sync.Pool of internal/pool (another implementation is only watched through its users)"]


def once(ctx, P, name, args, writes, s, d, tr):
    out = os.path.join(d, "o") if writes else None
    r = TL.tool(P, name, list(args) + ["-w", str(s["w"])], out, env={"VPOOL_MODE": s["pool"], "VPOOL_FILL": str(s["fill"]), "VPOOL_TRACE": tr})
    if r.rc != 0:
        return 1, r.brief()
    if writes:
        return 0, TL.digest(out) if os.path.exists(out) else "nothing"
    lines = r.out.decode("utf-8", "replace").splitlines()
    if name == "entityfind":
        lines.sort()
    return 0, "\n".join(lines)
