"""C14: output bytes do not depend on workers, scheduling, timing or recycled memory."""
import os
import random

import gen
import rewritelib
import toollib as TL
import vf


def settings(ctx, rng, n):
    """ways to run a tool which must make no difference"""
    out = [dict(w=1)]
    fixed = [dict(w=2), dict(w=3), dict(w=16, procs=8), dict(w=8, cpus="0"), dict(w=64), dict(w=5, procs=1), dict(w=8, gc="1"),
             dict(w=8, gc="off"), dict(), dict(w=7, cpus="0,1", gc="5"), dict(w=8, pool="lifo", fill=0), dict(w=3, pool="fifo", fill=255)]
    rng.shuffle(fixed)
    return out + fixed[:n - 1]


def once(ctx, T, P, name, args, writes, s, d, i, extra=()):
    a = list(args) + list(extra)
    if s.get("w"):
        a += ["-w", str(s["w"])]
    env = {"TERM": "xterm"}
    if s.get("procs"):
        a += ["--max-threads", str(s["procs"])]
    if s.get("gc"):
        env["GOGC"] = s["gc"]
    if s.get("pool"):
        env["VPOOL_MODE"], env["VPOOL_FILL"] = s["pool"], str(s["fill"])
    out = os.path.join(d, "o%d" % i) if writes else None
    r = TL.tool(P if s.get("pool") else T, name, a, out, env=env, cpus=s.get("cpus"))
    if r.rc != 0:
        return 1, r.brief()
    if writes:
        if not os.path.exists(out):
            return 1, "no output file"
        g = TL.digest(out)
        os.remove(out)
        return 0, g
    lines = [x for x in r.out.decode("utf-8", "replace").splitlines() if "run time" not in x]
    if name == "entityfind":
        lines.sort()
    return 0, "\n".join(lines)


def check(ctx):
    rng = ctx.rng
    ctx.model("Determin", "Determin_small", workers=4)
    if not ctx.quick:
        ctx.model("Determin", "Determin_big", workers=8)
    T, P = ctx.tools(), ctx.tools_poison()
    worlds = []
    nw = ctx.pick(16, 120)
    for i in range(nw):
        if i % 3 == 0:
            blobs = TL.skewed(rng, ctx.pick(14, 40))
        else:
            blobs = gen.planet(rng, nn=rng.choice([20, 150, 400]), nw=rng.choice([12, 80]), nr=rng.choice([5, 30]))[0]
        worlds.append(blobs)
    # the longest part first
    jobs = [(i, rng.random()) for i in range(nw)]

    def go(job):
        i, seed = job
        rg = random.Random(seed)
        w = TL.World(ctx, "planet %d" % i, worlds[i])
        evs, det = [], []
        cases = dict(w.cases())
        cases["entityfind"] = ("entityfind", ["-i", w.pbf, "-e", "1", "-e", "2", "-e", "3", "-e", "77"], False)
        for g, (name, args, writes) in sorted(cases.items()):
            runs = [(s, ()) for s in settings(ctx, rg, ctx.pick(6, 14))]
            if name == "rewritenodes":
                runs += [(dict(w=3), ("-t", "2")), (dict(), ("-t", "8")), (dict(w=1), ("-m", "1"))]
            for k, (s, extra) in enumerate(runs):
                rc, d = once(ctx, T, P, name, args, writes, s, w.dir, k, extra)
                evs.append({"ev": "out", "g": "%d %s" % (i, g), "rc": rc, "d": d if rc == 0 else "failed"})
                det.append({"case": g, "planet": i, "setting": dict(s, more=list(extra)), "rc": rc, "result": d})
        vf.shutil.rmtree(w.dir)
        return evs, det

    res = ctx.pmap(go, jobs)
    # several passes over a node index of several MB
    big = rewritelib.Big(ctx, blocks=ctx.pick(12, 41), per=ctx.pick(16384, 8192))
    blobs = [gen.header(rng)]
    wid = 1
    for _ in range(24):
        ws = []
        for _ in range(rng.choice([1, 3, 40])):
            ws.append({"id": wid, "refs": [rng.choice(big.ids) for _ in range(rng.choice([1, 2, 9, 50]))], "tags": []})
            wid += 1
        blobs.append(gen.blob(rng, {"groups": [{"ways": ws}]}))
    import osmpbf
    pbf = os.path.join(big.dir, "w.pbf")
    open(pbf, "wb").write(osmpbf.enc_file(blobs))
    runs = [(m, s) for m in (None, 1, 2, 3) for s in settings(ctx, rng, ctx.pick(2, 8))]

    def multi(x):
        k, (m, s) = x
        ex = ["-m", str(m)] if m else []
        rc, d = once(ctx, T, P, "rewritenodes", ["-i", pbf, "-x", big.idx], True, s, big.dir, k, ex)
        return ({"ev": "out", "g": "big rewritenodes", "rc": rc, "d": d if rc == 0 else "failed"},
                {"case": "big rewritenodes", "setting": dict(s, memory=m), "rc": rc, "result": d})

    many = ctx.pmap(multi, list(enumerate(runs)), jobs=4)
    res.append(([e for e, _ in many], [d for _, d in many]))
    runs = [dict(s) for s in settings(ctx, rng, ctx.pick(3, 10))]

    def index(x):
        k, s = x
        rc, d = once(ctx, T, P, "nodeindex", ["-i", big.pbf], True, s, big.dir, 100 + k)
        return ({"ev": "out", "g": "big nodeindex", "rc": rc, "d": d if rc == 0 else "failed"},
                {"case": "big nodeindex", "setting": s, "rc": rc, "result": d})

    many = ctx.pmap(index, list(enumerate(runs)), jobs=3)
    res.append(([e for e, _ in many], [d for _, d in many]))
    vf.shutil.rmtree(big.dir)
    evs = [e for a, _ in res for e in a]
    det = [d for _, b in res for d in b]
    ctx.evaluations += len(evs)
    ctx.extra["runs"] = len(evs)
    ctx.extra["cases"] = len({e["g"] for e in evs})
    ctx.sample(det[3])
    left, at = evs, det
    while left:
        k = ctx.trace("DeterminTrace", "DeterminTrace", left)
        if k is None:
            break
        e, d = left[min(k, len(left) - 1)], at[min(k, len(left) - 1)]
        first = next(x for x in det if x["case"] == d["case"] and x.get("planet") == d.get("planet"))
        ctx.violation("%s: %s" % (d["case"], "fails" if e["rc"] else "other output than with other settings"), {"run": d, "first run": first})
        if len(ctx.violations) > 5:
            break
        keep = [i for i in range(len(left)) if left[i]["g"] != e["g"]]
        left, at = [left[i] for i in keep], [at[i] for i in keep]
    ctx.assumptions += ["schedules are sampled by varying workers, processors, CPU affinity and the garbage collector"]
