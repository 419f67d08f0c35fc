"""C23: tools leave no temporary files and never modify their inputs."""
import os
import shutil

import faultlib as FL
import gen
import osmpbf
import rewritelib
import toollib as TL
import vf


def snapshot(root):
    out = []
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            n = os.path.relpath(p, root)
            out.append([n, "-> " + os.readlink(p) if os.path.islink(p) else TL.digest(p)])
        for x in ds:
            out.append([os.path.relpath(os.path.join(d, x), root) + "/", "dir"])
    return sorted(out)


def make_inputs(ctx, rng):
    """directory of inputs: for the sizes small and big, p (planet), w (its ways rewritten), n and x (indexes); and the
    large node index N, with files of ways over it"""
    d = ctx.fresh("inputs")
    T = ctx.tools()
    for size, nn, nw, nr in (("none", 0, 0, 0), ("small", 6, 3, 2), ("big", 300, 60, 30)):
        blobs = gen.planet(rng, nn=nn, nw=nw, nr=nr)[0]
        w = TL.World(ctx, size, blobs)
        for a, b in ((w.pbf, "p"), (w.nidx, "n"), (w.rew, "w"), (w.widx, "x")):
            shutil.move(a, os.path.join(d, "%s.%s" % (size, b)))
    big = rewritelib.Big(ctx, blocks=9, per=16384)
    shutil.move(big.idx, os.path.join(d, "N"))
    for size, n in (("none", 0), ("small", 3), ("big", 200)):
        ws = [{"id": i + 1, "refs": [rng.choice(big.ids) for _ in range(20)], "tags": []} for i in range(n)]
        with open(os.path.join(d, size + ".v"), "wb") as f:
            f.write(osmpbf.enc_file([gen.header(rng)] + [gen.blob(rng, {"groups": [{"ways": ws[i:i + 40]}]}) for i in range(0, n, 40)]))
    shutil.rmtree(big.dir)
    return d


# name -> tool, arguments ({s} is the size), inputs besides
CASES = {
    "nodeindex": ("nodeindex", ["-i", "in/{s}.p"]),
    "rewritenodes": ("rewritenodes", ["-i", "in/{s}.p", "-x", "in/{s}.n"]),
    "rewritenodes -m 1": ("rewritenodes", ["-i", "in/{s}.v", "-x", "in/N", "-m", "1"]),
    "rewritenodes -m 2": ("rewritenodes", ["-i", "in/{s}.v", "-x", "in/N", "-m", "2"]),
    "wayindex": ("wayindex", ["-i", "in/{s}.w"]),
    "wayindex -a 6": ("wayindex", ["-i", "in/{s}.w", "-a", "6"]),
    "relindex": ("relindex", ["-i", "in/{s}.p", "-x", "in/{s}.x"]),
    "relindex -p 2": ("relindex", ["-i", "in/{s}.p", "-x", "in/{s}.x", "-p", "2"]),
    "relindex -p 4": ("relindex", ["-i", "in/{s}.p", "-x", "in/{s}.x", "-p", "4"]),
    "tagfilter": ("tagfilter", ["-i", "in/{s}.p"]),
    "decompress": ("decompress", ["-i", "in/{s}.p"]),
}
READERS = {
    "entitycount": ["-i", "in/{s}.p"], "blockcount": ["-i", "in/{s}.p"], "entityfind": ["-i", "in/{s}.p", "-e", "1", "-e", "2"],
    "dumpnodeindex": ["-i", "in/{s}.n", "-p", "-s"], "dumpwayindex": ["-i", "in/{s}.x", "-p", "-s"],
}


def fill(args, s, root):
    return [os.path.join(root, a.format(s=s)) if a.startswith("in/") else a for a in args]


class Root:
    def __init__(self, ctx, rng, inputs, outs):
        self.dir = ctx.fresh("root")
        for x in ("in", "out", "cwd", "tmp", "home"):
            os.makedirs(os.path.join(self.dir, x))
        for f in os.listdir(inputs):
            src = os.path.join(inputs, f)
            (os.link if os.path.getsize(src) > 500000 else shutil.copy)(src, os.path.join(self.dir, "in", f))
        # other files around, whatever they are called
        for n in rng.sample(["a.txt", "a.tmp", "b.loc", "a.pass", "a.pass_1", "c", "c.loc.tmp", "c.pass_001_002", "loc.tmp", ".loc.tmp", "a.idx.loc.tmp", "aa.loc.tmp"], 6):
            self.put(os.path.join(rng.choice(["out", "out", "cwd", "tmp", "in"]), n), rng)
        for o in outs:
            if rng.random() < 0.5:
                self.put("out/" + o, rng)

    def put(self, name, rng):
        with open(os.path.join(self.dir, name), "wb") as f:
            f.write(bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 50, 3000]))) * rng.choice([1, 1, 40]))

    def run(self, T, cmd, env=None, rel=False):
        e = {"TMPDIR": os.path.join(self.dir, "tmp"), "HOME": os.path.join(self.dir, "home")}
        e.update(env or {})
        return vf.run([os.path.join(T, cmd[0])] + cmd[1:], cwd=os.path.join(self.dir, "cwd"), env=e, timeout=120)


def check(ctx):
    rng = ctx.rng
    ctx.model("Dir", "Dir_small", workers=4)
    ctx.model("Dir", "Dir_clean", workers=4)
    ctx.refuted("Dir", ["Dir_bad_" + x for x in ("left", "tail", "tmptail", "shared", "inplace")])
    if not ctx.quick:
        ctx.model("Dir", "Dir_big", workers=8)
    T = ctx.tools_fault()
    inputs = make_inputs(ctx, rng)

    # what each run writes, and through how many operations
    def ref(k):
        name, s = k
        tool, args = CASES[name]
        d = ctx.fresh("ref")
        out = os.path.join(d, "o")
        r, L = FL.run([os.path.join(T, tool), "-r", "0", "-o", out] + [a.replace("in/", inputs + "/", 1).format(s=s) for a in args], out, d)
        if r.rc != 0:
            raise vf.ToolFailed("%s: %s" % (name, r.brief()))
        x = (TL.digest(out), len(L.ops))
        shutil.rmtree(d)
        return x

    keys = [(n, s) for n in CASES for s in ("none", "small", "big")]
    refs = dict(zip(keys, ctx.pmap(ref, keys)))
    hist, _ = ctx.scenarios("DirScen", "DirScen")
    long = [h for h in hist if len(h) == 3]
    short = [h for h in hist if len(h) < 3]
    jobs = [(rng.choice(short), n, rng.randrange(1 << 60)) for n in list(CASES) * ctx.pick(2, 10)]
    # one output, again and again, by one tool
    jobs += [([["a", "big", w], ["a", rng.choice(["none", "small"]), "ok"]], n, rng.randrange(1 << 60)) for n in CASES for w in ("ok", "early", "late", "late")]
    if ctx.quick:
        jobs += [(rng.choice(long), rng.choice(list(CASES) + [None]), rng.randrange(1 << 60)) for _ in range(40)]
    else:
        jobs += [(h, n, rng.randrange(1 << 60)) for h in hist for n in rng.sample(list(CASES), 4) + [None]]
    jobs += [(None, n, rng.randrange(1 << 60)) for n in list(CASES) + list(READERS) for _ in range(ctx.pick(1, 6))]
    rng.shuffle(jobs)

    def one(h, name, seed):
        rg = vf.random.Random(seed)
        R = Root(ctx, rg, inputs, ["a", "b"])
        evs, did = [{"ev": "begin", "files": snapshot(R.dir)}], []

        def step(cmd, outs, must, env=None):
            r = R.run(T, cmd, env)
            if r.timeout:
                raise vf.ToolFailed("%s hangs" % cmd)
            evs.append({"ev": "run", "rc": 0 if r.rc == 0 else 1, "must": must, "slack": "err" in str(env) or "stick" in str(env), "outs": outs, "after": snapshot(R.dir)})
            did.append("%s %s -> %d" % (" ".join(x.replace(R.dir, "") for x in cmd), (env or {}).get("VFAULT", ""), r.rc))

        def writer(n, s, o, when):
            tool, args = CASES[n]
            dg, ops = refs[(n, s)]
            env = None
            if when != "ok":
                a, b = (1, max(2, ops // 2)) if when == "early" else (max(1, ops // 2), ops + 1)
                env = {"VFAULT": "%d:%s" % (rg.randrange(a, b), rg.choice(["kill", "kill", "mid", "err:28", "err:5", "stick:28"]))}
            path = rg.choice([os.path.join(R.dir, "out", o), "../out/" + o])
            step([tool, "-r", "0", "-o", path] + fill(args, s, R.dir) + ["-w", str(rg.choice([1, 2, 4]))], [["out/" + o, dg]], when == "ok", env)

        if h is not None:
            for o, s, when in h:
                writer(name or rg.choice(list(CASES)), s, o, when)
        else:
            # other ends: inputs which are damaged or missing, profiles, tools which write nothing
            s = rg.choice(["none", "small", "big"])
            if name in READERS:
                step([name] + fill(READERS[name], s, R.dir), [], True)
                args = READERS[name]
                tool, outs = name, []
            else:
                tool, args = CASES[name]
                outs = [["out/a", refs[(name, s)][0]]]
                step([tool, "-r", "0", "-o", R.dir + "/out/a", "--cpu-profile", R.dir + "/out/cpu", "--mem-profile", "../tmp/mem"] + fill(args, s, R.dir),
                     outs + [["out/cpu", ""], ["tmp/mem", ""]], True)
            cut = os.path.join(R.dir, fill([args[1]], s, R.dir)[0])
            data = open(cut, "rb").read()
            for bad in (data[:rg.randrange(1, len(data))], b"\x00\x00\x00\x05hello" + data, None):
                os.remove(cut)
                if bad is not None:
                    with open(cut, "wb") as f:
                        f.write(bad)
                evs.append({"ev": "touch", "files": snapshot(R.dir)})
                o = ["-r", "0", "-o", R.dir + "/out/b"] if outs else []
                if not (tool.startswith("dump") and bad is not None):
                    step([tool] + o + fill(args, s, R.dir), [["out/b", ""]] if outs else [], False)
                if bad is None:
                    break
            with open(cut, "wb") as f:
                f.write(data)
            evs.append({"ev": "touch", "files": snapshot(R.dir)})
            if outs:
                step([tool, "-r", "0", "-o", R.dir + "/out/b"] + fill(args, s, R.dir), [["out/b", outs[0][1]]], True)
        shutil.rmtree(R.dir)
        return evs, {"runs": did}

    def go(chunk):
        got = [one(*j) for j in chunk]
        bad, nev = vf.judge_parts(ctx, "DirTrace", [g[0] for g in got], [{} for _ in got], [g[1] for g in got])
        return bad, nev, got[0][1], sum(len(g[1]["runs"]) for g in got)

    per = 16
    runs = 0
    for bad, nev, smp, n in ctx.pmap_proc(go, [jobs[i:i + per] for i in range(0, len(jobs), per)]):
        ctx.evaluations += nev
        runs += n
        ctx.sample(smp)
        for det, e in bad:
            ctx.violation("%s: what the run has left is wrong" % det["runs"][-1], {"case": det, "event": e})
    ctx.extra["histories"] = len(jobs)
    ctx.extra["runs"] = runs
    ctx.assumptions += ["the output is none of the inputs", "files which an interrupted run has left may be overwritten or removed by later runs"]
