"""C16: a failed write never goes unnoticed."""
import os
import shutil

import faultlib as FL
import gen
import osmpbf
import rewritelib
import toollib as TL
import vf


class Target:
    def __init__(self, ctx, label, tool, args, T):
        self.label, self.tool, self.args, self.T = label, tool, list(args), T
        d = ctx.fresh("target")
        ref = os.path.join(d, "out")
        r, self.log = FL.run(self.cmd(ref), ref, d)
        if r.rc != 0:
            raise vf.ToolFailed("%s: %s" % (label, r.brief()))
        self.digest, self.size = TL.digest(ref), os.path.getsize(ref)
        self.files = sorted({o["f"] for o in self.log.ops})
        self.seconds = r.wall
        os.remove(ref)

    def cmd(self, out):
        return [os.path.join(self.T, self.tool), "-r", "0", "-o", out] + self.args

    def points(self, rng, limit):
        pts = []
        for i, o in enumerate(self.log.ops):
            k = i + 1
            if o["op"] == "remove":
                pts.append(("%d:err:1" % k, None))
                continue
            for e in rng.sample([5, 28, 122, 27, 9, 4095], 1):
                pts.append(("%d:err:%d" % (k, e), None))
            if o["op"] == "write" and o["arg"] > 1:
                pts.append(("%d:short:28" % k, None))
                pts.append(("%d:part" % k, None))
            pts.append(("%d:stick:%d" % (k, rng.choice([5, 28])), None))
        for _ in range(10):
            pts.append((None, rng.randrange(0, max(1, self.size))))
        for f in (0, 1, 15, 16, self.size - 1, self.size - 8, self.size):
            if f >= 0:
                pts.append((None, f))
        if len(pts) > limit:
            # the last operation on each file is the easiest to overlook
            last = {}
            for i, o in enumerate(self.log.ops):
                if o["op"] != "remove":
                    last[(o["f"], o["op"])] = i + 1
            must = [p for p in pts if p[0] and int(p[0].split(":")[0]) in last.values()]
            must = rng.sample(must, min(len(must), limit * 2 // 3))
            pts = must + rng.sample([p for p in pts if p not in must], limit - len(must))
        # files and directories in the way
        pts += [("block", f) for f in self.files] + [("nodir", None), ("none", None)]
        return pts


def targets(ctx, T):
    rng = ctx.rng
    out = []
    for i in range(ctx.pick(2, 6)):
        blobs = gen.planet(rng, nn=rng.choice([40, 200]), nw=rng.choice([12, 40]), nr=rng.choice([5, 20]))[0] if i % 2 == 0 else TL.skewed(rng, 5)
        w = TL.World(ctx, "planet %d" % i, blobs)
        for g, (tool, args, writes) in w.cases().items():
            if writes:
                out.append(Target(ctx, "%s, planet %d" % (g, i), tool, args + ["-w", str(rng.choice([1, 2, 4]))], T))
    # several passes of rewritenodes; several flushes of relindex; several chunks of nodeindex
    big = rewritelib.Big(ctx, blocks=12, per=16384)
    blobs, wid = [gen.header(rng)], 1
    for _ in range(3):
        ws = []
        for _ in range(30):
            ws.append({"id": wid, "refs": [rng.choice(big.ids) for _ in range(50)], "tags": []})
            wid += 1
        blobs.append(gen.blob(rng, {"groups": [{"ways": ws}]}))
    pbf = os.path.join(big.dir, "w.pbf")
    open(pbf, "wb").write(osmpbf.enc_file(blobs))
    out.append(Target(ctx, "rewritenodes -m 1", "rewritenodes", ["-i", pbf, "-x", big.idx, "-m", "1"], T))
    out.append(Target(ctx, "nodeindex, big", "nodeindex", ["-i", big.pbf], T))
    ws = [{"id": j + 1, "refs": [-rng.randrange(1, 2**63) for _ in range(2500)], "tags": []} for j in range(10)]
    rels = [{"id": j + 1, "tags": [], "members": [("", rng.randrange(1, 12), 1) for _ in range(60)]} for j in range(16)]
    p2, x2 = os.path.join(big.dir, "r.pbf"), os.path.join(big.dir, "r.widx")
    open(p2, "wb").write(osmpbf.enc_file([gen.header(rng)] + [gen.blob(rng, {"groups": [{"ways": ws[:5]}]}), gen.blob(rng, {"groups": [{"ways": ws[5:]}]}),
                                                               gen.blob(rng, {"groups": [{"rels": rels}]})]))
    r = vf.run([os.path.join(T, "wayindex"), "-r", "0", "-i", p2, "-o", x2])
    if r.rc != 0:
        raise vf.ToolFailed("wayindex: %s" % r.brief())
    out.append(Target(ctx, "relindex -p 2, big", "relindex", ["-i", p2, "-x", x2, "-p", "2"], T))
    return out


def check(ctx):
    rng = ctx.rng
    ctx.model("Output", "Output_small", workers=4, allow_dead=["NoFile"])
    ctx.refuted("Output", ["Output_bad_" + x for x in ("write", "short", "close", "mid", "create", "skip")])
    if not ctx.quick:
        ctx.model("Output", "Output_big", workers=8, allow_dead=["NoFile"])
    T = ctx.tools_fault()
    ts = targets(ctx, T)
    jobs = []
    for ti, t in enumerate(ts):
        slow = t.seconds > 0.03
        pts = t.points(rng, ctx.pick(30 if slow else 70, 300 if slow else 100000))
        for c in range(0, len(pts), 50):
            jobs.append((ti, pts[c:c + 50]))
    ctx.extra["runs_planned"] = sum(len(p) for _, p in jobs)

    def go(job):
        ti, pts = job
        t = ts[ti]
        d = ctx.fresh("o")
        parts, dets = [], []
        for j, (fault, lim) in enumerate(pts):
            dd = os.path.join(d, "c%d" % j)
            os.makedirs(dd)
            out = os.path.join(dd, "out")
            kind = "fault"
            if fault == "block":
                # a directory is where a file is to be created
                os.makedirs({"out": out, "loc": out + ".loc.tmp"}.get(lim, os.path.join(dd, lim)))
                f, fs = None, None
            elif fault == "nodir":
                out = os.path.join(dd, "no", "out")
                f, fs = None, None
            else:
                f, fs = fault if fault != "none" else None, lim
                kind = "none" if fault == "none" else "benign" if fault and fault.endswith("part") else "fault"
            r, L = FL.run(t.cmd(out), out, dd, f, fs)
            if r.timeout:
                raise vf.ToolFailed("%s hangs after fault %s %s" % (t.label, fault, lim))
            whole = os.path.isfile(out) and TL.digest(out) == t.digest
            parts.append([{"ev": "start", "fault": kind}] + L.ops + [{"ev": "end", "rc": 0 if r.rc == 0 else 1}, {"ev": "result", "whole": whole}])
            dets.append({"tool": t.label, "fault": fault, "limit or name": lim, "rc": r.rc, "output complete": whole,
                         "operations": ["%s %s %s/%s %s" % (o["op"], o["f"], o["got"], o["arg"], "" if o["ok"] else "fails") for o in L.ops[-12:]]})
            shutil.rmtree(dd)
        bad, nev = vf.judge_parts(ctx, "OutputTrace", parts, [{} for _ in parts], dets)
        shutil.rmtree(d, ignore_errors=True)
        return bad, nev, len(pts), dets[0]

    for bad, nev, n, smp in ctx.pmap_proc(go, jobs):
        ctx.evaluations += n
        ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + nev
        ctx.sample(smp)
        for det, e in bad:
            ctx.violation("%s, fault %s %s: %s" % (det["tool"], det["fault"], det["limit or name"],
                                                  "ends with status %d although an operation failed" % det["rc"] if e["ev"] == "end" and det["rc"] == 0
                                                  else "fails without a fault" if e["ev"] == "end" else "status 0 with an incomplete output"), det)
    ctx.assumptions += ["failures are injected at the system call layer of the Go standard library (create, open, write, read back, seek, close) and as a limit on file sizes"]
