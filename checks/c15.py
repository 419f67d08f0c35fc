"""C15: an index whose build was interrupted is never accepted as complete."""
import json
import os
import shutil

import faultlib as FL
import gen
import osmpbf
import rewritelib
import toollib as TL
import vf


class Target:
    """one tool on one input, with an older and longer index of the same kind"""

    def __init__(self, ctx, label, kind, src, args, old, ids, T):
        self.label, self.kind, self.src, self.args, self.old, self.ids, self.T = label, kind, src, list(args), old, ids, T
        self.shift = int(args[args.index("-a") + 1]) if "-a" in args else 3
        d = ctx.fresh("target")
        self.ref = os.path.join(d, "ref")
        r, self.log = FL.run(self.cmd(self.ref), self.ref, d)
        if r.rc != 0:
            raise vf.ToolFailed("%s on %s: %s" % (kind, label, r.brief()))
        self.size = os.path.getsize(self.ref)

    def cmd(self, out, w=2):
        return [os.path.join(self.T, self.kind + "index"), "-r", "0", "-i", self.src, "-o", out, "-w", str(w)] + self.args

    def cancelcmd(self, drv, out, wait, w=2):
        return [drv, self.kind, self.src, out, str(w), str(self.shift), str(wait)]

    def points(self, rng, limit):
        """faults at every operation of the undisturbed run"""
        n = len(self.log.ops)
        out = [("none", None, None)]
        pts = []
        for i, o in enumerate(self.log.ops):
            k = i + 1
            pts.append(("kill", "%d:kill" % k, None))
            if o["op"] == "write" and o["arg"] > 16:
                pts.append(("kill", "%d:mid" % k, None))
            if o["op"] in ("write", "seek", "close", "create", "read"):
                pts.append(("error", "%d:err:%d" % (k, rng.choice([5, 28])), None))
            if o["op"] == "write" and o["arg"] > 16:
                pts.append(("error", "%d:short:28" % k, None))
                pts.append(("error", "%d:stick:28" % k, None))
            pts.append(("cancel", "%d:hook" % k, rng.choice([0, 0, 1, 5])))
        for _ in range(12):
            pts.append(("error", None, rng.randrange(0, self.size)))
        for f in (0, 1, 15, 16, 17, 24, 32, self.size - 1, self.size - 8):
            if 0 <= f < self.size:
                pts.append(("error", None, f))
        if len(pts) > limit:
            first = next((i + 1 for i, o in enumerate(self.log.ops) if o["op"] == "seek"), n)
            late = [p for p in pts if p[1] and int(p[1].split(":")[0]) >= first and p[0] in ("kill", "cancel")]
            late = rng.sample(late, min(len(late), limit // 2))
            rest = [p for p in pts if p not in late]
            pts = late + rng.sample(rest, limit - len(late))
        return out + pts


def lookup(ctx, drv, cases, d):
    """open and query the files the cases left -> list of event dicts"""
    cf, of = os.path.join(d, "look.in"), os.path.join(d, "look.out")
    res = {}
    todo = [(i, c) for i, c in enumerate(cases)]
    while todo:
        with open(cf, "w") as f:
            for i, (path, ids) in todo:
                f.write(json.dumps({"k": i, "idx": path, "passes": [1], "ids": ids, "hints": [0], "chains": []}) + "\n")
        if os.path.exists(of):
            os.remove(of)
        r = vf.run([drv, cf, of], timeout=600)
        evs = []
        if os.path.exists(of):
            for x in open(of):
                try:
                    evs.append(json.loads(x))
                except ValueError:
                    pass
        for e in evs:
            if e["ev"] == "refused":
                # an index which opens and then fails is not rejected when opened
                res[e["k"]] = {"ev": "broken", "why": e.get("why")} if e["k"] in res else {"ev": "refused", "why": e.get("why")}
            elif e["ev"] == "open":
                res[e["k"]] = {"ev": "opened"}
            elif e["ev"] == "pass":
                res[e["k"]] = {"ev": "open", "res": e["res"]}
        if evs and evs[-1]["ev"] == "end":
            break
        # the process died: on the first file which has no complete answer
        left = [(i, c) for i, c in todo if i not in res or res[i]["ev"] == "opened"]
        if not left:
            break
        res[left[0][0]] = {"ev": "broken", "why": r.err[-600:].decode("utf-8", "replace")}
        todo = left[1:]
    return [res.get(i, {"ev": "broken", "why": "no answer"}) for i in range(len(cases))]


def check(ctx):
    rng = ctx.rng
    ctx.model("IndexBuild", "IndexBuild_small", workers=2)
    ctx.refuted("IndexBuild", ["IndexBuild_bad_" + x for x in ("early", "open", "keep", "final", "torn")])
    if not ctx.quick:
        ctx.model("IndexBuild", "IndexBuild_big", workers=8)
    T = ctx.tools_fault()
    ib = ctx.driver("ibuild", overlay=ctx.fault_overlay())
    look = {"node": ctx.driver("nidx"), "way": ctx.driver("widx")}
    targets = []
    for i in range(ctx.pick(2, 8)):
        blobs = gen.planet(rng, nn=rng.choice([40, 300]), nw=rng.choice([12, 60]), nr=3)[0]
        w = TL.World(ctx, "planet %d" % i, blobs)
        o = TL.World(ctx, "old %d" % i, TL.skewed(rng, 12))
        nids = [n["id"] for b in blobs if b["type"] == "OSMData" for g in b["block"]["groups"] for n in g.get("nodes", [])]
        wids = [x["id"] for b in blobs if b["type"] == "OSMData" for g in b["block"]["groups"] for x in g.get("ways", [])]
        nq = sorted(set(rng.sample(nids, min(60, len(nids))) + nids[:2] + nids[-2:] + list(range(1, 60)) + [rng.randrange(1, 9000) for _ in range(30)]))
        wq = sorted(set(rng.sample(wids, min(60, len(wids))) + wids[:2] + wids[-2:] + list(range(1, 40)) + [rng.randrange(1, 5000) for _ in range(20)]))
        targets.append(Target(ctx, "nodeindex, " + w.label, "node", w.pbf, [], o.nidx, [str(x) for x in nq], T))
        for a in ([3, 0] if i else [3]):
            targets.append(Target(ctx, "wayindex -a %d, %s" % (a, w.label), "way", w.rew, ["-a", str(a)], o.widx, [str(x) for x in wq], T))
    for nm, blobs in (("no entities", [gen.header(rng)]), ("relations only", [gen.header(rng), gen.blob(rng, {"groups": [{"rels": [gen.rel(rng, 3, [[1], [2], [1]])]}]})])):
        p = os.path.join(os.path.dirname(targets[0].ref), nm.split()[0] + ".pbf")
        open(p, "wb").write(osmpbf.enc_file(blobs))
        for j, kind in enumerate(("node", "way")):
            targets.append(Target(ctx, "%sindex, %s" % (kind, nm), kind, p, [], targets[j].old, [str(x) for x in range(1, 50)], T))
    # several chunks of locations
    big = rewritelib.Big(ctx, blocks=ctx.pick(12, 24), per=ctx.pick(16384, 16384))
    wb = [gen.header(rng)]
    wid = 1
    for _ in range(8):
        ws = []
        for _ in range(40):
            ws.append({"id": wid, "refs": [-rng.randrange(1, 2**63) for _ in range(400)], "tags": []})
            wid += 1
        wb.append(gen.blob(rng, {"groups": [{"ways": ws}]}))
    bw = os.path.join(big.dir, "w.pbf")
    open(bw, "wb").write(osmpbf.enc_file(wb))
    nq = big.ids[:3] + big.ids[-3:] + rng.sample(big.ids, 60)
    targets.append(Target(ctx, "nodeindex, big", "node", big.pbf, [], targets[0].old, [str(x) for x in sorted(nq)], T))
    targets.append(Target(ctx, "wayindex, big", "way", bw, [], targets[1].old, [str(x) for x in range(1, 321, 7)], T))
    jobs = []
    for ti, t in enumerate(targets):
        pts = t.points(rng, ctx.pick(90, 100000) if "big" not in t.label else ctx.pick(50, 300))
        for old in (False, True):
            for c in range(0, len(pts), 60):
                jobs.append((ti, old, pts[c:c + 60]))

    def go(job):
        ti, old, pts = job
        t = targets[ti]
        d = ctx.fresh("b")
        od = FLcopy(t.old, os.path.join(d, "old")) if old else None
        parts, dets, confs, files = [], [], [], []
        base = lookup(ctx, look[t.kind], [(t.ref, t.ids)] + ([(od, t.ids)] if old else []), d)
        if any(b["ev"] != "open" for b in base):
            raise vf.ToolFailed("a complete index is not accepted: %s %s" % (t.label, base))
        for j, (how, fault, lim) in enumerate(pts):
            dd = os.path.join(d, "c%d" % j)
            os.makedirs(dd)
            out = os.path.join(dd, "out.idx")
            if old:
                shutil.copy(od, out)
            if how == "cancel":
                cmd, fs = t.cancelcmd(ib, out, lim), None
            else:
                cmd, fs = t.cmd(out), lim
            r, L = FL.run(cmd, out, dd, fault, fs)
            if r.timeout:
                raise vf.ToolFailed("%s hangs after %s" % (t.label, (how, fault, lim)))
            if how == "cancel" and (r.rc != 0 or b"finished" not in r.out):
                raise vf.ToolFailed("cancelled build fails: %s" % r.brief())
            n = os.path.getsize(out) if os.path.exists(out) else -1
            evs = [{"ev": "start", "old": os.path.getsize(od) if old else -1}] + L.ops
            evs.append({"ev": "end", "how": how, "rc": 0 if r.rc == 0 else 1})
            evs.append({"ev": "look", "len": n})
            parts.append(evs)
            confs.append({"new": base[0]["res"], "old": base[1]["res"] if old else []})
            dets.append({"tool": t.label, "stop": how, "fault": fault, "file size limit or wait": lim, "older index": old,
                         "operations": ["%s %s %s/%s %s" % (o["op"], o["f"], o["got"], o["arg"], "" if o["ok"] else "fails") for o in L.ops[-12:]],
                         "rc": r.rc, "bytes": n, "of": t.size})
            files.append((out, t.ids))
        for evs, det, e in zip(parts, dets, lookup(ctx, look[t.kind], files, d)):
            det["opened"] = e["ev"]
            det["why"] = str(e.get("why"))[:300]
            evs.append({"ev": e["ev"], "res": e["res"]} if e["ev"] == "open" else {"ev": e["ev"]})
        bad, nev = vf.judge_parts(ctx, "IndexBuildTrace", parts, confs, dets)
        vf.shutil.rmtree(d, ignore_errors=True)
        return bad, nev, len(pts), dets[1] if len(dets) > 1 else dets[0]

    for bad, nev, n, smp in ctx.pmap_proc(go, jobs):
        ctx.evaluations += n
        ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + nev
        ctx.sample(smp)
        for det, e in bad:
            ctx.violation("%s stopped by %s (%s): %s at event %s" % (det["tool"], det["stop"], det["fault"] or det["file size limit or wait"],
                                                                      {"open": "accepted with other answers", "broken": "accepted, then fails", "refused": "a complete build is refused"}.get(
                                                                          det["opened"], det["opened"]), e["ev"]), det)
    ctx.assumptions += ["a crash is a process crash: what write() accepted stays in the file",
                        "a write of up to 16 bytes (the header) is not torn by a crash"]


def FLcopy(a, b):
    shutil.copy(a, b)
    return b
