"""Engine of C05: files -> real nodeindex -> real rewritenodes -> RewriteTrace."""
import json
import os

import doc
import gen
import nidxlib
import osmpbf
import vf


class Big:
    """a node index of several MB, so that small memory limits mean several passes"""

    def __init__(self, ctx, blocks=41, per=8192):
        rng = ctx.rng
        self.ids, blobs = [], [gen.header(rng)]
        bases = [1, 2**24 + 1, 2**31 - 9001, 2**32 - 9001, 2**33 + 1, 2**40 + 1]
        base = 1
        self.at = {}
        for b in range(blocks):
            if b % 7 == 0:
                base = bases[b // 7 % len(bases)]
            part = list(range(base, base + 2 * per, 2))
            base += 2 * per + 2 * (b % 3)
            ns = []
            for i in part:
                j = len(self.ids)
                lo, la = (j * 7907 * 463) % 3600000001 - 1800000000, (j * 104729 * 17) % 1800000001 - 900000000
                self.ids.append(i)
                self.at[i] = (lo, lo, la, la)
                ns.append({"id": i, "lon": lo, "lat": la})
            blobs.append({"type": "OSMData", "comp": "raw", "block": {"groups": [{"nodes": ns}]}})
        self.dir = ctx.fresh("big")
        self.pbf, self.idx = os.path.join(self.dir, "big.pbf"), os.path.join(self.dir, "big.idx")
        with open(self.pbf, "wb") as f:
            f.write(osmpbf.enc_file(blobs))
        r = vf.run([os.path.join(ctx.tools(), "nodeindex"), "-r", "0", "-i", self.pbf, "-o", self.idx], timeout=300)
        if r.rc != 0:
            raise vf.ToolFailed("nodeindex failed: %s" % r.brief())
        # memory limit in MB -> number of passes it is meant to give
        locs = blocks * (2 * per - 1)
        self.limits = {m: locs * 8 // (m * 1048576) + 1 for m in range(1, 9)}

    def region(self, p, n):
        """ids in the middle of share p of n"""
        a, b = int(len(self.ids) * (p + 0.3) / n), int(len(self.ids) * (p + 0.7) / n)
        return self.ids[a:b]


class Scen:
    def __init__(self, label, blobs, idx=None, at=None, runs=((None, 2),), pbf=None):
        self.label, self.blobs, self.idx, self.runs = label, blobs, idx, list(runs)
        self.at = at


def table(blobs):
    return {p[0]: p[1:] for p in nidxlib.positions([b["block"] for b in blobs if b["type"] == "OSMData"])}


def blob_in(V, b):
    if b["type"] != "OSMData":
        return {"t": 1, "h": V.s(osmpbf.enc_header() if "payload" not in b else b["payload"]), "e": []}
    return {"t": 2, "h": 0, "e": doc.entities(V, b["block"], lambda rs: [V.i(r) for r in rs])}


def wref(rs):
    return [doc.limbs(r) for r in rs]


def blob_out(V, d):
    typ, payload, block, _ = d
    if typ != "OSMData":
        return {"t": 1, "h": V.s(payload), "e": []}
    return {"t": 2, "h": 0, "e": doc.entities(V, block, wref)}


def events_of(V, k, label, rc, ins, outs, ev="run"):
    """the events of one run: outs is a list of decoded blobs or an error text"""
    evs = [{"ev": ev, "k": k, "rc": rc, "nin": len(ins), "nout": len(outs) if isinstance(outs, list) else -1}]
    if isinstance(outs, list) and rc == 0 and len(outs) == len(ins):
        for a, d in zip(ins, outs):
            b = blob_out(V, d)
            evs.append({"ev": "blob", "k": k, "tin": a["t"], "tout": b["t"], "hin": a["h"], "hout": b["h"],
                        "in": a["e"], "out": b["e"]})
        evs.append({"ev": "endrun", "k": k})
    return evs


def run_scen(ctx, s, k, d):
    """-> events, conf line, detail"""
    rng = s.rng
    pbf = os.path.join(d, "in.pbf")
    with open(pbf, "wb") as f:
        f.write(osmpbf.enc_file(s.blobs, rng=rng))
    idx, at = s.idx, s.at
    detail = {"label": s.label, "blobs": [b["type"] if b["type"] != "OSMData" else
                                          [{kk: len(v) if isinstance(v, list) else v for kk, v in g.items()} for g in b["block"]["groups"]]
                                          for b in s.blobs][:40], "runs": []}
    if idx is None:
        idx = os.path.join(d, "in.idx")
        at = table(s.blobs)
        r = vf.run([os.path.join(ctx.tools(), "nodeindex"), "-r", "0", "-i", pbf, "-o", idx], timeout=300)
        if r.rc != 0:
            raise vf.ToolFailed("nodeindex failed on %s: %s" % (s.label, r.brief()))
    V = doc.Values()
    ins = [blob_in(V, b) for b in s.blobs]
    evs = []
    for mem, w in s.runs:
        out = os.path.join(d, "out.pbf")
        cmd = [os.path.join(ctx.tools(), "rewritenodes"), "-r", "0", "-i", pbf, "-x", idx, "-o", out, "-w", str(w)]
        if mem is not None:
            cmd += ["-m", str(mem)]
        r = vf.run(cmd, timeout=300)
        why = None
        try:
            outs = doc.decode(open(out, "rb").read()) if r.rc == 0 else []
        except (osmpbf.DecodeError, OSError) as e:
            outs = why = "undecodable output: %s" % e
        detail["runs"].append({"memory": mem, "workers": w, "rc": r.rc, "decode": why, "tool": None if r.rc == 0 else r.brief()})
        e = events_of(V, k, s.label, 0 if r.rc == 0 else 1, ins, outs)
        e[0]["run"] = len(detail["runs"]) - 1
        evs += e
        if os.path.exists(out):
            os.remove(out)
    conf = {"ids": [{"w": doc.limbs(v), "at": list(at.get(v, ()))} for v in V.i.d]}
    return evs, conf, detail


def judge(ctx, scens, per=12):
    ctx.tools()
    n = max(1, (len(scens) + per - 1) // per)
    chunks = [scens[i::n] for i in range(n)]

    def go(chunk):
        evs, confs, dets = [], [], []
        for s in chunk:
            d = ctx.fresh("rw")
            e, c, t = run_scen(ctx, s, len(confs) + 1, d)
            vf.shutil.rmtree(d)
            evs.append(e)
            confs.append(c)
            dets.append(t)
        return vf.judge_parts(ctx, "RewriteTrace", evs, confs, dets)

    for bad, nev in ctx.pmap_proc(go, chunks):
        ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + nev
        for det, e in bad:
            ctx.violation("%s: event %s rejected" % (det["label"], e["ev"]), {"file": det, "event": brief(e)})
    ctx.evaluations += sum(len(s.runs) for s in scens)


def brief(e):
    s = json.dumps(e)
    return e if len(s) < 4000 else s[:4000]
