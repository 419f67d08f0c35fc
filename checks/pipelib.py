"""Engine of C01/C02: schedules from PipelineSched -> real ProcessFileAsync -> PipelineTrace."""
import json
import os
import struct
import zlib

import osmpbf
import vf


def mkfile(ctx, rng, n, name, sizes=None, headers=True, hdr_pad=False):
    """an arbitrary sequence of n blobs; the pipeline does not look inside"""
    blobs, info = [], []
    for i in range(n):
        if headers and (i == 0 or rng.random() < 0.05):
            t = "OSMHeader"
        else:
            t = "OSMData"
        sz = sizes(i) if sizes else rng.choice([0, 1, 2, 7, 30, 200, 4096, 9000])
        data = rng.randbytes(sz)
        bh = osmpbf.fb(1, t.encode()) + osmpbf.fv(3, len(data))
        blobs.append(struct.pack(">I", len(bh)) + bh + data)
        info.append({"t": t, "n": len(data), "c": zlib.crc32(data)})
    p = ctx.path(name)
    raw = b"".join(blobs)
    with open(p, "wb") as f:
        f.write(raw)
    return {"file": p, "blocks": info, "size": len(raw)}


def execute(ctx, runs, label, per_proc=40, timeout=300, exe=None):
    """run all, validate all; returns nothing, records violations"""
    drv = exe or ctx.driver("pipe")
    chunks = [runs[i:i + per_proc] for i in range(0, len(runs), per_proc)]

    def go(chunk):
        d = ctx.fresh("pipe")
        cf, of = os.path.join(d, "c"), os.path.join(d, "o")
        with open(cf, "w") as f:
            for i, r in enumerate(chunk):
                r = dict(r)
                r["run"] = i + 1
                r.setdefault("hangms", 20000)
                f.write(json.dumps(r) + "\n")
        res = vf.run([drv, cf, of], timeout=timeout)
        evs = []
        if os.path.exists(of):
            for line in open(of):
                try:
                    evs.append(json.loads(line))
                except ValueError:
                    break
        ended = bool(evs) and evs[-1]["ev"] == "end"
        if ended:
            evs = evs[:-1]
        elif not (evs and evs[-1]["ev"] == "hang"):
            if not evs and res.rc not in (2, -6, -11, 134, 139):
                raise vf.ToolFailed("driver pipe failed: %r" % res.brief())
            evs.append({"ev": "crash", "run": evs[-1]["run"] if evs else 0})
        conf = [{"b": len(r["blocks"]), "w": r["w"], "nilwriter": bool(r.get("nilwriter")), "size": r["size"]}
                for r in chunk]
        return chunk, evs, conf, res

    results = ctx.pmap(go, chunks)

    def validate(res):
        chunk, evs, conf, pr = res
        start = 0
        bad = []
        offset = 0
        while True:
            # consts are indexed by run number, so renumber from `offset`
            part = evs[start:]
            if not part:
                break
            sub = [dict(e, run=e["run"] - offset) if "run" in e else e for e in part]
            k = ctx.trace("PipelineTrace", "PipelineTrace", sub, consts=conf[offset:])
            if k is None:
                break
            e = part[min(k, len(part) - 1)]
            rn = e.get("run", 0)
            cfg = chunk[rn - 1] if 0 < rn <= len(chunk) else None
            bad.append((cfg, e, part[:k + 1][-30:], pr))
            nxt = next((j for j in range(start + k + 1, len(evs)) if evs[j]["ev"] == "start"), None)
            if nxt is None or len(bad) >= 3:
                break
            offset = evs[nxt]["run"] - 1
            start = nxt
        return bad, len(evs)

    for bad, n in ctx.pmap(validate, results):
        ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + n
        for cfg, e, tail, pr in bad:
            small = {k: v for k, v in (cfg or {}).items() if k not in ("blocks",)}
            ctx.violation("%s: the contract does not allow %s%s" %
                          (label, e["ev"], " (%s)" % e["why"] if e.get("why") else ""),
                          {"run": small, "rejected_event": e, "events_before": tail,
                           "driver_stderr": pr.err[-1500:].decode("utf-8", "replace") if e["ev"] == "crash" else ""})
    ctx.evaluations += len(runs)


def schedules(ctx, cfg, num=None, depth=400, seed=1, b=None, w=None):
    args = []
    if num:
        args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
    s, r = ctx.scenarios("PipelineSched", cfg, args=args)
    # a simulation may print the same terminal state several times
    seen, out = set(), []
    for x in s:
        key = json.dumps(x, sort_keys=True)
        if key not in seen:
            seen.add(key)
            out.append(x)
    return out
