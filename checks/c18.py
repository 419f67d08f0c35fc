"""C18: the progress display shows the workers which run, and their last states."""
import base64
import json
import os
import re

import gen
import osmpbf
import vf

TOOLS = ["decompress", "nodeindex", "wayindex", "relindex", "rewritenodes", "tagfilter"]
# operations on the lines' states; the meaning of each is in StateLine.tla
OPS = {
    "decompress.worker": ["decoding", "waiting", "decompressing", "encoding", "sending"],
    "decompress.writer": ["writing", "waiting"],
    "nodeindex.worker": ["decoding", "waiting", "processing", "sending"],
    "nodeindex.writer": ["index", "copying", "advance", "waiting", "locations", "finalizing"],
    "wayindex.worker": ["decoding", "waiting", "processing", "sending"],
    "wayindex.writer": ["index", "copying", "advance", "waiting", "locations", "finalizing"],
    "relindex.worker": ["decoding", "waiting", "processing", "sending"],
    "relindex.writer": ["index", "waiting"],
    "rewritenodes.worker": ["decoding", "working", "next", "waiting", "sending"],
    "rewritenodes.writer": ["writing", "waiting"],
    "tagfilter.worker": ["decoding", "keep", "drop", "waiting", "processing", "encoding", "sending"],
    "tagfilter.writer": ["writing", "filler", "waiting"],
}
N = r"(\d+)"
KD = r"(?:, (?P<a>\d+) kept, (?P<b>\d+) dropped)?"
PATS = [(re.compile(p + "$"), st) for p, st in [
    (r"Worker: waiting for block", "waiting"),
    (r"Worker: decoding (?:block|blob) (?P<blk>\d+)" + KD, "decoding"),
    (r"Worker: decompressing blob (?P<blk>\d+)", "decompressing"),
    (r"Worker: processing block (?P<blk>\d+)" + KD, "processing"),
    (r"Worker: encoding (?:block|blob) (?P<blk>\d+)" + KD, "encoding"),
    (r"Worker: sending block (?P<blk>\d+)" + KD, "sending"),
    (r"Worker: working on block (?P<blk>\d+), way (?P<a>\d+)/(?P<b>\d+)", "working"),
    (r"Writer: waiting for block(?:, dropped (?P<a>\d+)/(?P<blk>\d+) blocks)?", "waiting"),
    (r"Writer: writing block (?P<blk>\d+)", "writing"),
    (r"Writer: writing block, dropped (?P<a>\d+)/(?P<blk>\d+) blocks", "writing"),
    (r"Writer: writing index block (?P<blk>\d+)", "index"),
    (r"Writer: writing locations", "locations"),
    (r"Writer: copying locations \((?P<a>\d+)/(?P<b>\d+)\) .*%", "copying"),
    (r"Writer: finalizing index", "finalizing"),
]]


def seen(text):
    """what a line says"""
    for rx, st in PATS:
        m = rx.match(text.rstrip())
        if m:
            d = {"st": st}
            d.update({k: min(int(v), 2**31 - 1) for k, v in m.groupdict().items() if v is not None})
            return d
    return {"st": "?" + text[:100]}


def drive(ctx, exe, jobs, env=None):
    """-> events of each job"""
    d = ctx.fresh("ui")
    i, o = os.path.join(d, "in"), os.path.join(d, "out")
    with open(i, "w") as f:
        for k, j in enumerate(jobs):
            j["k"] = k
            f.write(json.dumps(j) + "\n")
    r = vf.run([exe, i, o], timeout=600, env=env)
    if r.rc != 0:
        if b"panic" in r.err or b"fatal error" in r.err:
            raise vf.ToolFailed("the display panics: %s" % r.err[:1500].decode("utf-8", "replace"))
        raise vf.CheckError("uidrv: %s" % r.brief())
    evs = [[] for _ in jobs]
    for ln in open(o):
        e = json.loads(ln)
        if "text" in e:
            e["seen"] = seen(e["text"])
        if "texts" in e:
            e["seen"] = [seen(t) for t in e["texts"]]
        evs[e["k"]].append(e)
    return evs, r


def judge(ctx, module, jobs, evs, what):
    def go(rng):
        a, b = rng
        strip = [[{k: v for k, v in e.items() if k not in ("text", "texts")} for e in p] for p in evs[a:b]]
        bad, nev = vf.judge_parts(ctx, module, strip, [{}] * (b - a), list(range(a, b)))
        return bad, nev
    n = len(jobs)
    per = max(1, (n + 7) // 8)
    for bad, nev in ctx.pmap_proc(go, [(a, min(n, a + per)) for a in range(0, n, per)]):
        ctx.evaluations += nev
        ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + nev
        for i, e in bad:
            ctx.violation("%s: %s" % (what(jobs[i]), {"hang": "does not end", "race": "unsynchronised access"}.get(e["ev"], "the display is wrong")),
                          {"job": jobs[i], "events": evs[i][:200], "rejected": e})
    ctx.sample({"job": jobs[n // 2], "events": evs[n // 2][-8:]})


def track(ctx, exe):
    scn, _ = ctx.scenarios("TrackerScen", ctx.pick("TrackerScen", "TrackerScen_big"), workers=4, heap="4g")
    rng = ctx.rng
    rng.shuffle(scn)
    jobs = [{"mode": "track", "tool": rng.choice(TOOLS), "workers": 2, "shows": 2, "sched": s} for s in scn[:ctx.pick(1900, 20000)]]
    # more workers, more refreshes, schedules at random
    for _ in range(ctx.pick(600, 8000)):
        w = rng.choice([1, 3, 4, 6])
        ps = [chr(97 + i) for i in range(w)] + ["r"] * rng.choice([1, 2])
        s = []
        while len(s) < 16 * w:
            s += [rng.choice(ps)] * rng.choice([1, 1, 1, 2, 3, 6])
        jobs.append({"mode": "track", "tool": rng.choice(TOOLS), "workers": w, "shows": rng.choice([1, 3, 5]), "sched": s})
    evs, _ = drive(ctx, exe, jobs)
    ctx.extra["schedules_of_workers_and_display"] = len(jobs)
    judge(ctx, "TrackerTrace", jobs, evs, lambda j: "%s: workers and display in the order %s" % (j["tool"], "".join(j["sched"])))


def lines(ctx, exe):
    scn, _ = ctx.scenarios("LineScen", ctx.pick("LineScen", "LineScen_big"), workers=4, heap="4g")
    rng = ctx.rng
    jobs = []
    for line, ops in OPS.items():
        for s in rng.sample(scn, ctx.pick(220, 1500)):
            prog = []
            for i in range(rng.choice([2, 3, 4])):
                o = rng.choice(ops if rng.random() < 0.5 else ops[:3])
                prog.append({"op": o, "arg": 1 if o in ("next", "filler") else rng.choice([1, 2, 3, rng.randrange(1, 2**31)]) if o not in ("advance", "keep", "drop")
                             else rng.choice([1, 2, rng.randrange(1, 2**28)])})
            jobs.append({"mode": "line", "tool": line, "shows": rng.choice([1, 2]), "sched": s, "ops": prog})
    evs, _ = drive(ctx, exe, jobs)
    ctx.extra["schedules_of_lines"] = len(jobs)
    judge(ctx, "StateLineTrace", jobs, evs, lambda j: "line of %s after %s" % (j["tool"], [(o["op"], o["arg"]) for o in j["ops"]]))


def workers(ctx, exe):
    """the real workers of every tool, held where they hand on a block"""
    rng = ctx.rng
    jobs, marks = [], []
    for tool in TOOLS:
        for _ in range(ctx.pick(8, 60)):
            n = rng.choice([1, 2, 3, 5])
            steps, held, fed, keep, drop, blobs = ["look"], 0, 0, [], [], []
            for _ in range(rng.choice([2, 5, 9])):
                if held < n and (held == 0 or rng.random() < 0.6):
                    k, d = rng.randrange(0, 4), rng.randrange(0, 4)
                    nodes = [{"id": 10 * fed + i, "lon": 5, "lat": 7, "tags": [("a", "b")] if i < k else [("note", "x")]} for i in range(k + d)]
                    blobs.append(base64.b64encode(osmpbf.enc_blob(osmpbf.enc_block({"groups": [{"nodes": nodes}]}))).decode())
                    keep.append(k)
                    drop.append(d)
                    held += 1
                    fed += 1
                    steps.append("feed")
                else:
                    held -= 1
                    steps.append("take")
                if rng.random() < 0.6:
                    steps.append("look")
            steps += ["look", "end", "look"]
            jobs.append({"mode": "pipe", "tool": tool, "workers": n, "steps": steps, "blobs": blobs})
            marks.append((keep, drop))
    evs, _ = drive(ctx, exe, jobs)
    for p, (keep, drop) in zip(evs, marks):
        for e in p:
            if e["ev"] == "begin":
                e["keep"], e["drop"] = keep, drop
    ctx.extra["runs_of_real_workers"] = len(jobs)
    judge(ctx, "StateLineTrace", jobs, evs, lambda j: "%s with %d workers: %s" % (j["tool"], j["workers"], " ".join(j["steps"])))


def races(ctx):
    """the steps of the model must be atomic in the code: the race detector is the recorder"""
    try:
        exe = ctx.driver("uidrv", overlay=ctx.atomic_overlay([]) | shims(), race=True)
    except vf.CheckError as e:
        if "race" in str(e) or "cgo" in str(e):
            ctx.extra["race_detector"] = "not available"
            return
        raise
    jobs = [{"mode": "free", "tool": t, "workers": 6, "seed": ctx.rng.randrange(1 << 30), "ms": ctx.pick(150, 2000)} for t in TOOLS]
    jobs += [{"mode": "pipe", "tool": t, "workers": 3, "steps": ["look", "end", "look"], "blobs": []} for t in TOOLS]
    evs, r = drive(ctx, exe, jobs, env={"GORACE": "halt_on_error=0 exitcode=0"})
    for rep in r.err.split(b"WARNING: DATA RACE")[1:]:
        rep = rep.split(b"==================")[0]
        if b"/internal/tracker" in rep or re.search(rb"/(state|widget)\.", rep):
            evs[0].append({"ev": "race", "k": 0})
            jobs[0]["report"] = rep[:3000].decode("utf-8", "replace")
            break
    ctx.extra["free_runs_under_race_detector"] = len(jobs)
    for e in evs[len(TOOLS):]:
        for x in e:
            if x["ev"] == "begin":
                x["keep"], x["drop"] = [], []
    judge(ctx, "TrackerTrace", jobs[:len(TOOLS)], evs[:len(TOOLS)], lambda j: "%s: workers come and go freely" % j["tool"])
    judge(ctx, "StateLineTrace", jobs[len(TOOLS):], evs[len(TOOLS):], lambda j: "%s: workers start and end" % j["tool"])


def shims():
    return {os.path.join(vf.REPO, "internal/zzverif/%s/%s.go" % (x, x)): os.path.join(vf.VERIF, "harness/%s/%s.go" % (x, x)) for x in ("vatomic", "vsync")}


def check(ctx):
    for c in ("small", "tag", "copy"):
        ctx.model("StateLine", "StateLine_" + c, workers=4)
    ctx.model("Tracker", "Tracker_small", workers=4)
    ctx.refuted("Tracker", ["Tracker_bad_first", "Tracker_bad_late", "Tracker_bad_nolock", "Tracker_bad_noinc"])
    ctx.refuted("StateLine", ["StateLine_bad_state", "StateLine_bad_values"])
    if not ctx.quick:
        ctx.model("Tracker", "Tracker_big", workers=8, timeout=1200, heap="8g")
        ctx.model("StateLine", "StateLine_big", workers=8, timeout=1200, heap="8g")
    exe = ctx.driver("uidrv", overlay=ctx.atomic_overlay(["internal/tracker", "cmd"], mutex=True))
    track(ctx, exe)
    lines(ctx, exe)
    workers(ctx, exe)
    races(ctx)
    ctx.assumptions += ["one display refreshes a list (as in the tools)", "a worker enters the list once"]
