"""C27: a tool with its display does the same as without, on every terminal, and leaves it as it was."""
import os
import random
import re
import shutil
import subprocess
import time

import gen
import osmpbf
import rewritelib
import uilib
import vf

ROWS = {"big": (24, 120), "small": (9, 64), "one": (1, 1)}
KEYS = {"other": [b"x", b"q", b"\r", b"\x1b", b"\x1b[A", b"\x02", b"\x1a", b"\xc3\xa9"], "sync": [b"\x0c"], "dump": [b"\x04"], "cancel": [b"\x03"]}
REFRESH = {"off": ["0"], "tiny": ["1ns", "1us", "10us"], "fast": ["3ms", "10ms", "25ms"], "never": ["1h"]}
VARY = re.compile(rb"\d+(\.\d+)?(ns|us|\xc2\xb5s|ms|s|m|h)\b|\b\d+\.\d+\b")


def report(b):
    return [x for x in VARY.sub(b"T", b).split(b"\n") if not re.match(rb"(hit|miss)\w+: |time: ", x)]


class World:
    def __init__(self, ctx):
        rng, self.T = ctx.rng, ctx.tools_fault()
        big = rewritelib.Big(ctx, blocks=18)
        self.limits = {n: m for m, n in big.limits.items() if m in (1, 2)}
        self.limits[1] = None
        d = self.d = ctx.fresh("world")
        os.rename(big.idx, d + "/big.nidx")
        blobs, wid, rid, nid = [gen.header(rng)], 1, 1, 1
        for b in range(80):
            ns, ws, rs = [], [], []
            for _ in range(20):
                lo, la = gen.lonlat(rng)
                ns.append({"id": nid, "lon": lo, "lat": la, "tags": [["k", "v%d" % nid]]})
                nid += 2
            for _ in range(10):
                ws.append({"id": wid, "refs": [rng.choice(big.ids) for _ in range(rng.choice([2, 5, 9]))], "tags": gen.tags(rng) + [["note", "x"]]})
                wid += 1
            for _ in range(5):
                rs.append({"id": rid, "members": [["m", rng.randrange(1, wid), 1] for _ in range(rng.choice([1, 3]))], "tags": gen.tags(rng)})
                rid += 1
            # every blob is larger than what is buffered anywhere
            ns[0]["tags"].append(["pad", "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789") for _ in range(24000))])
            blobs.append(gen.blob(rng, {"groups": [{"nodes": ns}, {"ways": ws}, {"rels": rs}]}))
        with open(d + "/in.pbf", "wb") as f:
            f.write(osmpbf.enc_file(blobs))
        for argv in (["rewritenodes", "-i", "in.pbf", "-x", "big.nidx", "-o", "loc.pbf"], ["wayindex", "-i", "loc.pbf", "-o", "ways.widx"]):
            r = vf.run([self.T + "/" + argv[0], "-r", "0"] + argv[1:], cwd=d, timeout=60)
            if r.rc:
                raise vf.ToolFailed("%s: %s" % (argv[0], r.brief()))
        self.ref = {}

    def argv(self, tool, parts, w):
        src = {"wayindex": "loc.pbf"}.get(tool, "in.pbf")
        a = [self.T + "/" + tool, "-i", src, "-o", "out", "-w", str(w)]
        if tool == "relindex":
            a += ["-x", "ways.widx"]
        if tool == "rewritenodes":
            a += ["-x", "big.nidx"] + (["-m", str(self.limits[parts])] if parts > 1 else [])
        return a

    def room(self, ctx):
        d = ctx.fresh("room")
        for f in ("in.pbf", "loc.pbf", "ways.widx", "big.nidx"):
            os.symlink(os.path.join(self.d, f), os.path.join(d, f))
        return d

    def files(self, tool, parts):
        return [{"wayindex": "loc.pbf"}.get(tool, "in.pbf")] + ["out.pass_%03d_%03d" % (i, parts) for i in range(1, parts)]

    def reference(self, ctx, tool, parts):
        """output, report and the operations in each part, without a display"""
        if (tool, parts) not in self.ref:
            d = self.room(ctx)
            r = vf.run(self.argv(tool, parts, 2) + ["-r", "0"], cwd=d, timeout=60, env={"VFAULT_LOG": d + "/log"})
            if r.rc:
                raise vf.ToolFailed("%s: %s" % (tool, r.brief()))
            ops = {}
            for x in open(d + "/log"):
                n, op, _, _, _, _, fn = x.rstrip("\n").split(" ", 6)
                fn = os.path.basename(fn)
                if op == "remove" and tool != "relindex":
                    continue
                m = re.match(r"out\.pass_(\d+)_\d+$", fn)
                part = None
                if tool == "relindex":
                    part = 1 if m and int(m.group(1)) == 0 else None
                elif tool == "rewritenodes":
                    part = int(m.group(1)) if m else parts
                else:
                    part = 1
                if part is not None and op in ("create", "write", "seek", "close"):
                    ops.setdefault(part, []).append((int(n), op))
            self.ref[tool, parts] = open(d + "/out", "rb").read(), report(r.out), ops
            shutil.rmtree(d)
        return self.ref[tool, parts]


def rows_of(t):
    rows = t.lines()
    while rows and not rows[-1]:
        rows.pop()
    return rows


NAMES = {"decompress": "Decompress", "tagfilter": "TagFilter", "nodeindex": "NodeIndex", "wayindex": "WayIndex", "relindex": "RelIndexInit", "rewritenodes": "RewriteNodes"}


def settled(rows, x, at, files, w):
    """whether it makes sense to stop waiting for the screen (the specification judges)"""
    p = 1 if x["tool"] == "rewritenodes" else 0
    if len(rows) < p + 2 or (p and not rows[0].startswith("Pass %d/" % at)):
        return False
    name = "[%s] Processing PBF %s: " % (NAMES[x["tool"]], files[at - 1])
    if not rows[p].startswith(name) or not all(r.startswith("Worker: ") for r in rows[p + 1:-1]) or not rows[-1].startswith("Writer: "):
        return False
    if rows[p].startswith((name + "loading", name + "sending")) and len(rows) - p - 2 != w:
        return False
    return True


def screen(s, x, at, files, secs=6):
    big = s.t.rows >= 9
    if not big:
        return None
    s.until(lambda: False, 0.15)
    s.until(lambda: settled(rows_of(s.t), x, at, files, x["w"]), secs)
    rows = rows_of(s.t)
    num = [re.search(r"\b(?:block|blob) (\d+)", r) for r in rows if r.startswith("Worker: ") and "waiting" not in r]
    wr = re.match(r"Writer: writing block (\d+)", rows[-1]) if rows and x["tool"] in ("decompress", "rewritenodes") else None
    return {"ev": "screen", "at": at, "rows": rows, "cols": s.t.cols, "blk": [int(m.group(1)) if m else -1 for m in num], "wblk": int(wr.group(1)) if wr else -1}


def outcome(ctx, W, x, d, ref, checkable):
    p = os.path.join(d, "out")
    if not os.path.exists(p):
        return "none"
    data = open(p, "rb").read()
    if data == ref:
        return "same"
    if x["tool"] in ("nodeindex", "wayindex"):
        r = vf.run([ctx.tools() + "/dump" + x["tool"], "-i", p], timeout=60)
        return "rejected" if r.rc else "other"
    if x["tool"] != "relindex":
        try:
            for _ in osmpbf.dec_frames(data):
                pass
        except Exception:
            return "other"
    return "prefix" if ref.startswith(data) else "other"


def session(ctx, W, x, seed):
    """-> events, detail"""
    rng = random.Random(seed)
    d = W.room(ctx)
    ref, rep, ops = W.reference(ctx, x["tool"], x["parts"])
    files = W.files(x["tool"], x["parts"])
    hold, at, op = None, x["hold"], None
    if at:
        o = ops[at]
        cancel = "cancel" in x["steps"]
        # a run to be cancelled has most of its input still to come
        i = rng.choice(range(0, max(1, min(len(o) // 4, 6)))) if cancel and x["tool"] not in ("nodeindex", "wayindex") else rng.choice([0, 1, 2, len(o) // 2, rng.randrange(len(o))])
        if cancel and x["tool"] in ("nodeindex", "wayindex"):
            i = min(i, 2)
        hold, op = o[min(i, len(o) - 1)]
    argv = W.argv(x["tool"], x["parts"], x["w"]) + ["-r", rng.choice(REFRESH[x["refresh"]])]
    evs = [{"ev": "start", "tool": x["tool"], "parts": x["parts"], "w": x["w"], "file": files}]
    det = {"session": x, "argv": argv, "hold": "before operation %s (%s)" % (hold, op) if hold else None}
    s = uilib.Session(argv, d, ROWS[x["size"]], hold=hold, deaf=bool(x["steps"]))
    late = False
    if not hold:
        s.until(lambda: s.t.alt, 5)
    elif not s.until(s.held, 20):
        at = 0
    if at and x["refresh"] == "fast":
        evs.append(screen(s, x, at, files))
    n = 0
    for st in x["steps"]:
        if s.p.poll() is not None:
            break
        if st in ("big", "small"):
            s.size(*(ROWS[st]))
            s.until(lambda: False, 0.05)
        elif not at:
            s.key(rng.choice(KEYS[st]))
            late = late or st == "cancel"
        else:
            # the screen is drawn anew when the key behind it is handled
            ok = False
            for _ in range(8):
                c = s.t.clears
                s.key(rng.choice(KEYS[st]))
                s.until(lambda: False, 0.06)
                s.key(KEYS["sync"][0])
                if s.until(lambda: s.t.clears > c, 1):
                    ok = True
                    break
            evs.append({"ev": "key", "key": st if ok else "lost"})
            if not ok:
                break
        if at and x["refresh"] == "fast":
            evs.append(screen(s, x, at, files))
    if hold:
        s.release()
    rc = s.finish(40)
    o = outcome(ctx, W, x, d, ref, True)
    evs.append({"ev": "late" if late else "end", "rc": 2 if s.timeout else 0 if rc == 0 else 1, "restored": s.restored(), "out": o, "report": report(s.report()) == rep})
    det.update({"rc": rc, "timeout": s.timeout, "restored": {"modes": s.after == s.before, "screen left": not s.t.alt, "cursor": s.t.cursor}, "out": o,
                "report": s.report()[-400:].decode("utf-8", "replace"), "stderr": s.err[:300].decode("utf-8", "replace")})
    shutil.rmtree(d)
    return [e for e in evs if e], det


def noterm(ctx, W, tool, how):
    d = W.room(ctx)
    ref = W.reference(ctx, tool, 1)[0]
    before = sorted(os.listdir(d))
    env = dict(os.environ, TERM="xterm" if how == "none" else "no-such-terminal")
    p = subprocess.Popen(["setsid"] + W.argv(tool, 1, 2), cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        out, err = p.communicate(timeout=40)
        rc = 0 if p.returncode == 0 else 1
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        rc = 2
    touched = [f for f in sorted(os.listdir(d)) if f not in before]
    o = outcome(ctx, W, {"tool": tool}, d, ref, True)
    shutil.rmtree(d)
    return ([{"ev": "noterm", "rc": rc, "err": bool(err), "touched": touched, "out": o}],
            {"tool": tool, "terminal": how, "rc": p.returncode, "touched": touched, "out": o, "stderr": err[:400].decode("utf-8", "replace")})


def check(ctx):
    ctx.model("Ui", "Ui_small", workers=4)
    ctx.model("Ui", "Ui_stuck", workers=4)
    if not ctx.quick:
        ctx.model("Ui", "Ui_big", workers=8, timeout=1500, heap="8g")
    ctx.refuted("Ui", ["Ui_bad_" + b for b in ("quitfirst", "nowait", "deaf", "anykey", "keep", "drop")])
    ctx.tools()
    W = World(ctx)
    all_, _ = ctx.scenarios("UiScen", "UiScen")
    ctx.extra["sessions_enumerated_by_tlc"] = len(all_)
    ctx.rng.shuffle(all_)
    seen, pick = {}, []
    for x in all_:
        keys = [(x["tool"], "p", x["parts"], x["hold"]), (x["tool"], "r", x["refresh"], x["size"])] + [(x["tool"], "s", bool(x["hold"]), q) for q in x["steps"]] + [(x["steps"][0], x["steps"][-1]) if x["steps"] else ()]
        if any(seen.get(k, 0) < ctx.pick(2, 10) for k in keys):
            pick.append(x)
            for k in keys:
                seen[k] = seen.get(k, 0) + 1
    for x in pick:
        W.reference(ctx, x["tool"], x["parts"])
    jobs = [("s", x, ctx.rng.random()) for x in pick]
    for tool in NAMES:
        jobs += [("n", tool, how) for how in ("none", "unknown")]

    def go(chunk):
        parts, confs, dets = [], [], []
        end, hung = time.time() + ctx.pick(150, 2400), 0
        for kind, x, y in chunk:
            # when every session hangs, a few of them will do
            if hung >= 2 or time.time() > end:
                break
            e, det = session(ctx, W, x, y) if kind == "s" else noterm(ctx, W, x, y)
            parts.append(e)
            confs.append({})
            dets.append(det)
            hung += det["rc"] is None or det["rc"] == -9
        return vf.judge_parts(ctx, "UiTrace", parts, confs, dets), len(parts)

    per = max(4, (len(jobs) + 15) // 16)
    for (bad, nev), done in ctx.pmap_proc(go, [jobs[i::(len(jobs) + per - 1) // per] for i in range((len(jobs) + per - 1) // per)]):
        ctx.evaluations += done
        ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + nev
        for det, e in bad:
            if "session" in det:
                what = "%s -r %s, stopped in part %d, keys %s: %s" % (det["session"]["tool"], det["argv"][-1], det["session"]["hold"], det["session"]["steps"], e and e.get("ev"))
            else:
                what = "%s without a terminal (%s)" % (det["tool"], det["terminal"])
            ctx.violation(what, {"detail": det, "event": e})
    ctx.sample({"session": pick[0]})
    ctx.assumptions += ["terminals are of the kind xterm", "parts of a run last until their lines have been asked for (Ui)", "cancelling rewritenodes or relindex between passes is open"]
