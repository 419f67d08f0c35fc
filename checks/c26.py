"""C26: a command line is carried out as it says, or refused before anything is touched."""
import gzip
import hashlib
import json
import os
import random
import re

import gen
import osmpbf
import toollib
import vf

LONG = {"i": "input-file", "o": "output-file", "w": "workers", "r": "refresh", "a": "alignment", "e": "entity-id", "m": "memory", "t": "timing",
        "mt": "max-threads", "cp": "cpu-profile", "mp": "mem-profile", "mr": "mem-profile-rate",
        "si": "sub-index-index", "sc": "sub-index-count", "se": "start-element", "ee": "end-element", "s": "search-index"}
HUGE = ["99999999999999999999", "9223372036854775808"]
VALUES = {
    "w": {"a": ["1", "2"], "b": ["3", "8"], "zero": ["0"], "neg": ["-1", "-4"], "junk": ["x", "1.5", "", "2x"], "huge": HUGE},
    "p": {"a": ["1"], "b": ["3"], "zero": ["0"], "neg": ["-1", "-4"], "junk": ["x", "1.5", "", "2x"], "huge": HUGE},
    "a": {"zero": ["0"], "a": ["2"], "b": ["5"], "default": ["3"], "neg": ["-1", "-3"], "big": ["64", "1000"], "junk": ["x", "", "3.0"], "huge": HUGE},
    "m": {"a": ["1"], "b": ["2", "17592186044416", "18446744073709551615"], "zero": ["0"], "neg": ["-1"], "junk": ["x", "", "1.5", "1G"]},
    "t": {"a": ["2.5"], "b": ["10", "1.0001", "inf"], "low": ["1", "0.5", "0", "-1", "nan"], "junk": ["x", "", "1,5"]},
    "r": {"zero": ["0", "0s", "0ms"], "neg": ["-1s", "-100ms"], "junk": ["5", "x", "", "1q"]},
    "mt": {"zero": ["0"], "a": ["1"], "b": ["2"], "junk": ["x", ""], "huge": HUGE},
    "mr": {"a": ["1"], "b": ["512"], "junk": ["x", ""]},
    "si": {"zero": ["0"], "a": ["1"], "b": ["2"], "neg": ["-1", "-5"], "junk": ["x", "", "0.5"]},
    "se": {"zero": ["0"], "a": ["1"], "b": ["2"], "junk": ["x", ""], "huge": HUGE},
    "cp": {"a": ["prof-cpu"]}, "mp": {"a": ["prof-mem"]},
    "o": {"a": ["out1"], "b": ["out2"]},
}
VALUES["sc"], VALUES["ee"] = VALUES["si"], VALUES["se"]
FLAGS = {("dumpnodeindex", "p"), ("dumpnodeindex", "s"), ("dumpwayindex", "p"), ("dumpwayindex", "s")}


def long(tool, o):
    if o == "p":
        return "passes" if tool == "relindex" else "print-locations"
    if o == "x":
        return "way-index" if tool == "relindex" else "index-file"
    return LONG[o]


class Files:
    def __init__(self, ctx):
        T = ctx.tools()
        self.d = d = ctx.fresh("cli")
        self.v = {}
        ids = []
        for c in "ab":
            rng = random.Random("%s%s" % (ctx.rng.random(), c))
            blobs, nids, wids, rids = gen.planet(rng, nn=60, nw=12, nr=5, odd=False)
            ids += [nids[3], wids[2]]
            p = os.path.join(d, c + ".pbf")
            open(p, "wb").write(osmpbf.enc_file(blobs))
            for op, args in (("nodeindex", ["-i", p, "-o", os.path.join(d, c + ".nidx")]),
                             ("rewritenodes", ["-i", p, "-x", os.path.join(d, c + ".nidx"), "-o", os.path.join(d, c + ".loc.pbf")]),
                             ("wayindex", ["-i", os.path.join(d, c + ".loc.pbf"), "-o", os.path.join(d, c + ".widx")])):
                r = vf.run([os.path.join(T, op), "-r", "0"] + args, timeout=60)
                if r.rc:
                    raise vf.ToolFailed("%s: %s" % (op, r.brief()))
        self.ids = ids

    def value(self, tool, o, c, rng):
        if o == "i":
            return [os.path.join(self.d, c + {"dumpnodeindex": ".nidx", "dumpwayindex": ".widx", "wayindex": ".loc.pbf"}.get(tool, ".pbf"))]
        if o == "x":
            return [os.path.join(self.d, c + (".widx" if tool == "relindex" else ".nidx"))]
        if o == "e":
            return {"a": [str(self.ids[0])], "b": [str(self.ids[1])], "zero": ["0"], "neg": ["-1"], "junk": ["x", "", "1.5"]}[c]
        return VALUES[o][c]

    def stamp(self):
        return [(f, os.stat(os.path.join(self.d, f)).st_mtime_ns, os.stat(os.path.join(self.d, f)).st_size) for f in sorted(os.listdir(self.d))]


ALIAS = "@@"        # marks a path by which an input is to be overwritten


def spell(F, tool, items, rng):
    """-> argv; None for a line which cannot be spelled"""
    last = {x[1]: x[2] for x in items if x[0] == "opt"}
    out, chosen = [], {}
    for j, x in enumerate(items):
        if x[0] == "pos":
            out.append(rng.choice(["extra", "a.pbf", "", "-"] if j == 0 or items[j - 1][0] != "bare" else ["extra"]))
        elif x[0] == "unknown":
            out.append(rng.choice(["-z", "--unknown", "--input", "--Workers=1", "-I", "--unknown=1"]))
        elif x[0] == "help":
            out.append(rng.choice(["-h", "--help"]))
        elif x[0] == "dash":
            out.append("--")
        elif x[0] == "bare":
            # what follows must not be taken for its value
            if j + 1 < len(items) and items[j + 1][0] == "pos":
                return None, None
            out.append(rng.choice(["--" + long(tool, x[1])] + (["-" + x[1]] if len(x[1]) == 1 else [])))
        else:
            o, c = x[1], x[2]
            if (tool, o) in FLAGS:
                names = ["--" + long(tool, o), "-" + o]
                out.append(rng.choice(names) + ("=" + rng.choice(["1", "x", "true"]) if c == "junk" else ""))
                continue
            if (o, c) == ("o", "in"):
                w = rng.choice([q for q in "ix" if q in last] or ["i"])
                v = F.value(tool, w, last.get(w, "a"), rng)[0]
                b, n = os.path.split(v)
                v = ALIAS + b + rng.choice(["/", "/./", "//", "/hard-", "/soft-"]) + n
            else:
                v = rng.choice(F.value(tool, o, c, rng))
            forms = [["--%s=%s" % (long(tool, o), v)], ["--" + long(tool, o), v]]
            if len(o) == 1:
                forms += [["-" + o, v], ["-%s=%s" % (o, v)]] + ([["-%s%s" % (o, v)]] if v else [])
            out += rng.choice(forms)
            chosen.setdefault(o, []).append(v)
    return out, chosen


def canonical(F, tool, eff, chosen, rng):
    """the plainest command line for these values (which of the strings of a class does not matter
    but for equal runs it is the same)"""
    out = []
    for o in sorted(eff):
        if (tool, o) in FLAGS:
            out += ["--" + long(tool, o)] if eff[o] else []
            continue
        for c in eff[o]:
            out.append("--%s=%s" % (long(tool, o), F.value(tool, o, c, rng)[0]))
    return out


DUR = re.compile(rb"\b(\d+(\.\d+)?(ns|us|\xc2\xb5s|ms|s|m|h))+|\b\d+\.\d+\b")


def result(r, files):
    # statistics of lookups depend on the schedule
    lines = b"\n".join(sorted(x for x in DUR.sub(b"T", r.out).split(b"\n") if not re.match(rb"(hit|miss)\w+: |time: ", x)))
    return hashlib.sha1(repr((r.rc, lines, sorted((n, "" if n.startswith("prof-") else h) for n, h in files.items()))).encode()).hexdigest()


def varint(b, i):
    v = s = 0
    while True:
        v |= (b[i] & 127) << s
        s += 7
        i += 1
        if b[i - 1] < 128:
            return v, i


def profile(path):
    """which rate a profile tells (its field 12), as a class of values of its option; -> "broken" if it is not one"""
    try:
        b = gzip.decompress(open(path, "rb").read())
        i, types, period = 0, 0, None
        while i < len(b):
            k, i = varint(b, i)
            if k & 7 == 0:
                v, i = varint(b, i)
                period = v if k >> 3 == 12 else period
            elif k & 7 == 2:
                n, i = varint(b, i)
                i += n
                types += k >> 3 == 1
            else:
                return "broken"
        return {1: "a", 512: "b", 512 * 1024: "default", 10000000: "cpu"}.get(period, "other") if i == len(b) and types else "broken"
    except FileNotFoundError:
        return "none"
    except Exception:
        return "broken"


def once(ctx, F, tool, argv):
    d = ctx.fresh("cl")
    mine = any(ALIAS in a for a in argv)
    if mine:
        # the output is one of the inputs: on a copy of them, some under a second name
        e = os.path.join(d, "in")
        os.mkdir(e)
        for n in os.listdir(F.d):
            vf.shutil.copy(os.path.join(F.d, n), e)
            os.link(os.path.join(e, n), os.path.join(e, "hard-" + n))
            os.symlink(n, os.path.join(e, "soft-" + n))
        argv = [a.replace(ALIAS, "").replace(F.d + "/", e + "/") for a in argv]
    old = {n: hashlib.sha1(b"old").hexdigest() for n in ("bystander",)}
    for n in old:
        open(os.path.join(d, n), "wb").write(b"old")
    r = vf.run([os.path.join(ctx.tools(), tool)] + argv, cwd=d, timeout=60)
    files = {}
    if mine:
        if any(open(os.path.join(d, "in", n), "rb").read() != open(os.path.join(F.d, n), "rb").read() for n in os.listdir(F.d)) \
                or len(os.listdir(os.path.join(d, "in"))) != 3 * len(os.listdir(F.d)):
            files["an input"] = "changed"
        vf.shutil.rmtree(os.path.join(d, "in"))
    r.prof = {"mem": profile(os.path.join(d, "prof-mem")), "cpu": profile(os.path.join(d, "prof-cpu"))}
    for n in os.listdir(d):
        p = os.path.join(d, n)
        files[n] = hashlib.sha1(open(p, "rb").read()).hexdigest() if os.path.isfile(p) else "?"
    vf.shutil.rmtree(d)
    touched = sorted(n for n in set(files) | set(old) if files.get(n) != old.get(n))
    return r, files, touched


def check(ctx):
    ctx.model("Cli", "Cli_small", workers=4)
    ctx.model("Cli", "Cli_two", workers=4)
    ctx.refuted("Cli", ["Cli_bad_" + b for b in ("first", "lenient", "eager", "overdefault", "swallow", "late", "unchecked")])
    if not ctx.quick:
        ctx.model("Cli", "Cli_big", workers=8, timeout=1200, heap="8g")
    ctx.tools()
    F = Files(ctx)
    sa, _ = ctx.scenarios("CliScen", "CliScen_a")
    sb, _ = ctx.scenarios("CliScen", "CliScen_b", heap="6g")
    ctx.extra["command_lines_enumerated_by_tlc"] = len(sa) + len(sb)
    pick = []
    # some of every tool and outcome, and of every option and class of its values
    for s, per in ((sa, ctx.pick(14, 400)), (sb, ctx.pick(6, 400))):
        ctx.rng.shuffle(s)
        seen = {}
        full = {}
        for x in s:
            full[x["tool"]] = max(full.get(x["tool"], 0), len(x["line"]) - 1)
        for x in s:
            keys = {(x["tool"], x["out"], tuple(i[:3])) for i in x["line"]}
            # options which have to do with each other, in every combination
            for g in (("si", "sc"), ("mr", "mp"), ("se", "ee")):
                r = tuple((i[1], i[2]) for i in x["line"] if i[0] == "opt" and i[1] in g)
                if len(r) > 1:
                    keys.add((x["tool"], r) if g[0] == "si" else (x["tool"], x["out"], g) if g[0] == "se" else (r, x["out"]))
            if s is sa and len(x["line"]) > full[x["tool"]]:
                # nothing is left out: the one item added decides
                keys |= {k + ("alone",) for k in keys if len(k) == 3}
            need = [k for k in keys if seen.get(k, 0) < ctx.pick(1, 40)] or seen.get((x["tool"], x["out"]), 0) < per
            if need:
                pick.append(x)
                for k in keys:
                    seen[k] = seen.get(k, 0) + 1
                seen[(x["tool"], x["out"])] = seen.get((x["tool"], x["out"]), 0) + 1
    before = F.stamp()
    memo = {}
    jobs = []
    for i, x in enumerate(pick):
        rng = random.Random("%s/%d" % (ctx.rng.random(), i))
        argv, chosen = spell(F, x["tool"], x["line"], rng)
        if argv is None:
            continue
        jobs.append((x, argv, canonical(F, x["tool"], x["eff"], chosen, rng) if x["out"] == "run" else None))

    ctx.extra["command_lines_run"] = len(jobs)
    need = sorted({(x["tool"], tuple(c)) for x, _, c in jobs if c})
    for k, (r, files, _) in zip(need, ctx.pmap(lambda k: once(ctx, F, k[0], list(k[1])), need)):
        memo[k] = result(r, files), r

    def go(chunk):
        parts, confs, dets = [], [], []
        for x, argv, canon in chunk:
            r, files, touched = once(ctx, F, x["tool"], argv)
            a = result(r, files)
            b = memo[(x["tool"], tuple(canon))] if canon else (a, r)
            N = {a: 1}
            N.setdefault(b[0], 2)
            parts.append([{"ev": "cmd", "tool": x["tool"], "line": x["line"], "rc": 0 if r.rc == 0 else 1, "usage": b"Usage:" in r.out, "err": bool(r.err.strip()),
                           "touched": touched, "prof": r.prof, "canon": x["eff"], "same": [N[a], N[b[0]]]}])
            confs.append({})
            dets.append({"tool": x["tool"], "argv": argv, "expected": x["out"], "canonical": canon, "rc": r.rc, "touched": touched,
                         "out": r.out[:600].decode("utf-8", "replace"), "err": r.err[:300].decode("utf-8", "replace"),
                         "canonical_result": b[1].brief() if canon else None})
        return vf.judge_parts(ctx, "CliTrace", parts, confs, dets)

    per = max(20, (len(jobs) + 31) // 32)
    for bad, nev in ctx.pmap_proc(go, [jobs[i:i + per] for i in range(0, len(jobs), per)]):
        ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + nev
        for det, e in bad:
            what = {"help": "help", "refuse": "should be refused", "run": "should run as written"}[det["expected"]]
            ctx.violation("%s %s: %s" % (det["tool"], " ".join(os.path.basename(a) if a.startswith("/") else a for a in det["argv"]), what), det)
    if F.stamp() != before:
        raise vf.ToolFailed("a command line changed an input file")
    ctx.evaluations += len(jobs)
    ctx.sample({"line": jobs[3][0], "argv": jobs[3][1]})
    ctx.assumptions += ["-r 0 is given (the display needs a terminal; see C27)", "what negative element numbers and an alignment of 2^6 to 2^63 bytes do is open"]
