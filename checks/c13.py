"""C13: string tables."""
import json
import os

import osmpbf
import vf


def words(rng):
    """a family of strings in byte order, "" first"""
    k = rng.randrange(8)
    if k == 0:
        w = [b"a", b"b", b"c", b"d"]
    elif k == 1:
        w = [b"a", b"aa", b"aaa", b"ab"]
    elif k == 2:
        w = [b"\x00", b"\x00\x00", b"\x00a", b"a\x00"]
    elif k == 3:
        w = ["ä".encode(), "日本".encode(), "日本語".encode(), "z".encode()]
    elif k == 4:
        w = [b"x" * n for n in (127, 128, 129, 300)]
    elif k == 5:
        w = [b"Highway", b"highway", b"highway ", b"HIGHWAY"]
    elif k == 6:
        w = [b"\x7f", b"\x80", b"\xff", b"\xff\xfe"]
    else:
        w = [bytes(rng.randrange(97, 100) for _ in range(rng.randint(1, 6))) for _ in range(9)]
    return [b""] + sorted(set(w))


def check(ctx):
    rng = ctx.rng
    ctx.model("StringTab", ctx.pick("StringTab_model", "StringTab_big"), workers=4)
    scn, _ = ctx.scenarios("StringTabScen", ctx.pick("StringTabScen", "StringTabScen_big"))
    drv = ctx.driver("strtab")
    jobs, todo = [], []

    def h(b):
        return b.hex()

    def hist(ops, W):
        """ops: [s] or [0, m] over indexes of W"""
        n = len(W)
        js, es = [], [{"ev": "new"}]
        for o in ops:
            if len(o) == 1:
                js.append({"k": "add", "s": h(W[o[0]])})
                es.append({"ev": "add", "s": o[0]})
            elif len(o) == 3:
                js.append({"k": "add", "s": h(W[o[1]]), "n": o[2]})
                es.append({"ev": "many", "s": o[1], "n": o[2]})
            else:
                js.append({"k": "map", "m": [[h(W[a]), h(W[b])] for a, b in o[1]]})
                es.append({"ev": "map", "m": o[1]})
        js.append({"k": "close"})
        es.append({"ev": "close"})
        used = {0}
        for o in ops:
            used |= set(o) if len(o) == 1 else {o[1]} if len(o) == 3 else {x for p in o[1] for x in p}
        some = list(range(n)) if n < 12 else rng.sample(range(n), 12)
        for s in some:
            js.append({"k": "index", "s": h(W[s])})
            es.append({"ev": "index", "s": s})
        used = sorted(used)
        for k in ("kv", "lin"):
            keys = rng.sample(used, rng.randint(0, min(len(used), 5)))
            m = [[a, rng.choice(used)] for a in sorted(keys)]
            js.append({"k": k, "m": [[h(W[a]), h(W[b])] for a, b in m]})
            es.append({"ev": k, "m": m})
        jobs.append({"op": "hist", "ops": js})
        todo.append((es, W))

    for ops in scn:
        W = words(rng)
        while len(W) < 4:
            W = words(rng)
        hist(ops, W)
    for _ in range(ctx.pick(60, 1000)):
        W = words(rng)
        ops = []
        for _ in range(rng.randint(0, 40)):
            if rng.random() < 0.6:
                ops.append([rng.randrange(len(W))])
            else:
                ks = rng.sample(range(len(W)), rng.randint(0, min(4, len(W))))
                ops.append([0, [[k, rng.randrange(len(W))] for k in ks]])
        hist(ops, W)
    # many strings: indexes of more than one and two bytes
    for n in (126, 127, 128, 129, 300) + ctx.pick((), (16383, 16384, 16500)):
        W = [b""] + sorted({b"%x" % rng.getrandbits(60) for _ in range(n)})
        ops = [[i] for i in rng.sample(range(len(W)), len(W))] + [[rng.randrange(len(W))] for _ in range(n // 4)]
        hist(ops, W)
    # strings used very often: counts of more than one, two bytes
    for a, b in ((255, 256), (257, 2), (65535, 65536), (65537, 1), (65537, 65536), (70000, 256), (256, 512)) + ctx.pick((), ((2**24, 2**24 + 1), (2**24 + 1, 255))):
        W = words(rng)
        while len(W) < 4:
            W = words(rng)
        ops = [[0, 1, a], [0, 2, b], [3], [3]]
        rng.shuffle(ops)
        hist(ops, W)
        hist([[0, 2, a], [0, 1, b], [0, 3, rng.choice([a, b])]], W)
    # tables with indexes of more than two bytes
    for n in (65534, 65535, 65536, 65540, 70000):
        js = [{"k": "range", "n": n}]
        es = [{"ev": "new"}, {"ev": "range", "n": n}]
        ask = [1, 2, 127, 128, 16383, 16384, 32767, 32768, n - 1, n] + [rng.randint(1, n) for _ in range(10)]
        for s in ask:
            js.append({"k": "index", "s": h(b"%08d" % s)})
            es.append({"ev": "index", "s": s})
        for k in ("kv", "lin"):
            m = [[a, rng.choice(ask)] for a in sorted(set(ask))]
            js.append({"k": k, "m": [[h(b"%08d" % a), h(b"%08d" % b)] for a, b in m]})
            es.append({"ev": k, "m": m})
        jobs.append({"op": "hist", "ops": js})
        todo.append((es, None))
    # blocks
    for k in range(ctx.pick(120, 2000)):
        big = rng.random() < 0.1
        pool = [b"%x" % rng.getrandbits(40) for _ in range(rng.choice([1, 3, 8, 40] if not big else [150, 400]))]
        pool += [w for w in words(rng) if rng.random() < 0.5]
        pool.append(b"")
        es, eid = [], 0
        for kind in (1, 2, 3):
            if rng.random() < 0.3:
                continue
            for _ in range(rng.randint(1, 4 if not big else 30)):
                eid += rng.randint(1, 5)
                nk = rng.randint(0, 4)
                keys = {rng.choice(pool) for _ in range(nk)}
                if kind == 1:
                    keys.discard(b"")       # cannot be written: index 0 ends the tags of a node
                e = {"kind": kind, "id": eid, "tags": [[h(a), h(rng.choice(pool))] for a in sorted(keys)],
                     "roles": [], "members": [], "types": [], "refs": [], "lon": 0, "lat": 0}
                if kind == 3:
                    for _ in range(rng.randint(0, 5)):
                        e["roles"].append(h(rng.choice(pool)))
                        e["members"].append(rng.randint(1, 99))
                        e["types"].append(rng.randrange(3))
                es.append(e)
        jobs.append({"op": "block", "es": es})
        todo.append((es, None))
    for _ in range(ctx.pick(30, 300)):
        ss = [b""] * rng.randint(0, 1) + [bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 126, 127, 128, 129, 300, 16383, 16384, 16385, 65535, 65536, 65537, 100000])))
                                         for _ in range(rng.randint(0, 5))]
        jobs.append({"op": "codec", "s": [h(s) for s in ss]})
        todo.append((ss, None))

    d = ctx.fresh("strtab")
    fi, fo = os.path.join(d, "in"), os.path.join(d, "out")
    with open(fi, "w") as f:
        f.write("".join(json.dumps(j) + "\n" for j in jobs))
    r = vf.run([drv, fi, fo], timeout=600)
    if r.rc != 0:
        ctx.violation("the string table builder panics", {"output": r.brief()})
        return
    out = [json.loads(x) for x in open(fo)]
    evs = []        # one list per job
    for j, (x, W), o in zip(jobs, todo, out):
        if j["op"] == "hist":
            num = {h(w): i for i, w in enumerate(W)} if W else {h(b"%08d" % i): i for i in range(1, 70001)}
            num[""] = 0
            for e, g in zip(x[1:], o):
                if e["ev"] in ("close", "range"):
                    e["table"] = [num.get(s, -5) for s in g]
                elif e["ev"] == "index":
                    e["i"] = g
                elif e["ev"] == "kv":
                    e["ks"], e["vs"] = g
                elif e["ev"] == "lin":
                    e["ids"] = g
            evs.append(x)
        elif j["op"] == "block":
            strs = sorted({s for e in x for p in e["tags"] for s in p} | {s for e in x for s in e["roles"]} | {""})
            num = {s: i for i, s in enumerate(strs)}    # hexadecimal sorts like the bytes
            es = [[e["kind"], [[num[a], num[b]] for a, b in e["tags"]], [num[s] for s in e["roles"]]] for e in x]
            try:
                table, refs = indexes(bytes.fromhex(o))
            except (osmpbf.DecodeError, IndexError) as ex:
                evs.append([{"ev": "garbled", "what": str(ex)}])
                continue
            evs.append([{"ev": "block", "entities": es, "table": [num.get(h(s), -5) for s in table], "refs": refs}])
        else:
            num = {}
            ids = [num.setdefault(h(s), len(num)) for s in x]
            dec = [num.get(h(v), -5) for _, _, v in osmpbf.fields(bytes.fromhex(o[1]))]
            evs.append([{"ev": "codec", "in": ids, "out": [num.get(s, -5) for s in o[0]], "decoded": dec}])
    ctx.evaluations += sum(map(len, evs))
    ctx.extra["jobs"] = {k: sum(1 for j in jobs if j["op"] == k) for k in ("hist", "block", "codec")}
    ctx.sample({"job": jobs[7], "events": evs[7]})

    def judge(part):
        flat = [(i, e) for i in part for e in evs[i]]
        k = ctx.trace("StringTabTrace", "StringTabTrace", [e for _, e in flat])
        return None if k is None else flat[min(k, len(flat) - 1)]

    n = 8
    for bad in ctx.pmap(judge, [list(range(i, len(evs), n)) for i in range(n)]):
        if bad:
            i, e = bad
            ctx.violation("string table: %s rejected" % e["ev"], {"job": jobs[i], "result": out[i], "event": e})
    vf.shutil.rmtree(d)
    ctx.assumptions += ["nodes without tags whose key is empty (the format cannot hold them)"]


def indexes(buf):
    """string table and references of a block, as they are written"""
    S, groups = [], []
    for num, wt, v in osmpbf.fields(buf):
        if (num, wt) == (1, 2):
            S += [x for _, _, x in osmpbf.fields(v)]
        elif (num, wt) == (2, 2):
            groups.append(v)
    ident = lambda i: i
    refs = []
    for g in groups:
        for num, wt, v in osmpbf.fields(g):
            if num == 2:
                refs += [[1, n["tags"], []] for n in osmpbf._dec_dense(v, ident)]
            elif num == 3:
                refs.append([2, osmpbf._dec_way(v, ident)["tags"], []])
            elif num == 4:
                r = osmpbf._dec_rel(v, ident)
                refs.append([3, r["tags"], [m[0] for m in r["members"]]])
            else:
                raise osmpbf.DecodeError("field %d" % num)
    return S, refs
