"""C12: protobuf encoding and decoding are inverse, and lengths exact."""
import json
import os
import re

import vf

M64 = 1 << 64

# name -> (form, Go expression which encodes the words us to buf)
ENC = {
    "EncodeVarInt": ([64, "u", False, "one"], "pb.EncodeVarInt(buf, us[0])"),
    "EncodeS64PackedDelta": ([64, "z", True, "len"], "pb.EncodeS64PackedDelta(buf, i64(us))"),
    "EncodeS64PackedDeltaFunc": ([64, "z", True, "raw"], "pb.EncodeS64PackedDeltaFunc(i64(us))(buf)"),
    "EncodeS64PackedDeltaZero": ([64, "z", True, "zero"], "pb.EncodeS64PackedDeltaZero(buf, i64(us))"),
    "EncodeU64Packed": ([64, "u", False, "raw"], "pb.EncodeU64Packed(us)(buf)"),
    "EncodeS32PackedDelta": ([32, "z", True, "len"], "pb.EncodeS32PackedDelta(buf, i32(us))"),
    "EncodeS32Packed": ([32, "z", False, "len"], "pb.EncodeS32Packed(buf, i32(us))"),
    "EncodeI32Packed": ([32, "i", False, "len"], "pb.EncodeI32Packed(buf, i32(us))"),
    "EncodeI32PackedFunc": ([32, "i", False, "raw"], "pb.EncodeI32PackedFunc(i32(us))(buf)"),
    "EncodeU32PackedFunc": ([32, "u", False, "raw"], "pb.EncodeU32PackedFunc(u32(us))(buf)"),
    "EncodeZigZag": ([64, "z", False, "one"], "pb.EncodeVarInt(buf, pb.EncodeZigZag(int64(us[0])))"),
}
DEC = {}
for w in (64, 32):
    for s, g in (("S", "z"), ("I", "i"), ("U", "u")):
        conv = "ofu32" if (w == 32 and s == "U") else "ofi"
        DEC["Decode%s%d" % (s, w)] = ([w, g, False, "one"], "one(uint64(X))" if (w == 64 or s == "U") else "one(uint64(int64(X)))",
                                      "pb.Decode%s%d(buf, next)" % (s, w))
        DEC["Decode%s%dOpt" % (s, w)] = ([w, g, False, "one"], "one(uint64(X))" if (w == 64 or s == "U") else "one(uint64(int64(X)))",
                                         "*pb.Decode%s%dOpt(buf, next)" % (s, w))
DEC.update({
    "DecodeVarInt": ([64, "u", False, "one"], "one(X)", "pb.DecodeVarInt(buf, next)"),
    "DecodeZigZag": ([64, "z", False, "one"], "one(uint64(X))", "pb.DecodeZigZag(pb.DecodeVarInt(buf, next))"),
    "DecodeS32Packed": ([32, "z", False, "len"], "of32(X)", "pb.DecodeS32Packed(buf, next)"),
    "DecodeI32Packed": ([32, "i", False, "len"], "of32(X)", "pb.DecodeI32Packed(buf, next)"),
    "DecodeU32Packed": ([32, "u", False, "len"], "ofu32(X)", "pb.DecodeU32Packed(buf, next)"),
    "DecodeS64PackedDelta": ([64, "z", True, "len"], "of64(X)", "pb.DecodeS64PackedDelta(buf, next)"),
    "DecodeS64PackedDeltaZero": ([64, "z", True, "zero"], "of64(X)", "pb.DecodeS64PackedDeltaZero(buf)"),
    "DecodeS64Packed": ([64, "z", False, "len"], "of64(X)", "pb.DecodeS64Packed(buf, next)"),
    "DecodeU64Packed": ([64, "u", False, "len"], "X", "pb.DecodeU64Packed(buf, next)"),
})
BLOB = {"EncodeBuffer": (False, "pb.EncodeBuffer(buf, c)"),
        "EncodeIdBuffer": (True, "pb.EncodeIdBuffer(buf, id, c)"),
        "EncodeString": (False, "pb.EncodeString(buf, string(c))")}
SKIP = {"DecodeBytes": "return pb.DecodeBytes(b, next)",
        "ReadBytes": "return pb.ReadBytes(b, next)",
        "DecodeString": "return []byte(pb.DecodeString(b, next))",
        "DecodeStringOpt": "return []byte(*pb.DecodeStringOpt(b, next))",
        "SkipBytes": "at := *next; pb.SkipBytes(b, next); q := at; n := int(pb.DecodeVarInt(b, &q)); return b[q:q+n]"}
EMBEDS = ["Embed128", "Embed16384", "Embed2097152", "Embed268435456"]


def have():
    """the functions internal/pb has"""
    names = set()
    d = os.path.join(vf.REPO, "internal/pb")
    for fn in os.listdir(d):
        if fn.endswith(".go") and not fn.endswith("_test.go"):
            names |= set(re.findall(r"^func (\w+)\(", open(os.path.join(d, fn)).read(), re.M))
    return names


def table(names):
    enc = {k: v for k, v in ENC.items() if k in names}
    dec = {k: v for k, v in DEC.items() if k in names}
    blob = {k: v for k, v in BLOB.items() if k in names}
    skip = {k: v for k, v in SKIP.items() if k in names}
    emb = [k for k in EMBEDS if k in names]
    o = ["package main", 'import "%s/internal/pb"' % vf.MODPATH,
         "var _ = pb.EncodeVarInt",
         "func i64(us []uint64) []int64 { r := make([]int64, len(us)); for i, u := range us { r[i] = int64(u) }; return r }",
         "func i32(us []uint64) []int32 { r := make([]int32, len(us)); for i, u := range us { r[i] = int32(u) }; return r }",
         "func u32(us []uint64) []uint32 { r := make([]uint32, len(us)); for i, u := range us { r[i] = uint32(u) }; return r }",
         "func of64(x []int64) []uint64 { r := make([]uint64, len(x)); for i, u := range x { r[i] = uint64(u) }; return r }",
         "func of32(x []int32) []uint64 { r := make([]uint64, len(x)); for i, u := range x { r[i] = uint64(int64(u)) }; return r }",
         "func ofu32(x []uint32) []uint64 { r := make([]uint64, len(x)); for i, u := range x { r[i] = uint64(u) }; return r }",
         "func one(x uint64) []uint64 { return []uint64{x} }"]
    o.append("var encoders = map[string]func(buf []byte, us []uint64) []byte{")
    o += ['"%s": func(buf []byte, us []uint64) []byte { return %s },' % (k, v[1]) for k, v in enc.items()]
    o.append("}\nvar decoders = map[string]func(buf []byte, next *int) []uint64{")
    o += ['"%s": func(buf []byte, next *int) []uint64 { return %s },' % (k, v[1].replace("X", v[2])) for k, v in dec.items()]
    o.append("}\nvar blobs = map[string]func(buf []byte, id uint64, c []byte) []byte{")
    o += ['"%s": func(buf []byte, id uint64, c []byte) []byte { return %s },' % (k, v[1]) for k, v in blob.items()]
    o.append("}\nvar withID = map[string]bool{")
    o += ['"%s": true,' % k for k, v in blob.items() if v[0]]
    o.append("}\nvar embeds = map[string]func(id uint64, e pb.Embedder, buf []byte) []byte{")
    o += ['"%s": pb.%s,' % (k, k) for k in emb]
    o.append("}\nvar skips = map[string]func(b []byte, next *int) []byte{")
    o += ['"%s": func(b []byte, next *int) []byte { %s },' % (k, v) for k, v in skip.items()]
    o.append("}\n")
    return "\n".join(o), enc, dec, blob, skip, emb


def word(ls):
    return ls[0] | ls[1] << 16 | ls[2] << 32 | ls[3] << 48


def varint(u):
    b = []
    while True:
        b.append(u & 127 | (128 if u > 127 else 0))
        u >>= 7
        if not u:
            return b


def numbers(rng, f, n):
    """n values of form f"""
    edge = [0, 1, 2, 63, 64, 127, 128, 255]
    for k in list(range(6, 65, 7)) + [31, 32, 63, 64]:
        edge += [(1 << k) - 1, 1 << k, (1 << k) + 1]
    out = []
    last = 0
    for _ in range(n):
        r = rng.random()
        if r < 0.35:
            u = rng.choice(edge) * rng.choice([1, 1, -1])
        elif r < 0.7:
            u = rng.getrandbits(rng.randint(1, 64)) * rng.choice([1, -1])
        elif r < 0.8:
            u = last
        else:
            u = last + rng.randint(-70, 70)
        if f[0] == 64:
            u %= M64
        elif f[1] == "u":
            u %= 1 << 32
        else:
            u = (u + (1 << 31)) % (1 << 32) - (1 << 31)
            u %= M64
        last = u
        out.append(u)
    return out


def enc_list(f, vals):
    """bytes for the decoders (what they mean is decided by the specification)"""
    w = f[0]
    out, last = [], 0
    for v in vals:
        d = (v - last) % M64 if f[2] else v
        last = v
        if w == 32 and f[1] != "u":
            d = (d + (1 << 31)) % (1 << 32) - (1 << 31)
            d %= M64
        if f[1] == "z":
            d = (d << 1 ^ (M64 - 1 if d >> 63 else 0)) % M64
        out += varint(d)
    if f[3] == "zero":
        out.append(0)
    if f[3] == "len":
        out = varint(len(out)) + out
    return out


def wide(f, n, more):
    """n values each written in as many bytes as possible, then some of one byte"""
    big = (1 << 63) if f[0] == 64 else (1 << 31)
    if f[0] == 32:
        big, per = ((1 << 32) - 1, 5) if f[1] == "u" else (M64 - (1 << 31), 5 if f[1] == "z" else 10)
        n = n if per == 10 else 2 * n
    l = [big if not f[2] or i % 2 == 0 else 0 for i in range(n)]
    return l + ([0] * more if not f[2] else [l[-1]] * more)


def padded(b, k):
    """the same number with k more bytes"""
    return b if k == 0 else [x | 128 for x in b] + [128] * (k - 1) + [0]


def check(ctx):
    rng = ctx.rng
    for cfg in ("WireModel_lists", "WireModel_ones", "WireModel_two") + (() if ctx.quick else ("WireModel_big",)):
        ctx.model("WireModel", cfg, workers=4)
    scn = []
    for cfg in ("WireScen_a", "WireScen_b"):
        s, _ = ctx.scenarios("WireScen", cfg)
        scn += s
    names = have()
    src, enc, dec, blob, skip, emb = table(names)
    if len(enc) < 3 or len(dec) < 3:
        raise vf.CheckError("internal/pb has hardly any of the known functions")
    d = ctx.fresh("wire")
    t = os.path.join(d, "table.go")
    open(t, "w").write(src)
    drv = ctx.driver("wire", overlay={os.path.join(vf.REPO, "internal/zzverif/wire/table.go"): t})
    jobs = []

    def job(**k):
        jobs.append(k)

    def chunks(xs, n):
        return [xs[i:i + n] for i in range(0, len(xs), n)]

    by = {}
    for s in scn:
        by.setdefault(json.dumps(s["f"]), []).append(s)
    nrand, nlong = ctx.pick(250, 4000), ctx.pick(4, 40)
    for fn, v in sorted(enc.items()):
        f = v[0]
        vals = [[word(x) for x in s["vs"]] for s in by.get(json.dumps(f), [])]
        if f[3] == "one":
            vals += [numbers(rng, f, 1) for _ in range(nrand * 3)]
        else:
            vals += [numbers(rng, f, rng.randint(0, 12)) for _ in range(nrand)]
            for n in (1, 63, 64, 126, 127, 128, 129):       # length of the whole list around one and two bytes of length
                vals += [[0] * n, [1] * n, list(range(n)), list(range(n, 0, -1))]
            vals += [numbers(rng, f, rng.randint(100, 900)) for _ in range(nlong)]
            vals += [wide(f, 1638, x) for x in (2, 3, 4)]            # 16382, 16383, 16384 bytes or the like
        for c in chunks(vals, 200):
            job(op="enc", fn=fn, f=f, vals=[[str(x) for x in l] for l in c])
    for fn, v in sorted(dec.items()):
        f = v[0]
        bs = [s["b"] for s in by.get(json.dumps(f), [])]
        if f[3] == "one":
            for _ in range(nrand * 2):
                b = enc_list(f, numbers(rng, f, 1))
                bs.append(padded(b, rng.randint(0, 10 - len(b)) if len(b) < 10 and rng.random() < 0.3 else 0))
        else:
            lists = [numbers(rng, f, rng.randint(0, 12)) for _ in range(nrand)]
            lists += [[0] * n for n in (1, 63, 64, 126, 127, 128, 129)] + [[1 << 31] * n for n in (1, 2, 30)]
            lists += [numbers(rng, f, rng.randint(100, 900)) for _ in range(nlong)]
            lists += [wide(f, 1638, x) for x in (2, 3, 4)]
            if f[3] == "zero":      # equal neighbours would end the list
                lists = [[x for i, x in enumerate(l) if x and (i == 0 or x != l[i - 1])] for l in lists]
                lists = [[x for i, x in enumerate(l) if i == 0 or x != l[i - 1]] for l in lists]
            bs += [enc_list(f, l) for l in lists]
        for c in chunks(bs, 200):
            job(op="dec", fn=fn, f=f, bytes=c)
    # any bytes at all
    raw = [[]]
    layer = [[]]
    for _ in range(ctx.pick(3, 4)):
        layer = [a + [x] for a in layer for x in (0, 1, 127, 128, 255)]
        raw += layer
    for n in (8, 9, 10, 11, 12):
        for fill in (128, 255, 129):
            for last in (0, 1, 2, 3, 127, 128, 129, 255):
                raw.append([fill] * (n - 1) + [last])
    raw += [[rng.choice([0, 1, 127, 128, 129, 255, rng.randrange(256)]) for _ in range(rng.randint(0, 13))] for _ in range(nrand)]
    for c in chunks(raw, 300):
        job(op="raw", fn="DecodeVarInt", bytes=c)
    ids = list(range(1, 36)) + [2047, 2048, 262143, 262144]
    job(op="key", fn="MakeIdType", ids=ids)
    if "EncodeIdVarInt" in names:
        job(op="field", fn="EncodeIdVarInt", ids=ids[:20], vals=[[str(x) for x in numbers(rng, [64, "u"], ctx.pick(40, 400))]])
    ns = sorted({0, 1, 2, 3, 100, 126, 127, 128, 129, 130, 255, 256, 16381, 16382, 16383, 16384, 16385, 16386, 65535, 65536} |
                {rng.randint(0, 40000) for _ in range(ctx.pick(20, 200))})
    big = [2097150, 2097151, 2097152, 2097153]
    for fn in blob:
        job(op="bytes", fn=fn, ids=[1, 15, 16, 2047] if blob[fn][0] else [1], ns=ns + big)
    for fn in emb:
        lim = int(fn[5:])
        job(op="embed", fn=fn, ids=[1, 2, 15, 16, 2048], ns=[n for n in ns if n <= lim + 1000])
        if lim > 70000:
            job(op="embed", fn=fn, ids=[3], ns=[n for n in big if n <= lim + 1000] + ([lim - 1, lim] if not ctx.quick and lim > 2097152 else []))
    for fn in skip:
        bs, at = [], []
        for n in [0, 1, 5, 127, 128, 300] + [rng.randint(0, 400) for _ in range(ctx.pick(20, 200))]:
            p = rng.randint(0, 5)
            bs.append([rng.randrange(256) for _ in range(p)] + padded(varint(n), rng.choice([0, 0, 1, 2])) +
                      [rng.randrange(256) for _ in range(n + rng.randint(0, 4))])
            at.append(p)
        job(op="skip", fn=fn, bytes=bs, ns=at)
    fi, fo = os.path.join(d, "in"), os.path.join(d, "out")
    with open(fi, "w") as f:
        f.write("".join(json.dumps(j, separators=(",", ":")) + "\n" for j in jobs))
    r = vf.run([drv, fi, fo], timeout=800)
    if r.rc != 0:
        raise vf.ToolFailed("wire driver: %s" % r.brief())
    evs = [json.loads(l) for l in open(fo)]
    if len(evs) != len(jobs):
        raise vf.ToolFailed("wire driver: %d events of %d" % (len(evs), len(jobs)))
    ctx.evaluations += sum(len(e["cases"]) for e in evs)
    ctx.extra["functions"] = sorted(set(e["fn"] for e in evs))
    ctx.extra["cases"] = {e["ev"]: sum(len(x["cases"]) for x in evs if x["ev"] == e["ev"]) for e in evs}
    ctx.sample({k: evs[0][k] if k != "cases" else evs[0][k][:3] for k in ("ev", "fn", "cases")})
    # spread the work by size
    n = ctx.pick(8, 24)
    parts = [[0, []] for _ in range(n)]
    for e in sorted(evs, key=lambda e: -len(json.dumps(e["cases"]))):
        p = min(parts, key=lambda p: p[0])
        p[0] += len(json.dumps(e["cases"])) + 2000
        p[1].append(e)

    def judge(part):
        bad = []
        todo = part[1]
        while todo:
            k = ctx.trace("WireTrace", "WireTrace", todo, timeout=1500)
            if k is None:
                break
            bad.append(todo[min(k, len(todo) - 1)])
            todo = todo[k + 1:]
            if len(bad) > 1:
                break
        return bad

    for bs in ctx.pmap(judge, [p for p in parts if p[1]]):
        for e in bs:
            cs = e["cases"]
            while len(cs) > 1 and len(ctx.violations) < 2:
                h = cs[:len(cs) // 2]
                cs = h if ctx.trace("WireTrace", "WireTrace", [dict(e, cases=h)]) is not None else cs[len(cs) // 2:]
            one = dict(e, cases=cs[:3])
            ctx.violation("%s: %s rejected by the wire format" % (e["ev"], e["fn"]), one)
    vf.shutil.rmtree(d)
    ctx.assumptions += ["lists and messages up to 2 MB (thorough: 256 MB)"]
