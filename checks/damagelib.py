""".osm.pbf files as trees of fields, so that they can be damaged in every place; what is wrong with the
result is decided by spec/Accept.tla, not here."""
import struct
import zlib

from osmpbf import varint, zigzag, DecodeError, rd_varint

BIG = [1 << 31, 1 << 32, (1 << 32) + 7, 1 << 62, 1 << 63, (1 << 64) - 1, (1 << 64) - 8]


class F:
    """a field: v is a number, bytes, a list of fields, or a List; lie is added to the declared length"""

    def __init__(self, num, v, wt=None, lie=0, pad=0):
        self.num, self.v, self.wt, self.lie, self.pad = num, v, wt, lie, pad

    def wire(self):
        if self.wt is not None:
            return self.wt
        return 0 if isinstance(self.v, int) else 2

    def copy(self):
        v = self.v
        if isinstance(v, list):
            v = [x.copy() for x in v]
        elif isinstance(v, List):
            v = List(v.v[:], v.delta, v.junk)
        return F(self.num, v, self.wt, self.lie, self.pad)


class List:
    def __init__(self, v, delta=False, junk=b""):
        self.v, self.delta, self.junk = v, delta, junk

    def enc(self):
        out, last = [], 0
        for x in self.v:
            if isinstance(x, bytes):
                out.append(x)
                continue
            out.append(varint(zigzag(x - last) if self.delta else x))
            last = x if self.delta else 0
        return b"".join(out) + self.junk


def content(v):
    if isinstance(v, list):
        return b"".join(enc(f) for f in v)
    return v.enc() if isinstance(v, List) else v


def longer(n, pad):
    """the varint n with pad redundant bytes"""
    b = varint(n)
    return b if not pad else b[:-1] + bytes([b[-1] | 0x80]) + b"\x80" * (pad - 1) + b"\x00"


def enc(f):
    w = f.wire()
    key = longer(f.num << 3 | w, f.pad if f.pad > 4 else 0)
    if w == 0 and isinstance(f.v, int):
        return key + longer(f.v, f.pad)
    if isinstance(f.v, int):
        return key + {1: struct.pack("<Q", f.v & (1 << 64) - 1), 5: struct.pack("<I", f.v & 0xFFFFFFFF)}.get(w, longer(f.v, f.pad))
    c = content(f.v)
    if w != 2:
        return key + c
    n = f.lie if f.lie > 1 << 30 else max(0, len(c) + f.lie)
    return key + longer(n, f.pad) + c


class Frame:
    """a block of the file"""

    def __init__(self, typ, payload, comp="raw"):
        self.typ, self.payload, self.comp = typ, payload, comp
        self.size_by, self.hdr_by, self.raw_by = 0, 0, 0     # lies
        self.zmut, self.hextra, self.bextra, self.blobcopy, self.level = None, [], [], False, 6

    def copy(self):
        c = Frame(self.typ, self.payload if isinstance(self.payload, bytes) else [f.copy() for f in self.payload], self.comp)
        c.size_by, c.hdr_by, c.raw_by, c.zmut, c.level = self.size_by, self.hdr_by, self.raw_by, self.zmut, self.level
        c.hextra, c.bextra = [f.copy() for f in self.hextra], [f.copy() for f in self.bextra]
        return c

    def blob(self):
        p = content(self.payload)
        if self.comp == "none":
            fs = []
        elif self.comp in ("raw", "raw+size"):
            fs = [F(1, p)] + ([F(2, max(0, len(p) + self.raw_by))] if self.comp == "raw+size" else [])
        else:
            z = zlib.compress(p, self.level)
            if self.zmut:
                z = self.zmut(z)
            fs = [F(2, self.raw_by if self.raw_by > 1 << 20 else max(0, len(p) + self.raw_by)), F(3, z)]
            if self.comp == "zlib-nosize":
                fs = fs[1:]
            elif self.comp == "both":
                fs.append(F(1, p))
            elif self.comp == "lzma":
                fs[1].num = 4
        return content(fs + self.bextra)

    def enc(self):
        b = self.blob()
        h = content([F(1, self.typ)] + [F(3, self.size_by if self.size_by > 1 << 30 else max(0, len(b) + self.size_by))] + self.hextra)
        return struct.pack(">I", (len(h) + self.hdr_by) & 0xFFFFFFFF) + h + b


def encode(frames):
    return b"".join(f.enc() for f in frames)


# ------------------------------------------------------------------ small correct files
HEADER = [F(4, b"OsmSchema-V0.6"), F(4, b"DenseNodes")]


def base(rng, small=False):
    """a correct file with everything in it; ids ascend, ways refer to its nodes, relations to its ways"""
    strs = [b"", b"highway", b"path", b"name", b"x" * rng.choice([0, 1, 30]), b"outer", b"type"]
    nid, wid, rid = rng.randrange(1, 5), rng.choice([1, 7, 300]), 1
    ids, wids = [], []
    frames = [Frame(b"OSMHeader", content(HEADER), rng.choice(["raw", "zlib", "raw+size"]))]

    def pair(n):
        return [rng.randrange(1, len(strs)) for _ in range(n)]

    def info():
        return [F(1, 3), F(2, 77), F(5, 0)]

    def blockof(groups):
        b = [F(1, [F(1, s) for s in strs])] + [F(2, g) for g in groups]
        if rng.random() < 0.3:
            b += [F(17, 100), F(18, 1000), F(19, 0), F(20, 0)]
        if rng.random() < 0.2:
            b = b[1:] + b[:1]
        f = Frame(b"OSMData", b, rng.choice(["raw", "zlib", "zlib"]))
        f.level = rng.choice([0, 6])
        return f

    def dense():
        nonlocal nid
        n = rng.choice([1, 2, 3] if small else [1, 2, 3, 8])
        mine = [nid + i for i in range(n)]
        nid += n + rng.choice([0, 3])
        ids.extend(mine)
        d = [F(1, List(mine, True)), F(8, List([rng.randrange(-10**8, 10**8) for _ in mine], True)),
             F(9, List([rng.randrange(-10**8, 10**8) for _ in mine], True))]
        if rng.random() < 0.5:
            d.insert(1, F(5, [F(1, List([1] * n)), F(2, List([9] * n, True))]))
        if rng.random() < 0.7:
            kv = []
            for _ in mine:
                kv += [x for _ in range(rng.choice([0, 0, 1, 2])) for x in (rng.randrange(1, len(strs)), rng.randrange(0, len(strs)))] + [0]
            d.append(F(10, List(kv)))
        return [F(2, d)]

    def ways():
        nonlocal wid
        out = []
        for _ in range(rng.choice([1, 2])):
            n = rng.choice([0, 1, 2])
            w = [F(1, wid), F(2, List(pair(n))), F(3, List(pair(n)))]
            if rng.random() < 0.4:
                w.append(F(4, info()))
            w.append(F(8, List([rng.choice(ids) for _ in range(rng.choice([0, 1, 2, 5]))], True)))
            wids.append(wid)
            wid += rng.choice([1, 5])
            out.append(F(3, w))
        return out

    def rels():
        nonlocal rid
        out = []
        for _ in range(rng.choice([1, 2])):
            n, m = rng.choice([0, 1, 2]), rng.choice([0, 1, 2, 4])
            r = [F(1, rid), F(2, List(pair(n))), F(3, List(pair(n)))]
            if rng.random() < 0.4:
                r.append(F(4, info()))
            ty = [rng.choice([0, 1, 1, 2]) for _ in range(m)]
            r += [F(8, List([rng.randrange(0, len(strs)) for _ in ty])), F(9, List([rng.choice(wids) if t == 1 else 1 for t in ty], True)), F(10, List(ty))]
            rid += 1
            out.append(F(4, r))
        return out

    if small:
        frames.append(blockof([dense(), ways(), rels()]))
    else:
        frames.append(blockof([dense()] + ([dense()] if rng.random() < 0.3 else [])))
        frames.append(blockof([ways()]))
        frames.append(blockof([rels()] + ([[]] if rng.random() < 0.2 else [])))
    return frames


# ------------------------------------------------------------------ damage
def spots(fs, path=()):
    """every list of fields with its place: [(list, depth)]"""
    out = [(fs, len(path))]
    for f in fs:
        if isinstance(f.v, list):
            out += spots(f.v, path + (f.num,))
    return out


def damage_field(rng, frames):
    """one change to one field of one block"""
    fr = rng.choice([f for f in frames if not isinstance(f.payload, bytes)])
    lists = [(l, d) for l, d in spots(fr.payload) if l]
    depth = rng.choice(sorted({d for _, d in lists}))
    l = rng.choice([x for x, d in lists if d == depth])
    i = rng.randrange(len(l))
    f = l[i]
    op = rng.choice(["lie", "lie", "lie", "drop", "twice", "num", "wt", "new", "junk", "list", "list", "list", "value", "pad", "empty", "tags"])
    if op in ("list", "value"):
        # a field of that kind, wherever it is
        kind = List if op == "list" else int
        fits = [x for y, _ in lists for x in y if isinstance(x.v, kind)]
        f = rng.choice(fits) if fits else f
    if op == "lie" and not isinstance(f.v, int):
        f.lie = rng.choice([-3, -2, -1, 1, 1, 2, 3, 4, 7, 20, 200] + BIG)
    elif op == "drop":
        del l[i]
    elif op == "twice":
        l.insert(rng.choice([i, len(l)]), f.copy())
    elif op == "num":
        f.num = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 15, 16, 17, 18, 21, 34, 1 << 28, (1 << 29) + f.num])
    elif op == "wt":
        f.wt = rng.choice([0, 1, 2, 3, 4, 5, 6, 7])
    elif op == "new":
        l.insert(rng.randrange(len(l) + 1), F(rng.choice([0, 1, 5, 6, 7, 11, 16, 32]), rng.choice([0, 5, b"", b"\x01", b"abc"])))
    elif op == "junk":
        l.append(F(0, rng.choice([b"\x80", b"\xff" * 9, b"\x80" * 10 + b"\x01", b"\x0a", b"\x08", b"\x01\x02\x03"]), wt=rng.choice([0, 2, 7])))
    elif op == "list" and isinstance(f.v, List):
        k = rng.choice(["short", "long", "zero", "big", "index", "junk", "none", "wide"])
        if k == "short" and f.v.v:
            del f.v.v[rng.randrange(len(f.v.v))]
        elif k == "long":
            f.v.v.append(rng.choice([0, 0, 1, 2]))
        elif k == "zero" and f.v.v:
            f.v.v.insert(rng.randrange(len(f.v.v)), 0)
        elif k == "big" and f.v.v:
            f.v.v[rng.randrange(len(f.v.v))] = rng.choice(BIG)
        elif k == "index" and f.v.v:
            f.v.v[rng.randrange(len(f.v.v))] = rng.choice([6, 7, 8, 9, 100, (1 << 31) - 1])
        elif k == "wide" and f.v.v:
            # ten bytes for one element: the last one may be 0 or 1
            f.v.v[rng.randrange(len(f.v.v))] = rng.choice([b"\x81" + b"\x80" * 8, b"\xff" * 9]) + rng.choice([b"\x00", b"\x01", b"\x02", b"\x7f", b"\x80\x00"])
        elif k == "junk":
            f.v.junk = rng.choice([b"\x80", b"\xff\xff", b"\xff" * 9 + b"\x01", b"\xff" * 9 + b"\x02", b"\xff" * 10, b"\x80\x00"])
        else:
            f.v.v = []
    elif op == "tags":
        # tags of nodes: one group too many or too few, or one without an end
        ls = [x for x, _ in spots(fr.payload)]
        ds = [d for x in ls for d in x if d.num == 2 and isinstance(d.v, list) and any(y.num == 10 for y in d.v) and any(y.num == 9 for y in d.v)]
        if ds:
            kv = [y for y in rng.choice(ds).v if y.num == 10][0].v
            if isinstance(kv, List):
                ends = [j for j, x in enumerate(kv.v) if x == 0]
                k = rng.choice(["open", "odd", "more", "less", "pair"])
                if k == "open":
                    kv.v += [1, 2]
                elif k == "odd":
                    kv.v += [1]
                elif k == "more":
                    kv.v += [0]
                elif k == "less" and kv.v:
                    kv.v.pop()
                elif k == "pair" and ends:
                    kv.v.insert(rng.choice(ends), 1)
    elif op == "value" and isinstance(f.v, int):
        f.v = rng.choice([0, 1, 127, 128] + BIG)
    elif op == "pad":
        f.pad = rng.choice([1, 2, 4, 5, 9, 10])
    elif op == "empty" and not isinstance(f.v, int):
        f.v = b""


def damage_frame(rng, frames):
    fr = rng.choice(frames)
    op = rng.choice(["type", "size", "hdr", "comp", "comp", "raw", "raw", "rawcut", "rawcut", "z", "z", "hextra", "bextra", "drop", "twice", "undense", "cs"])
    if op == "type":
        fr.typ = rng.choice([b"", b"OSMdata", b"OSMData\0", b"OSMDat", b"OSMHeade", b"XYZ", b"OSMData ", b"OSMHeader" if fr.typ == b"OSMData" else b"OSMData"])
    elif op == "size":
        fr.size_by = rng.choice([-1, 1, 2, -5, 3, 1000] + BIG)
    elif op == "hdr":
        fr.hdr_by = rng.choice([-1, 1, -2, 2, 7, 100000, 1 << 24, 1 << 31])
    elif op == "comp":
        fr.comp = rng.choice(["none", "both", "lzma", "zlib-nosize", "raw+size", "raw", "zlib"])
    elif op == "raw":
        fr.comp = rng.choice(["zlib", "zlib", "zlib", "raw+size"])
        fr.raw_by = rng.choice([-1, -1, 1, 1, -2, 5, -10**6, 1000, 70000, 1 << 31, (1 << 32) + 5])
    elif op == "rawcut":
        # a raw size at which a field ends
        if isinstance(fr.payload, bytes):
            fr.raw_by = -len(fr.payload)
        else:
            ends = [0]
            for f in fr.payload:
                ends.append(ends[-1] + len(enc(f)))
            fr.raw_by = rng.choice(ends[:-1] + ends[-2:-1]) - ends[-1] if len(ends) > 1 else -1
        fr.comp, fr.level = "zlib", rng.choice([0, 6, 9])
    elif op == "z":
        fr.comp = "zlib"
        fr.level = rng.choice([0, 1, 9])
        r1, r2, k = rng.random(), rng.randrange(256), rng.choice(["flip", "adler", "cut", "tail", "head", "empty"])

        def z(b):
            b = bytearray(b)
            if k == "flip":
                b[int(r1 * len(b))] ^= (r2 or 1)
            elif k == "adler":
                b[-1 - r2 % 4] ^= 1 << r2 % 8
            elif k == "cut":
                del b[-(1 + int(r1 * min(len(b) - 1, rng_cut))):]
            elif k == "tail":
                b += b"\0" * (1 + r2 % 3)
            elif k == "head":
                b[r2 % 2] = int(r1 * 256)
            else:
                b = bytearray()
            return bytes(b)

        rng_cut = rng.choice([1, 4, 5, 20])
        fr.zmut = z
    elif op == "hextra":
        fr.hextra = [F(rng.choice([1, 2, 3, 4, 9]), rng.choice([b"OSMData", b"", 1, 0]))]
    elif op == "bextra":
        fr.bextra = [F(rng.choice([1, 2, 3, 4, 5, 6, 7, 8]), rng.choice([b"", b"\x0a\x00", 1, 0, 200]))]
    elif op == "drop":
        frames.remove(fr)
        if not frames:
            frames.append(fr)
    elif op == "twice":
        frames.insert(frames.index(fr), fr.copy())
    else:
        ds = [f for f in frames if not isinstance(f.payload, bytes)]
        if not ds:
            return
        gs = [f for f in rng.choice(ds).payload if f.num == 2 and isinstance(f.v, list)]
        if gs:
            g = rng.choice(gs)
            if op == "undense":
                g.v.insert(rng.randrange(len(g.v) + 1), F(1, [F(1, 4), F(8, 2), F(9, 2)]))
            else:
                g.v.insert(rng.randrange(len(g.v) + 1), F(5, rng.choice([b"", b"\x08\x01"]), lie=rng.choice([0, 1, 2, 5, -1] + BIG)))


def damage_bytes(rng, b):
    b = bytearray(b)
    i = rng.randrange(len(b))
    op = rng.choice(["set", "set", "flip", "del", "ins", "cut", "tail"])
    if op == "set":
        b[i] = rng.choice([0, 1, 2, 0x7F, 0x80, 0xFF, rng.randrange(256)])
    elif op == "flip":
        b[i] ^= 1 << rng.randrange(8)
    elif op == "del":
        del b[i:i + rng.choice([1, 1, 2, 4])]
    elif op == "ins":
        b[i:i] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 1, 4])))
    elif op == "cut":
        del b[i:]
    else:
        b += bytes(rng.choice([[0], [0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 1, 0], [255] * 4]))
    return bytes(b)


# ------------------------------------------------------------------ what the compressed parts hold
def loose(b, i, e):
    """(field, start, end) of the bytes fields in [i, e), as far as it can be read"""
    out = []
    try:
        while i < e:
            k, i = rd_varint(b[:e], i)
            v, i = rd_varint(b[:e], i)
            if k & 7 == 2:
                if v > e - i:
                    break
                out.append((k >> 3, i, i + v))
                i += v
            elif k & 7 != 0:
                break
            else:
                out.append((k >> 3, v, None))
    except DecodeError:
        pass
    return out


def inflated(b):
    """every range that may be taken for compressed data, in the form of spec/Accept.tla"""
    at, out = 0, {}
    while at + 4 <= len(b):
        h = at + 4
        n = struct.unpack(">I", b[at:h])[0]
        if h + n > len(b):
            break
        size = 0
        for num, s, e in loose(b, h, h + n):
            if num == 3 and e is None:
                size = s
        s = h + n
        if size > len(b) - s:
            break
        for num, i, e in loose(b, s, s + size):
            if num == 3 and e is not None:
                d = zlib.decompressobj()
                try:
                    data = d.decompress(b[i:e])
                    ok = d.eof
                except zlib.error:
                    data, ok = b"", False
                out[(i + 1, e + 1)] = {"s": i + 1, "e": e + 1, "ok": ok, "data": list(data) if ok else [], "tail": bool(d.unused_data)}
        at = s + size
    return list(out.values())
