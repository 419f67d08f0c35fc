"""Independent encoder/decoder for .osm.pbf, .nodeidx, .wayidx and .relidx.

Written from the OSM PBF format description and /repo/ENCODING.md, it shares no
code with the repository under test.  The conformance harness uses it to turn
abstract scenarios of the TLA+ specification into real files and real output
files back into abstract values.
"""
import random
import struct
import zlib

M64 = (1 << 64) - 1


class DecodeError(Exception):
    pass


# ---------------------------------------------------------------- primitives
def varint(n):
    n &= M64
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def zigzag(n):
    """n: python int in int64 range (wrapped) -> uint64"""
    n = to_i64(n)
    return ((n << 1) ^ (n >> 63)) & M64


def unzigzag(u):
    return to_i64((u >> 1) ^ (-(u & 1) & M64))


def to_i64(u):
    u &= M64
    return u - (1 << 64) if u >> 63 else u


def fv(num, n):
    return varint(num << 3) + varint(n)


def fb(num, data):
    return varint(num << 3 | 2) + varint(len(data)) + data


def packed(vals):
    return b"".join(varint(v) for v in vals)


def packed_delta(vals):
    out = []
    last = 0
    for v in vals:
        out.append(varint(zigzag(v - last)))
        last = v
    return b"".join(out)


def rd_varint(buf, i):
    r = 0
    s = 0
    while True:
        if i >= len(buf):
            raise DecodeError("varint past end")
        b = buf[i]
        i += 1
        r |= (b & 0x7F) << s
        if b < 0x80:
            if r > M64:
                raise DecodeError("varint overflow")
            return r, i
        s += 7
        if s > 63:
            raise DecodeError("varint too long")


def rd_packed(buf):
    i = 0
    out = []
    while i < len(buf):
        v, i = rd_varint(buf, i)
        out.append(v)
    return out


def rd_packed_delta(buf):
    out = []
    last = 0
    for v in rd_packed(buf):
        last = to_i64(last + unzigzag(v))
        out.append(last)
    return out


def fields(buf):
    i = 0
    while i < len(buf):
        k, i = rd_varint(buf, i)
        num, wt = k >> 3, k & 7
        if wt == 0:
            v, i = rd_varint(buf, i)
        elif wt == 2:
            n, i = rd_varint(buf, i)
            if i + n > len(buf):
                raise DecodeError("length past end")
            v = bytes(buf[i:i + n])
            i += n
        elif wt == 1:
            v = bytes(buf[i:i + 8])
            i += 8
        elif wt == 5:
            v = bytes(buf[i:i + 4])
            i += 4
        else:
            raise DecodeError("wire type %d" % wt)
        yield num, wt, v


# ------------------------------------------------------------------- encoder
class Strings:
    def __init__(self, order=None):
        self.idx = {"": 0}
        self.lst = [""]

    def get(self, s):
        if s not in self.idx:
            self.idx[s] = len(self.lst)
            self.lst.append(s)
        return self.idx[s]

    def encode(self):
        return b"".join(fb(1, s.encode("utf-8")) for s in self.lst)


def _join(parts, rng):
    """parts: list of encoded fields of one message; order is free in protobuf"""
    if rng is not None and rng.random() < 0.3:
        parts = parts[:]
        rng.shuffle(parts)
    return b"".join(parts)


def enc_info(rng):
    return (fv(1, rng.randrange(1, 5)) + fv(2, rng.randrange(1, 1 << 31)) +
            fv(3, rng.randrange(1 << 30)) + fv(4, rng.randrange(1, 1000)) + fv(5, 0))


def enc_dense(nodes, st, rng=None, info=False, kv=None):
    parts = [fb(1, packed_delta([n["id"] for n in nodes])),
             fb(8, packed_delta([n["lat"] for n in nodes])),
             fb(9, packed_delta([n["lon"] for n in nodes]))]
    if info:
        vers = packed([1] * len(nodes))
        ts = packed_delta([1000 + i for i in range(len(nodes))])
        parts.append(fb(5, fb(1, vers) + fb(2, ts)))
    tagged = any(n.get("tags") for n in nodes)
    if kv is None:
        kv = tagged or (rng is not None and rng.random() < 0.2)
    if kv and nodes:
        vals = []
        for n in nodes:
            for k, v in n.get("tags", []):
                vals += [st.get(k), st.get(v)]
            vals.append(0)
        parts.append(fb(10, packed(vals)))
    return _join(parts, rng)


def enc_way(w, st, rng=None, info=False):
    parts = [fv(1, w["id"])]
    if w.get("tags") or rng is None:
        parts.append(fb(2, packed([st.get(k) for k, _ in w.get("tags", [])])))
        parts.append(fb(3, packed([st.get(v) for _, v in w.get("tags", [])])))
    if info and rng is not None:
        parts.append(fb(4, enc_info(rng)))
    if w["refs"] or rng is None or rng.random() < 0.5:
        parts.append(fb(8, packed_delta(w["refs"])))
    return _join(parts, rng)


def enc_rel(r, st, rng=None, info=False):
    parts = [fv(1, r["id"])]
    if r.get("tags") or rng is None:
        parts.append(fb(2, packed([st.get(k) for k, _ in r.get("tags", [])])))
        parts.append(fb(3, packed([st.get(v) for _, v in r.get("tags", [])])))
    if info and rng is not None:
        parts.append(fb(4, enc_info(rng)))
    ms = r["members"]
    if ms or rng is None:
        parts.append(fb(8, packed([st.get(m[0]) for m in ms])))
        parts.append(fb(9, packed_delta([m[1] for m in ms])))
        parts.append(fb(10, packed([m[2] for m in ms])))
    return _join(parts, rng)


def enc_block(b, rng=None, info=False):
    """b: {"groups": [{"nodes":..}|{"ways":..}|{"rels":..}|{"changesets":n}],
           "gran","dgran","latoff","lonoff" optional, "late": whether these come after the groups;
       a group's "order" is a string over nwrc, the order in which its fields are written}"""
    st = Strings()
    gs = []
    for g in b["groups"]:
        fs = {"n": [fb(2, enc_dense(g["nodes"], st, rng, info))] if "nodes" in g else [],
              "w": [fb(3, enc_way(w, st, rng, info)) for w in g.get("ways", [])],
              "r": [fb(4, enc_rel(r, st, rng, info)) for r in g.get("rels", [])],
              "c": [fb(5, fv(1, 1000 + i)) for i in range(g.get("changesets", 0))]}
        e = b"".join(fs[k].pop(0) for k in g.get("order", ""))      # the order of the fields
        gs.append(e + b"".join(x for k in "nwrc" for x in fs[k]))
    parts = [fb(1, st.encode())] + [fb(2, g) for g in gs]
    tail = []
    if b.get("gran", 100) != 100:
        tail.append(fv(17, b["gran"]))
    if b.get("dgran", 1000) != 1000:
        tail.append(fv(18, b["dgran"]))
    if b.get("latoff", 0) != 0:
        tail.append(fv(19, b["latoff"]))
    if b.get("lonoff", 0) != 0:
        tail.append(fv(20, b["lonoff"]))
    if b.get("late") is False or "late" not in b and rng is not None and rng.random() < 0.3:
        if rng is not None:
            rng.shuffle(tail)
        return b"".join(tail + parts)
    return b"".join(parts + tail)


def enc_header(rng=None):
    return (fb(4, b"OsmSchema-V0.6") + fb(4, b"DenseNodes") + fb(16, b"verif"))


def enc_blob(payload, comp="zlib", level=6, raw_size=True):
    if comp == "zlib":
        return fv(2, len(payload)) + fb(3, zlib.compress(payload, level))
    out = fb(1, payload)
    if comp == "raw+size":
        out += fv(2, len(payload))
    return out


def enc_blob_frame(btype, blob):
    bh = fb(1, btype.encode()) + fv(3, len(blob))
    return struct.pack(">I", len(bh)) + bh + blob


def enc_file(blobs, rng=None, info=False):
    """blobs: list of {"type","comp","payload"(bytes)|"block"(dict)}"""
    out = []
    for b in blobs:
        if "payload" in b:
            p = b["payload"]
        elif b["type"] == "OSMHeader":
            p = enc_header()
        else:
            p = enc_block(b["block"], rng, b.get("info", info))
        out.append(enc_blob_frame(b["type"], enc_blob(p, b.get("comp", "zlib"), b.get("level", 6))))
    return b"".join(out)


# ------------------------------------------------------------------- decoder
def dec_frames(data):
    """-> list of {"type","enc","payload","blob"} ; raises DecodeError"""
    i = 0
    out = []
    while i < len(data):
        if i + 4 > len(data):
            raise DecodeError("truncated frame length")
        (n,) = struct.unpack(">I", data[i:i + 4])
        i += 4
        if i + n > len(data):
            raise DecodeError("truncated blob header")
        typ, size = None, None
        for num, wt, v in fields(data[i:i + n]):
            if (num, wt) == (1, 2):
                typ = v.decode()
            elif (num, wt) == (3, 0):
                size = v
            else:
                raise DecodeError("blob header field %d/%d" % (num, wt))
        i += n
        if typ is None or size is None:
            raise DecodeError("blob header incomplete (type=%r size=%r)" % (typ, size))
        if i + size > len(data):
            raise DecodeError("truncated blob")
        blob = data[i:i + size]
        i += size
        raw, rs, zd = None, None, None
        for num, wt, v in fields(blob):
            if (num, wt) == (1, 2):
                raw = v
            elif (num, wt) == (2, 0):
                rs = v
            elif (num, wt) == (3, 2):
                zd = v
            else:
                raise DecodeError("blob field %d/%d" % (num, wt))
        if raw is not None and zd is not None:
            raise DecodeError("blob has two payloads")
        if raw is not None:
            payload, enc = raw, "raw"
        elif zd is not None:
            payload, enc = zlib.decompress(zd), "zlib"
            if rs != len(payload):
                raise DecodeError("raw_size mismatch")
        else:
            raise DecodeError("blob without payload")
        out.append({"type": typ, "enc": enc, "payload": payload, "blob": blob})
    return out


def dec_block(buf):
    S = []
    groups_raw = []
    b = {"gran": 100, "dgran": 1000, "latoff": 0, "lonoff": 0}
    for num, wt, v in fields(buf):
        if (num, wt) == (1, 2):
            for n2, w2, v2 in fields(v):
                if (n2, w2) != (1, 2):
                    raise DecodeError("string table field")
                S.append(v2.decode("utf-8"))
        elif (num, wt) == (2, 2):
            groups_raw.append(v)
        elif (num, wt) == (17, 0):
            b["gran"] = to_i64(v)
        elif (num, wt) == (18, 0):
            b["dgran"] = to_i64(v)
        elif (num, wt) == (19, 0):
            b["latoff"] = to_i64(v)
        elif (num, wt) == (20, 0):
            b["lonoff"] = to_i64(v)
        else:
            raise DecodeError("primitive block field %d/%d" % (num, wt))
    b["strings"] = S

    def s(i):
        if i >= len(S):
            raise DecodeError("string index %d out of range" % i)
        return S[i]

    groups = []
    for g in groups_raw:
        cur = {}
        for num, wt, v in fields(g):
            if (num, wt) == (2, 2):
                cur.setdefault("nodes", []).extend(_dec_dense(v, s))
            elif (num, wt) == (3, 2):
                cur.setdefault("ways", []).append(_dec_way(v, s))
            elif (num, wt) == (4, 2):
                cur.setdefault("rels", []).append(_dec_rel(v, s))
            elif (num, wt) == (5, 2):
                cur["changesets"] = cur.get("changesets", 0) + 1
            else:
                raise DecodeError("group field %d/%d" % (num, wt))
        groups.append(cur)
    b["groups"] = groups
    return b


def _dec_dense(buf, s):
    ids, lat, lon, kv, info = [], [], [], [], False
    for num, wt, v in fields(buf):
        if (num, wt) == (1, 2):
            ids = rd_packed_delta(v)
        elif (num, wt) == (8, 2):
            lat = rd_packed_delta(v)
        elif (num, wt) == (9, 2):
            lon = rd_packed_delta(v)
        elif (num, wt) == (10, 2):
            kv = rd_packed(v)
        elif (num, wt) == (5, 2):
            info = True
        else:
            raise DecodeError("dense field %d/%d" % (num, wt))
    if not (len(ids) == len(lat) == len(lon)):
        raise DecodeError("dense arrays differ in length")
    nodes = [{"id": ids[i], "lat": lat[i], "lon": lon[i], "tags": []} for i in range(len(ids))]
    if kv:
        n = 0
        i = 0
        while i < len(kv):
            if kv[i] == 0:
                n += 1
                i += 1
            else:
                if i + 1 >= len(kv) or n >= len(nodes):
                    raise DecodeError("keys_vals malformed")
                nodes[n]["tags"].append([s(kv[i]), s(kv[i + 1])])
                i += 2
        if n != len(nodes):
            raise DecodeError("keys_vals has %d terminators for %d nodes" % (n, len(nodes)))
    return nodes


def _dec_way(buf, s):
    w = {"id": 0, "refs": [], "tags": []}
    k, vv = [], []
    for num, wt, v in fields(buf):
        if (num, wt) == (1, 0):
            w["id"] = to_i64(v)
        elif (num, wt) == (2, 2):
            k = rd_packed(v)
        elif (num, wt) == (3, 2):
            vv = rd_packed(v)
        elif (num, wt) == (8, 2):
            w["refs"] = rd_packed_delta(v)
        elif (num, wt) == (4, 2):
            pass
        else:
            raise DecodeError("way field %d/%d" % (num, wt))
    if len(k) != len(vv):
        raise DecodeError("way keys/vals differ in length")
    w["tags"] = [[s(a), s(b)] for a, b in zip(k, vv)]
    return w


def _dec_rel(buf, s):
    r = {"id": 0, "members": [], "tags": []}
    k, vv, roles, ids, types = [], [], [], [], []
    for num, wt, v in fields(buf):
        if (num, wt) == (1, 0):
            r["id"] = to_i64(v)
        elif (num, wt) == (2, 2):
            k = rd_packed(v)
        elif (num, wt) == (3, 2):
            vv = rd_packed(v)
        elif (num, wt) == (8, 2):
            roles = rd_packed(v)
        elif (num, wt) == (9, 2):
            ids = rd_packed_delta(v)
        elif (num, wt) == (10, 2):
            types = rd_packed(v)
        elif (num, wt) == (4, 2):
            pass
        else:
            raise DecodeError("relation field %d/%d" % (num, wt))
    if len(k) != len(vv) or not (len(roles) == len(ids) == len(types)):
        raise DecodeError("relation arrays differ in length")
    r["tags"] = [[s(a), s(b)] for a, b in zip(k, vv)]
    r["members"] = [[s(a), i, t] for a, i, t in zip(roles, ids, types)]
    return r


# --------------------------------------------------------------- Morton words
def morton_encode(lon, lat):
    """ENCODING.md: longitude in the even bits, latitude in the odd bits, top bit
    forced.  (The shift of the latitude described there is not done by the code:
    the top bit simply replaces the redundant copy of the sign bit.)"""
    x = lon & 0xFFFFFFFF
    y = (lat & 0xFFFFFFFF) | 0x80000000
    r = 0
    for i in range(32):
        r |= ((x >> i) & 1) << (2 * i)
        r |= ((y >> i) & 1) << (2 * i + 1)
    return to_i64(r)


def _build_compact():
    t = []
    for b in range(256):
        e = (b & 1) | (b >> 1 & 2) | (b >> 2 & 4) | (b >> 3 & 8)
        o = (b >> 1 & 1) | (b >> 2 & 2) | (b >> 3 & 4) | (b >> 4 & 8)
        t.append((e, o))
    return t


_COMPACT = _build_compact()


def morton_decode(word):
    """signed or unsigned 64 bit word -> (lon, lat) in 1e-7 degrees, or None when
    the word is not a location (top bit clear)"""
    u = word & M64
    if not u >> 63:
        return None
    e = o = 0
    for i in range(8):
        a, b = _COMPACT[(u >> (8 * i)) & 0xFF]
        e |= a << (4 * i)
        o |= b << (4 * i)
    lon = e - (1 << 32) if e >> 31 else e
    lat = o & 0x7FFFFFFF
    if lat >> 30:
        lat -= 1 << 31
    return lon, lat


# ------------------------------------------------------------------ index files
def dec_nodeidx(data):
    """-> (version, elements [(first, count, offset)], words [int64])"""
    if len(data) < 16:
        raise DecodeError("nodeidx shorter than its header")
    if len(data) % 8:
        raise DecodeError("nodeidx not a whole number of words")
    ver, n = struct.unpack("<qq", data[:16])
    if n < 0 or 16 + 16 * n > len(data):
        raise DecodeError("nodeidx element count %d past end" % n)
    el = []
    for i in range(n):
        first, co = struct.unpack("<QQ", data[16 + 16 * i:32 + 16 * i])
        el.append((first, co & 0xFFFFFF, co >> 24))
    body = data[16 + 16 * n:]
    words = list(struct.unpack("<%dq" % (len(body) // 8), body))
    return ver, el, words


def dec_wayidx(data):
    """-> (shift, entries [(way, byte offset)], loc bytes)"""
    if len(data) < 16:
        raise DecodeError("wayidx shorter than its header")
    n, shift = struct.unpack("<qq", data[:16])
    if n < 0 or shift < 0 or shift > 60 or 16 + 8 * n > len(data):
        raise DecodeError("wayidx header implausible: count=%d shift=%d" % (n, shift))
    ents = []
    for i in range(n):
        (w,) = struct.unpack("<Q", data[16 + 8 * i:24 + 8 * i])
        ents.append((w >> 33, (w & 0x1FFFFFFFF) << shift))
    return shift, ents, data[16 + 8 * n:]


def dec_waylocs(loc, off):
    """delta varints terminated by a zero varint, from byte offset off"""
    out = []
    last = 0
    i = off
    while True:
        v, i = rd_varint(loc, i)
        if v == 0:
            return out, i
        last = to_i64(last + unzigzag(v))
        out.append(last)


def dec_relidx(data):
    """-> list of (rel id, [(way id, [words])])  (way id is present in the file
    although ENCODING.md does not list it)"""
    if len(data) % 8:
        raise DecodeError("relidx not a whole number of words")
    u = struct.unpack("<%dq" % (len(data) // 8), data)
    i = 0
    out = []

    def take():
        nonlocal i
        if i >= len(u):
            raise DecodeError("relidx ends inside a record")
        i += 1
        return u[i - 1]

    while i < len(u):
        rid = take()
        n = take()
        if n < 0 or n > len(u):
            raise DecodeError("relidx way count %d" % n)
        ways = []
        for _ in range(n):
            wid = take()
            c = take()
            if c < 0 or i + c > len(u):
                raise DecodeError("relidx location count %d" % c)
            ways.append((wid, list(u[i:i + c])))
            i += c
        out.append((rid, ways))
    return out
