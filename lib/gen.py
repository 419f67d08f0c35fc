"""Random .osm.pbf files, biased towards the boundaries of the formats involved."""
import osmpbf

LON_MAX = 1800000000
LAT_MAX = 900000000

BASES = [1, 1, 1, 2, 3, 100, 2**24 - 5, 2**31 - 4, 2**32 - 4, 2**33 - 4, 2**40 - 4, 9_000_000_000]
GAPS = [1, 1, 1, 1, 1, 2, 2, 3, 4, 5, 17, 256, 1000, 70000, 2**24, 2**24 + 1, 2**32]


def lonlat(rng):
    m = rng.random()
    if m < 0.12:
        return rng.choice([0, 1, -1, LON_MAX, -LON_MAX, LON_MAX - 1, 1 - LON_MAX, 255, 256, -256, 65535, -65536, 1 << 24]), \
            rng.choice([0, 1, -1, LAT_MAX, -LAT_MAX, LAT_MAX - 1, 1 - LAT_MAX, 255, 256, -256, 65535, -65536, 1 << 24])
    if m < 0.5:
        return 1512000000 + rng.randrange(-50000, 50000), -338000000 + rng.randrange(-50000, 50000)
    return rng.randrange(-LON_MAX, LON_MAX + 1), rng.randrange(-LAT_MAX, LAT_MAX + 1)


def node_ids(rng, n, base=None, gaps=None):
    i = rng.choice(BASES) if base is None else base
    mode = rng.choice(["dense", "mixed", "sparse", "even", "mixed"])
    out = []
    for _ in range(n):
        out.append(i)
        if gaps:
            i += rng.choice(gaps)
        elif mode == "dense":
            i += 1 if rng.random() < 0.97 else rng.choice(GAPS)
        elif mode == "even":
            i += 2
        elif mode == "sparse":
            i += rng.choice([3, 4, 5, 17, 1000])
        else:
            i += rng.choice(GAPS)
    return out


def coord_frame(rng, plain=False):
    """granularity and offsets under which every 1e-7 degree position is exact"""
    if plain or rng.random() < 0.6:
        return {}
    f = {"gran": rng.choice([100, 100, 1, 10, 50, 20, 25])}
    if f["gran"] == 1 and rng.random() < 0.5:          # any offset leaves every position exact
        return {"gran": 1, "latoff": rng.choice([1, 33, -77, 123456789, -90000000001]), "lonoff": rng.choice([1, 99, -1, 179999999999, 4294967297])}
    if rng.random() < 0.6:
        f["latoff"] = rng.choice([0, 100, -100, 12345600, -90000000000, 2147483700, -4294967400])
        f["lonoff"] = rng.choice([0, 100, -100, -98765400, 180000000000, 2147483600, -2147483700])
    return f


def raw_coord(pos7, frame, axis):
    """pos7 in 1e-7 degrees -> units of the block"""
    nano = pos7 * 100 - frame.get(axis + "off", 0)
    g = frame.get("gran", 100)
    assert nano % g == 0, (pos7, frame)
    return nano // g


def block_of_nodes(rng, nodes, frame=None, tags=False):
    """nodes: [(id, lon7, lat7, tags)] -> block dict"""
    frame = coord_frame(rng) if frame is None else frame
    gs = []
    i = 0
    nodes = list(nodes)
    while i < len(nodes) or not gs:
        k = len(nodes) - i if rng.random() < 0.8 else rng.randrange(0, len(nodes) - i + 1)
        gs.append({"nodes": [{"id": a, "lon": raw_coord(lo, frame, "lon"), "lat": raw_coord(la, frame, "lat"),
                              "tags": tg} for a, lo, la, tg in nodes[i:i + k]]})
        i += k
        if len(gs) > 6:
            gs.append({"nodes": [{"id": a, "lon": raw_coord(lo, frame, "lon"), "lat": raw_coord(la, frame, "lat"),
                                  "tags": tg} for a, lo, la, tg in nodes[i:]]})
            break
    b = {"groups": gs}
    b.update(frame)
    return b


def split(rng, items, nblocks):
    cuts = sorted(rng.randrange(0, len(items) + 1) for _ in range(nblocks - 1))
    out, p = [], 0
    for c in cuts + [len(items)]:
        out.append(items[p:c])
        p = c
    return out


COMP = ["zlib", "zlib", "zlib", "raw", "raw+size"]


def blob(rng, block, comp=None):
    return {"type": "OSMData", "comp": comp or rng.choice(COMP), "level": rng.choice([0, 1, 6, 9]),
            "block": block, "info": rng.random() < 0.2}


def header(rng):
    return {"type": "OSMHeader", "comp": rng.choice(COMP), "block": None}


WORDS = ["highway", "name", "residential", "é", "日本語", "a", "b", "building", "yes", "no", "ref", "source", "note",
         "created_by", "x" * 130, "with space", "%d", "=", "natural", "water", "\t", "0", "-1", "oneway"]


def word(rng, empty=0.03):
    r = rng.random()
    if r < empty:
        return ""
    if r < 0.85:
        return rng.choice(WORDS)
    return "".join(rng.choice("abcdefghij:_é%") for _ in range(rng.choice([1, 2, 5, 20, 200])))


def tags(rng, n=None, empty=0.03):
    if n is None:
        n = rng.choice([0, 0, 1, 1, 2, 3, 6])
    out, seen = [], set()
    for _ in range(n):
        k = word(rng, empty)
        if k in seen:
            continue
        seen.add(k)
        out.append([k, word(rng, empty)])
    return out


def node_tags(rng, n=None):
    """dense nodes cannot have an empty key: index 0 ends the tags of a node"""
    return [t for t in tags(rng, n) if t[0]]


def some_refs(rng, pool, n=None):
    if n is None:
        n = rng.choice([0, 1, 1, 2, 2, 3, 5, 8, 20, 120])
    out = []
    for _ in range(n):
        r = rng.random()
        if out and r < 0.12:
            out.append(out[-1])
        elif out and r < 0.2:
            out.append(out[0])
        elif pool and r < 0.9:
            out.append(rng.choice(pool))
        else:
            out.append(rng.choice([1, 2, 3, 2**31, 2**32 + 7, 2**40 + 1, 77, 12345678901]))
    return out


def way(rng, wid, pool, n=None):
    return {"id": wid, "refs": some_refs(rng, pool, n), "tags": tags(rng)}


def rel(rng, rid, pools, n=None):
    if n is None:
        n = rng.choice([0, 0, 1, 2, 3, 5, 9, 40])
    ms = []
    for _ in range(n):
        t = rng.choice([0, 1, 1, 1, 2])
        pool = pools[t]
        i = rng.choice(pool) if pool and rng.random() < 0.9 else rng.choice([1, 2, 3, 2**31 - 1, 5_000_000, 99])
        ms.append([word(rng, 0.2), i, t])
    return {"id": rid, "members": ms, "tags": tags(rng)}


def group_split(rng, items, key):
    if rng.random() < 0.75:
        return [{key: items}]
    return [{key: part} for part in split(rng, items, rng.choice([2, 3]))]


def decorate(rng, block):
    """things a reader has to skip"""
    if rng.random() < 0.1:
        block["groups"].insert(rng.randrange(len(block["groups"]) + 1), {"changesets": rng.choice([1, 3])})
    if rng.random() < 0.1:
        block["dgran"] = rng.choice([1, 500, 1000])
    return block


NODE_ID_CHOICES = [1, 2, 3, 2**31, 2**32 + 7, 2**40 + 1, 77, 12345678901]


def planet(rng, nn=None, nw=None, nr=None, mixed=0.3, way_base=None, header_p=0.9, odd=False, refs_pool=None, empties=0.15):
    """-> (blobs, node ids, way ids, relation ids) of one .osm.pbf, nodes before ways before relations"""
    nn = rng.choice([0, 1, 2, 5, 20, 60, 150]) if nn is None else nn
    nw = rng.choice([0, 1, 2, 5, 12, 40]) if nw is None else nw
    nr = rng.choice([0, 1, 2, 5, 15]) if nr is None else nr
    nids = node_ids(rng, nn)
    w0 = rng.choice([1, 1, 2, 5, 2**24, 2**31 - 1 - 3 * nw]) if way_base is None else way_base
    wids, w = [], w0
    for _ in range(nw):
        wids.append(w)
        w += rng.choice([1, 1, 1, 2, 3]) if w0 > 2**30 else rng.choice([1, 1, 1, 2, 7, 1000])
    r0 = rng.choice([1, 3, 10**7, 2**31 + 5, 2**40])
    rids, r = [], r0
    for _ in range(nr):
        rids.append(r)
        r += rng.choice([1, 1, 2, 50])
    pool = nids if refs_pool is None else refs_pool
    groups = []          # (kind, items)
    for part in split(rng, nids, rng.choice([1, 1, 2, 4])):
        groups.append(("nodes", part))
    for part in split(rng, wids, rng.choice([1, 1, 2, 3])):
        groups.append(("ways", [way(rng, i, pool) for i in part]))
    for part in split(rng, rids, rng.choice([1, 1, 2])):
        groups.append(("rels", [rel(rng, i, [nids, wids, rids]) for i in part]))
    blobs = [header(rng)] if rng.random() < header_p else []
    cur, fr = None, {}

    def flush():
        nonlocal cur
        if cur is not None:
            b = {"groups": merge(rng, cur)}
            b.update(fr)
            blobs.append(blob(rng, decorate(rng, b)))
        cur = None

    for kind, items in groups:
        if cur is not None and rng.random() >= mixed:
            flush()
        if cur is None:
            cur, fr = [], (coord_frame(rng) if not odd or rng.random() < 0.6 else odd_frame(rng))
        if kind == "nodes":
            out = []
            for i in items:
                if fr.get("odd"):
                    g = fr["gran"]
                    lo, la = rng.randrange(-179 * 10**9 // g, 179 * 10**9 // g), rng.randrange(-89 * 10**9 // g, 89 * 10**9 // g)
                else:
                    lo, la = lonlat(rng)
                    lo, la = raw_coord(lo, fr, "lon"), raw_coord(la, fr, "lat")
                out.append({"id": i, "lon": lo, "lat": la, "tags": node_tags(rng) if rng.random() < 0.4 else []})
            items = out
        cur += group_split(rng, items, kind)
        if rng.random() < empties:
            flush()
            blobs.append(blob(rng, {"groups": [] if rng.random() < 0.5 else [{rng.choice(["nodes", "ways", "rels"]): []}]}))
        if rng.random() < 0.03:
            flush()
            blobs.append(header(rng))
    flush()
    return blobs, nids, wids, rids


def merge(rng, groups):
    """now and then several kinds of entities in one group (written nodes, ways, relations)"""
    rank = {"nodes": 0, "ways": 1, "rels": 2}
    out = []
    for g in groups:
        if out and rng.random() < 0.15 and max(rank.get(k, 9) for k in out[-1]) < min(rank.get(k, -1) for k in g):
            out[-1] = dict(out[-1], **g)
        else:
            out.append(g)
    return out


def odd_frame(rng):
    return {"gran": rng.choice([1, 7, 99, 101, 150, 1000, 3]), "latoff": rng.choice([0, 1, -1, 50, -50, 99, 12345]),
            "lonoff": rng.choice([0, 1, -1, 33, -99]), "odd": True}
