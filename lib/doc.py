"""Files as abstract documents: entities whose parts are interned, so that TLC compares
small integers (equal content <=> equal number)."""
import osmpbf


class Intern:
    """injective numbering of values; 0 is never used"""

    def __init__(self):
        self.d = {}

    def __call__(self, v):
        n = self.d.get(v)
        if n is None:
            n = self.d[v] = len(self.d) + 1
        return n


class Values:
    """numbering of strings and of 64 bit ids; an id's number points into `words`"""

    def __init__(self):
        self.s = Intern()
        self.i = Intern()
        self.c = Intern()

    def limbs(self):
        return [limbs(v) for v in self.i.d]


def limbs(v):
    u = v & osmpbf.M64
    return [u & 0xFFFF, u >> 16 & 0xFFFF, u >> 32 & 0xFFFF, u >> 48]


def tags(V, t):
    return [[V.s(k), V.s(v)] for k, v in t]


def node(V, b, n):
    g = b.get("gran", 100)
    return [1, V.i(n["id"]), V.c(b.get("lonoff", 0) + g * n["lon"]), V.c(b.get("latoff", 0) + g * n["lat"]),
            tags(V, n.get("tags", []))]


def way(V, w, refs):
    return [2, V.i(w["id"]), tags(V, w.get("tags", [])), refs(w["refs"])]


def rel(V, r):
    return [3, V.i(r["id"]), tags(V, r.get("tags", [])), [[V.s(m[0]), V.i(m[1]), m[2]] for m in r["members"]]]


def entities(V, b, refs):
    """the entities of a block in order; groups are not part of the abstraction"""
    out = []
    for g in b["groups"]:
        for n in g.get("nodes", []):
            out.append(node(V, b, n))
        for w in g.get("ways", []):
            out.append(way(V, w, refs))
        for r in g.get("rels", []):
            out.append(rel(V, r))
    return out


def decode(data):
    """-> list of (type, payload bytes, block or None); raises osmpbf.DecodeError"""
    out = []
    for f in osmpbf.dec_frames(data):
        b = None
        if f["type"] == "OSMData":
            try:
                b = osmpbf.dec_block(f["payload"])
            except (UnicodeDecodeError, IndexError, ValueError) as e:
                raise osmpbf.DecodeError(str(e))
        out.append((f["type"], f["payload"], b, f))
    return out
