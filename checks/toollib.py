"""Whole command lines: a planet, the files made from it, and how each tool is run over them."""
import hashlib
import os
import subprocess

import gen
import osmpbf
import rewritelib
import vf


def rest(p):
    return p


class World:
    """planet -> n.idx, rewritten pbf, way index, all in one directory"""

    def __init__(self, ctx, label, blobs, d=None, T=None):
        self.label, self.dir = label, d or ctx.fresh("world")
        T = T or ctx.tools()
        self.pbf, self.nidx, self.rew, self.widx = (os.path.join(self.dir, x) for x in ("p.pbf", "p.nidx", "p.rew.pbf", "p.widx"))
        with open(self.pbf, "wb") as f:
            f.write(osmpbf.enc_file(blobs, rng=None))
        for a in ([os.path.join(T, "nodeindex"), "-i", self.pbf, "-o", self.nidx],
                  [os.path.join(T, "rewritenodes"), "-i", self.pbf, "-x", self.nidx, "-o", self.rew],
                  [os.path.join(T, "wayindex"), "-i", self.rew, "-o", self.widx]):
            r = vf.run(a + ["-r", "0"], timeout=300)
            if r.rc != 0:
                raise vf.ToolFailed("%s on %s: %s" % (a[0], label, r.brief()))

    def cases(self):
        """name of the case -> (tool, arguments, writes a file)"""
        p, n, w, x = self.pbf, self.nidx, self.rew, self.widx
        return {
            "nodeindex": ("nodeindex", ["-i", p], True),
            "rewritenodes": ("rewritenodes", ["-i", p, "-x", n], True),
            "wayindex": ("wayindex", ["-i", w], True),
            "wayindex -a 0": ("wayindex", ["-i", w, "-a", "0"], True),
            "wayindex -a 5": ("wayindex", ["-i", w, "-a", "5"], True),
            "relindex": ("relindex", ["-i", p, "-x", x], True),
            "relindex -p 3": ("relindex", ["-i", p, "-x", x, "-p", "3"], True),
            "tagfilter": ("tagfilter", ["-i", p], True),
            "decompress": ("decompress", ["-i", p], True),
            "entitycount": ("entitycount", ["-i", p], False),
            "blockcount": ("blockcount", ["-i", p], False),
        }


def skewed(rng, blocks=40):
    """blocks of very different size, so that workers overtake each other"""
    blobs = [gen.header(rng)]
    nid, pool = 1, []
    for i in range(blocks):
        n = rng.choice([1, 1, 2, 5, 2000])
        ns = []
        for _ in range(n):
            lo, la = gen.lonlat(rng)
            ns.append({"id": nid, "lon": lo, "lat": la, "tags": gen.node_tags(rng) if rng.random() < 0.2 else []})
            pool.append(nid)
            nid += rng.choice([1, 1, 1, 1, 2, 5])
        blobs.append(gen.blob(rng, {"groups": [{"nodes": ns}]}))
    wid, wpool = 1, []
    for i in range(blocks):
        ws = []
        for _ in range(rng.choice([1, 1, 2, 300])):
            ws.append(gen.way(rng, wid, pool, n=rng.choice([0, 2, 3, 10, 60])))
            wpool.append(wid)
            wid += rng.choice([1, 1, 1, 2, 9])
        blobs.append(gen.blob(rng, {"groups": [{"ways": ws}]}))
    rid = 1
    for i in range(blocks // 2):
        rs = []
        for _ in range(rng.choice([1, 1, 3, 60])):
            rs.append(gen.rel(rng, rid, [pool, wpool, [1, 2, 3]]))
            rid += rng.choice([1, 2])
        blobs.append(gen.blob(rng, {"groups": [{"rels": rs}]}))
    return blobs


def digest(p):
    h = hashlib.sha1()
    with open(p, "rb") as f:
        for b in iter(lambda: f.read(1 << 20), b""):
            h.update(b)
    return h.hexdigest()[:16]


def tool(T, name, args, out=None, ui=False, env=None, cpus=None, timeout=300):
    cmd = [os.path.join(T, name)] + args + (["-o", out] if out else [])
    if name not in ("entitycount", "blockcount", "entityfind", "dumpnodeindex", "dumpwayindex") and not ui:
        cmd += ["-r", "0"]
    if cpus:
        cmd = ["taskset", "-c", cpus] + cmd
    return vf.run(cmd, timeout=timeout, env=env)
