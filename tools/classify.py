#!/usr/bin/env python3
"""Writes data/general.json: for which footprints of the library a property is
claimed.  Run with the interpreter that has the real mathutils, on a tree that
is believed to be right:  /opt/venv/bin/python tools/classify.py [K]

A footprint is dropped from a list when the property fails for one of K random
positions or starting vertices of the real (float32) code: there the result
depends on rounding, because several wavefront events coincide, or a clean-up
step (merging of close nodes, removal of spikes) moves nodes on purpose."""
import json
import math
import os
import random
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get("SYMX_REPO", "/repo"))
sys.path.insert(1, os.path.join(HERE, ".."))
from multiprocessing import Pool
from mathutils import Vector
from bpypolyskel import bpypolyskel as mod
from bpypolyskel.bpyeuclid import Edge2
from harness import library
from harness.common import combinatorial_errors
ALL = library.ALL
K = int(sys.argv[1]) if len(sys.argv) > 1 else 16


def run(cs):
    verts, conts = [], []
    for ct in cs:
        conts.append(list(range(len(verts), len(verts) + len(ct))))
        verts += [Vector((x, y, 0)) for x, y in ct]
    n0 = len(verts)
    faces = mod.polygonize(verts, 0, len(cs[0]), [(q[0], len(q)) for q in conts[1:]] or None, 0, 1)
    return verts, n0, faces, combinatorial_errors(faces, conts, n0, len(verts))


def segd(v, p, q):
    ux, uy = q[0] - p[0], q[1] - p[1]
    t = max(0, min(1, ((v.x - p[0]) * ux + (v.y - p[1]) * uy) / (ux * ux + uy * uy)))
    return math.hypot(v.x - p[0] - t * ux, v.y - p[1] - t * uy)


def edges(cs):
    for c in cs:
        for i, p in enumerate(c):
            yield p, c[(i + 1) % len(c)]


def skel(cs):
    cx = sum(p[0] for p in cs[0]) / len(cs[0])
    cy = sum(p[1] for p in cs[0]) / len(cs[0])
    out = []
    for c in cs:
        vs = [Vector((x - cx, y - cy)) for x, y in c]
        out.append([Edge2(vs[i], vs[(i + 1) % len(vs)]) for i in range(len(vs))])
    return mod.skeletonize(out), cx, cy


def p10(cs):
    from harness.skelgraph import graph_errors
    s, cx, cy = skel(cs)
    loc = [[(x - cx, y - cy) for x, y in c] for c in cs]
    return graph_errors(loc, [((a.source.x, a.source.y), a.height, [(q.x, q.y) for q in a.sinks]) for a in s])


def tr(x, y, k):
    """k quarter turns."""
    for _ in range(k):
        x, y = -y, x
    return (x, y)


def one(k):
    bad = set()
    cs = ALL[k]
    ref = None
    for it in range(2 * K):
        rnd = random.Random(it)
        tx, ty = (rnd.uniform(-100, 100), rnd.uniform(-100, 100)) if it else (0, 0)
        rots = [rnd.randrange(len(c)) if it % 2 else 0 for c in cs]
        turn = rnd.randrange(4) if it else 0
        mc = [[(tr(x, y, turn)[0] + tx, tr(x, y, turn)[1] + ty) for x, y in c[r:] + c[:r]] for c, r in zip(cs, rots)]
        try:
            verts, n0, faces, e = run(mc)
        except Exception:
            bad |= {"P01", "P02", "P03", "P08", "P10"}
            break
        if e:
            bad |= {"P02", "P03", "P08", "P10"}
        # names of the vertices independent of the start
        off, name = 0, {}
        for ci, (c, r) in enumerate(zip(cs, rots)):
            for j in range(len(c)):
                name[off + j] = (ci, (j + r) % len(c))
            off += len(c)
        nodes = [tr(v.x - tx, v.y - ty, -turn % 4) + (v.z,) for v in verts[n0:]]
        cnt = sorted((len(f), tuple(sorted(str(name[i]) for i in f if i < n0))) for f in faces)
        cur = (nodes, cnt)
        if ref is None:
            ref = cur
        else:
            if len(ref[0]) != len(nodes):
                bad |= {"P01", "P08"}
            elif any(min(max(abs(a[j] - b[j]) for j in range(3)) for b in ref[0]) > 0.02 for a in nodes):
                bad |= {"P01", "P08"}
            if cnt != ref[1]:
                bad.add("P08")
        dev = 0
        for f in faces:
            a, b = verts[f[0]], verts[f[1]]
            d = (b - a).xy
            n = d.length
            for i in f[2:]:
                v = verts[i]
                dev = max(dev, abs((d.x * (v.y - a.y) - d.y * (v.x - a.x)) / n - v.z))
        low = max([v.z - min(segd(v, p, q) for p, q in edges(mc)) for v in verts[n0:]], default=0)
        if dev > 0.08 or low > 0.08:
            bad.add("P02")
        if it < K and p10(mc):
            bad.add("P10")
    return k, sorted(bad)


if __name__ == "__main__":
    names = list(ALL)
    out = {p: [] for p in ("P01", "P02", "P03", "P08", "P10")}
    with Pool(8) as pool:
        for k, bad in pool.imap(one, names):
            for p in out:
                if p not in bad:
                    out[p].append(k)
    with open(os.path.join(HERE, "..", "data", "general.json"), "w") as fp:
        json.dump(out, fp, indent=0)
    print({p: len(v) for p, v in out.items()}, "of", len(names))
