"""P10: the skeleton as a graph."""
from .api import *
from .families import S
from .library import ALL, OWN, REPO, GENERAL
from .registry import add
from .h_api import moved, lib, fams, flat, EXACT
from .skelgraph import graph_errors


def p10_body(box, boxy, starts):
    def body(ctx, m, cs):
        tx = ctx.real("tx", -box, box)
        ty = ctx.real("ty", -boxy, boxy) if boxy else 0.0
        r = ctx.choice("start", [0, 1]) * (len(cs[0]) // 2) if starts else 0
        cen = (sum(p[0] for p in cs[0]) / len(cs[0]), sum(p[1] for p in cs[0]) / len(cs[0]))
        loc = moved([cs[0][r:] + cs[0][:r]] + cs[1:], -cen[0], -cen[1])
        sk = call(ctx, "skeletonize", m.pk.skeletonize, edge_contours(m, moved(loc, tx, ty)))
        ns = [((flat(a.source.x - tx), flat(a.source.y - ty)), flat(a.height), [(flat(s.x - tx), flat(s.y - ty)) for s in a.sinks]) for a in sk]
        e = graph_errors(loc, ns)
        ctx.require(e is None, "skeleton: %s" % e)
    body.__doc__ = "Centroid of the outer contour anywhere within %g (x) and %g (y) of the origin, where polygonize puts it; %s." % (
        box, boxy, "two starting vertices" if starts else "one starting vertex")
    return body


# the library compares points relative to their distance from the origin, which splits paths: smaller boxes for large footprints
_n = {k: sum(map(len, ALL[k])) for k in GENERAL["P10"]}
_small = [k for k in _n if _n[k] <= 12]
lib("P10", _small, p10_body(0.5, 0.5, True))
lib("P10", [k for k in _n if k not in _small], p10_body(0.02, 0, False))
lib("P10", [k for k in _n if 12 < _n[k] <= 24], p10_body(0.5, 0.5, True), prefix="wide_", tier="thorough", cost=3)


def p10_fam(ctx, m, cs):
    """All side lengths of the family: heights, distances, connections, tree or one cycle per hole."""
    sk = call(ctx, "skeletonize", m.pk.skeletonize, edge_contours(m, cs))
    edges = list(edges_of(cs))
    pts = [p for c in cs for p in c]
    nc = len(pts)
    pts += [(a.source.x, a.source.y) for a in sk]

    def dist(v, p, q):
        ux, uy = q[0] - p[0], q[1] - p[1]
        return (ux * (v[1] - p[1]) - uy * (v[0] - p[0])) / ctx.sqrt(ux * ux + uy * uy)
    for i, a in enumerate(sk):
        v = (a.source.x, a.source.y)
        ctx.require(a.height > 0, "node %d without height" % i)
        near = 0
        for p, q in edges:
            d = dist(v, p, q)
            if ctx.is_true(ctx.close(d, a.height, 0.1)):
                near += 1
            dx, dy = q[0] - p[0], q[1] - p[1]
            s = dx * (v[0] - p[0]) + dy * (v[1] - p[1])
            ctx.require(ctx.Or(s < 0, s > dx * dx + dy * dy, d >= a.height - 0.1, d <= -a.height + 0.1),
                        "node %d is nearer to an edge than its height" % i)
        ctx.require(near >= 3, "the height of node %d is its distance from %d edges only" % (i, near))
    E = set()
    deg = [0] * len(pts)
    par = list(range(len(pts)))

    def find(a):
        while par[a] != a:
            a = par[a]
        return a
    for i, a in enumerate(sk):
        for s in a.sinks:
            js = [j for j, p in enumerate(pts) if ctx.is_true(ctx.And(ctx.close(p[0], s[0], 0.001), ctx.close(p[1], s[1], 0.001)))]
            ctx.require(len(js) >= 1, "node %d is connected to a point that is neither footprint vertex nor node" % i)
            j = js[0]
            e = (min(j, nc + i), max(j, nc + i))
            ctx.require(e[0] != e[1] and e not in E, "connection %s twice or to itself" % (e,))
            E.add(e)
            deg[j] += 1
            par[find(j)] = find(nc + i)
    for j in range(nc):
        ctx.require(deg[j] == 1, "footprint vertex %d has %d connections" % (j, deg[j]))
    ctx.require(len({find(j) for j in range(len(pts))}) == 1, "the skeleton is not connected")
    ctx.require(len(E) == len(pts) + len(cs) - 2, "%d connections between %d points" % (len(E), len(pts)))


# (in tshape the corners of a stem meet between collinear shoulders, all at the same time: not in general position)
fams("P10", [k for k in EXACT if k != "tshape"] + ["tshape2"], p10_fam)
