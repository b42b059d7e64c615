"""P16 event queue, P17 geometric primitives, P21 crossing count."""
import itertools

from .common import *
from .registry import add, harness


# ------------------------------------------------------------------- P16 --
def make_event(m, kind, d):
    pk = m.pk
    p = m.Vector((1.0, 2.0))
    if kind == "S":
        return need(None, pk, "_SplitEvent")(d, p, None, None)
    if kind == "E":
        return pk._EdgeEvent(d, p, None, None)
    return pk.DormerEvent(d, p, [])


KINDS = ["SSSSS", "EEEEE", "ESDES", "DESDE", "DDSED", "SEESD"]


def p16(n, kinds, ops):
    """All distances in [0,100] of the events put in, kinds of the events and interleaving of puts (p), puts of a missing
    event (n), puts of several events at once (q: two), gets (g) and batches (b) as named; afterwards the queue is
    emptied by gets."""
    def fn(ctx, m):
        Q = need(ctx, m.pk, "_EventQueue")
        need(ctx, m.pk, "_SplitEvent", "_EdgeEvent", "DormerEvent")
        for a in ("put", "put_all", "get", "getAllEqualDistance", "empty"):
            need(ctx, Q, a)
        ks = ctx.choice("kinds", kinds)
        sched = ctx.choice("ops", ops)
        q = Q()
        ds = [ctx.real("d%d" % i, 0, 100) for i in range(n)]
        for i in range(n):
            for j in range(i):
                e = ds[i] - ds[j]
                # not right at the limit of simultaneity, which rounding decides
                ctx.assume(ctx.And(*[ctx.Or(e < s * 0.001 - 1e-5, e > s * 0.001 + 1e-5) for s in (1, -1)]))
        inside = []
        k = 0

        def pop_checked(item):
            hit = [x for x in inside if x is item]
            ctx.require(len(hit) == 1, "an event came out that was not in the queue (or twice)")
            for x in inside:
                ctx.require(item.distance <= x.distance, "an event came out before a nearer one")
            inside[:] = [x for x in inside if x is not item]
        for op in sched:
            if op in "gb" and not inside:
                continue
            if op == "q" and k + 1 >= n:
                op = "p"
            if op == "p" and k >= n:
                continue
            ctx.require(bool(q.empty()) == (not inside), "empty() is wrong")
            if op == "p" or op == "q":
                new = []
                for _ in range(1 if op == "p" else 2):
                    new.append(make_event(m, ks[k % len(ks)], ds[k]))
                    k += 1
                if op == "p":
                    call(ctx, "put", q.put, new[0])
                else:
                    call(ctx, "put_all", q.put_all, new)
                inside += new
            elif op == "n":
                call(ctx, "put", q.put, None)
            elif op == "g":
                pop_checked(call(ctx, "get", q.get))
            elif op == "b":
                got = list(call(ctx, "getAllEqualDistance", q.getAllEqualDistance))
                ctx.require(len(got) >= 1, "empty batch")
                first = got[0]
                pop_checked(first)
                for x in got[1:]:
                    ctx.require(x.distance - first.distance < 0.001, "an event too far off is in the batch")
                    pop_checked(x)
                for x in inside:
                    ctx.require(x.distance - first.distance > 0.001, "a simultaneous event is missing in the batch")
        while inside:
            ctx.require(not q.empty(), "events are lost")
            pop_checked(call(ctx, "get", q.get))
        ctx.require(bool(q.empty()), "events are left over")
    fn.__doc__ = p16.__doc__
    return fn


OPS3 = ["pppggg", "pppb", "ppgpgg", "pbppb", "npngpnpgg", "qpb", "qbpb", "qgpg", "ppppgggg"[:6]]
add("P16", "three", p16(3, [k[:3] for k in KINDS], OPS3), mode="exact")
add("P16", "four", p16(4, ["ESDE", "SSEE"], ["ppppgggg", "qqb", "ppbppb", "ppgpbpb", "qpgpb", "qgqgb"]), mode="exact", cost=3)
add("P16", "five", p16(5, ["ESDES"], ["pppppb", "qqgpb"]), mode="exact", tier="thorough", cost=5)
add("P16", "five_q", p16(5, ["DESED"], ["qqpbb"]), mode="exact", cost=5)


# ------------------------------------------------------------------- P17 --
def V(ctx, m, name, lo=-50, hi=50):
    return m.Vector((ctx.real(name + ".x", lo, hi), ctx.real(name + ".y", lo, hi)))


def direction(ctx, m, name):
    """A vector that is not tiny."""
    v = V(ctx, m, name, -3, 3)
    ctx.assume(ctx.Or(v.x >= 0.2, v.x <= -0.2, v.y >= 0.2, v.y <= -0.2))
    return v


def mk_line(ctx, m, kind, p, v):
    L, Rr = need(ctx, m.eu, "Line2", "Ray2")
    return L(p, v, "pv") if kind == "L" else Rr(p, v)


def away(ctx, x, eps):
    return ctx.Or(x > eps, x < -eps)


def p17_meet(ctx, m):
    """All origins in [-50,50]^2 and directions in [-3,3]^2 of two lines or rays."""
    ka = ctx.choice("a", ["L", "R"])
    kb = ctx.choice("b", ["L", "R"])
    ap, av, bp, bv = V(ctx, m, "ap"), direction(ctx, m, "av"), V(ctx, m, "bp"), direction(ctx, m, "bv")
    A, B = mk_line(ctx, m, ka, ap.copy(), av.copy()), mk_line(ctx, m, kb, bp.copy(), bv.copy())
    d = cross2(av.x, av.y, bv.x, bv.y)
    ctx.assume(away(ctx, d, 0.05))
    i = call(ctx, "intersect", A.intersect, B)
    dx, dy = bp.x - ap.x, bp.y - ap.y
    ta = cross2(dx, dy, bv.x, bv.y)         # times 1/d: parameter on A
    tb = cross2(dx, dy, av.x, av.y)
    okA = True if ka == "L" else (ta >= 0 if ctx.is_true(d > 0) else ta <= 0)
    okB = True if kb == "L" else (tb >= 0 if ctx.is_true(d > 0) else tb <= 0)
    # not within a hair of an origin
    for k, t in ((ka, ta), (kb, tb)):
        if k == "R":
            ctx.assume(away(ctx, t, 0.01))
    meets = ctx.And(okA, okB)
    if i is None:
        ctx.require(ctx.Not(meets), "lines that meet are said not to")
        return
    ctx.require(meets, "rays meet behind an origin")
    ctx.require(ctx.close(cross2(i.x - ap.x, i.y - ap.y, av.x, av.y), 0, 0.02), "the point is not on the first line")
    ctx.require(ctx.close(cross2(i.x - bp.x, i.y - bp.y, bv.x, bv.y), 0, 0.02), "the point is not on the second line")


add("P17", "meet", p17_meet, mode="exact", cost=4)


def p17_slight(ctx, m):
    """Lines and rays in all positions whose directions differ by 0.006 to 3 degrees; lines also with direction vectors as
    short as 0.001."""
    ka = ctx.choice("a", ["L", "R"])
    kb = ctx.choice("b", ["L", "R"])
    e = ctx.choice("slope", [0.0001, -0.0003, 0.002, -0.05])
    ux, uy = ctx.choice("dir", [(1, 0), (0, 1), (-0.6, 0.8)])
    s = ctx.choice("scale", [1.0, 0.03] if (ka, kb) == ("L", "L") else [1.0])
    ap, bp = V(ctx, m, "ap"), V(ctx, m, "bp")
    av = m.Vector((ux * s, uy * s))
    bv = m.Vector(((ux - uy * e) * s, (uy + ux * e) * s))
    A, B = mk_line(ctx, m, ka, ap.copy(), av.copy()), mk_line(ctx, m, kb, bp.copy(), bv.copy())
    i = call(ctx, "intersect", A.intersect, B)
    # in the frame of the first line: how far is b off it, where along it do they meet?
    dx, dy = bp.x - ap.x, bp.y - ap.y
    along, off = dx * ux + dy * uy, dy * ux - dx * uy
    tb = -off * (1 / e)
    ta = along + tb
    meets = True
    for k, t in ((ka, ta), (kb, tb)):
        if k == "R":
            pos = ctx.is_true(t > 0)
            ctx.assume(t > 0.5 if pos else t < -0.5)
            meets = meets and pos
    if i is None:
        ctx.require(not meets, "lines that meet at a small angle are said not to")
        return
    ctx.require(meets, "rays meet behind an origin")
    ctx.assume(ctx.And(ta < 1000, ta > -1000))
    ctx.require(ctx.close((i.x - ap.x) * uy - (i.y - ap.y) * ux, 0, 0.02), "the point is not on the first line")
    ctx.require(ctx.close((i.x - bp.x) * bv.y - (i.y - bp.y) * bv.x, 0, 0.02), "the point is not on the second line")


add("P17", "slight", p17_slight, mode="exact")


def p17_origin(ctx, m):
    """Two rays that meet in the origin of one of them or of both, or less than 2e-6 behind it, as rounding does: they meet."""
    ux, uy = ctx.choice("dir", [(1, 0), (0, 1), (-0.6, 0.8)])
    k = ctx.choice("other", [(0, 1), (1, 1), (-0.5, 2)])
    e = ctx.real("e", 0, 2e-6)
    back = ctx.choice("back", [0, 1, 3.5])      # the other origin lies this far behind the meeting point
    wx, wy = k[0] * ux - k[1] * uy, k[0] * uy + k[1] * ux
    p = (-e * ux, -e * uy)                      # where they meet, seen from the first origin
    A = mk_line(ctx, m, "R", m.Vector((0, 0)), m.Vector((ux, uy)))
    B = mk_line(ctx, m, "R", m.Vector((p[0] - back * wx, p[1] - back * wy)), m.Vector((wx, wy)))
    for x, y in ((A, B), (B, A)):
        i = call(ctx, "intersect", x.intersect, y)
        ctx.require(i is not None, "rays that meet in the origin of one of them up to rounding are said not to")
        ctx.require(ctx.And(ctx.close(i.x, p[0], 1e-3), ctx.close(i.y, p[1], 1e-3)), "the meeting point is wrong")


add("P17", "origin", p17_origin, mode="exact")


def p17_parallel(ctx, m):
    """Lines and rays in the same or opposite direction, all origins and all scales of the direction."""
    ka = ctx.choice("a", ["L", "R"])
    kb = ctx.choice("b", ["L", "R"])
    ux, uy = ctx.choice("dir", [(1, 0), (0, 1), (1, 1), (-1, 1), (2, 1), (3, -4)])
    k = ctx.choice("factor", [1, 2, -1, -4])    # exact in floating point
    ap, bp = V(ctx, m, "ap"), V(ctx, m, "bp")
    A = mk_line(ctx, m, ka, ap, m.Vector((ux, uy)))
    B = mk_line(ctx, m, kb, bp, m.Vector((k * ux, k * uy)))
    ctx.require(call(ctx, "intersect", A.intersect, B) is None, "parallel lines meet")


add("P17", "parallel", p17_parallel, mode="exact")


def p17_segments(ctx, m):
    """Line2 made of an edge, a ray: the line through its points."""
    how = ctx.choice("from", ["edge", "ray", "line"])
    L, Rr, E = need(ctx, m.eu, "Line2", "Ray2", "Edge2")
    a, v = V(ctx, m, "a"), direction(ctx, m, "v")
    b = a + v
    if how == "edge":
        src = E(a.copy(), b.copy(), m.Vector((1, 0)))
    elif how == "ray":
        src = Rr(a.copy(), v.copy())
    else:
        src = L(a.copy(), v.copy(), "pv")
    l = call(ctx, "Line2", L, src)
    l2 = L(m.Vector((0, -7)), m.Vector((0, 1)), "pv")
    ctx.assume(away(ctx, v.x, 0.2))
    i = call(ctx, "intersect", l.intersect, l2)
    ctx.require(i is not None, "crossing lines do not meet")
    ctx.require(ctx.close(cross2(i.x - a.x, i.y - a.y, v.x, v.y), 0, 0.02), "the line of an edge or ray is another one")
    ctx.require(ctx.close(i.x, 0, 0.01), "the point is not on the other line")


add("P17", "line_of", p17_segments, mode="exact")


def p17_distance(ctx, m):
    """All points, lines given by a point, a direction and a factor k in [-5,5] away from 0."""
    L = need(ctx, m.eu, "Line2")
    a, v, q = V(ctx, m, "a"), direction(ctx, m, "v"), V(ctx, m, "q")
    k = ctx.real("k", -5, 5)
    ctx.assume(away(ctx, k, 0.2))
    d = call(ctx, "distance", L(a.copy(), v * k, "pv").distance, q.copy())
    c = cross2(q.x - a.x, q.y - a.y, v.x, v.y)
    ctx.require(d >= 0, "negative distance")
    ctx.require(ctx.close(d * d * (v.x * v.x + v.y * v.y), c * c, 0.5), "not the perpendicular distance")


add("P17", "distance", p17_distance, mode="exact")


def p17_distance_edge(ctx, m):
    """Distance from the line of an edge (as in the event simulation), all edges and points."""
    L, E = need(ctx, m.eu, "Line2", "Edge2")
    a, v, q = V(ctx, m, "a"), direction(ctx, m, "v"), V(ctx, m, "q")
    d = call(ctx, "distance", L(E(a.copy(), a + v)).distance, q.copy())
    c = cross2(q.x - a.x, q.y - a.y, v.x, v.y)
    ctx.require(d >= 0, "negative distance")
    ctx.require(ctx.close(d * d * (v.x * v.x + v.y * v.y), c * c, 0.5), "not the perpendicular distance")


add("P17", "distance_edge", p17_distance_edge, mode="exact")


def signs(ctx, a, b, c, d, eps):
    """Properly crossing?  Branches on the side every end lies on; ends on the line of the other segment are assumed away."""
    def side(p, q, r):
        return cross2(q.x - p.x, q.y - p.y, r.x - p.x, r.y - p.y)
    out = []
    for x in (side(a, b, c), side(a, b, d), side(c, d, a), side(c, d, b)):
        pos = ctx.is_true(x > 0)
        ctx.assume(x >= eps if pos else x <= -eps)
        out.append(pos)
    return out[0] != out[1] and out[2] != out[3]


DIRS = [(6, 0), (3, 4), (-1, 7), (-5, -2), (0, -4)]


def two_segments(ctx, m):
    """ab in every position, of a few lengths and directions; c and d anywhere within 10 of a."""
    a = V(ctx, m, "a", -20, 20)
    u = m.Vector(ctx.choice("dir", DIRS))
    return a, a + u, a + V(ctx, m, "c", -10, 10), a + V(ctx, m, "d", -10, 10)


def p17_segtest(ctx, m):
    """A segment of 5 directions and lengths in all positions, both ends of the other within 10 of its start, no end on the
    line of the other segment; each order of the arguments."""
    f = need(ctx, m.eu, "intersect")
    a, b, c, d = two_segments(ctx, m)
    want = signs(ctx, a, b, c, d, 0.1)
    for q in ((a, b, c, d), (b, a, c, d), (a, b, d, c), (c, d, a, b), (d, c, b, a)):
        got = bool(call(ctx, "intersect", f, *q))
        ctx.require(got == want, "segment test %s" % got)


add("P17", "segtest", p17_segtest, mode="exact", cost=3)


def p17_edge(ctx, m):
    """Edges of all ends; given as vectors or as indices into a list of 3D vertices, with and without a centre, with the
    direction given or not."""
    E = need(ctx, m.eu, "Edge2")
    how = ctx.choice("how", ["vectors", "vectors3", "indices", "centre", "norm", "norm3"])
    a, v = V(ctx, m, "a"), direction(ctx, m, "v")
    b = a + v
    c = m.Vector((0.0, 0.0, 0.0))
    if how in ("vectors", "norm"):
        n = m.Vector((0.6, 0.8)) if how == "norm" else None
        e = call(ctx, "Edge2", E, a.copy(), b.copy(), n)
    elif how == "vectors3":
        n = None
        e = call(ctx, "Edge2", E, m.Vector((a.x, a.y, ctx.real("z", -50, 50))), m.Vector((b.x, b.y, ctx.real("zb", -50, 50))))
    else:
        z, zb = ctx.real("z", -50, 50), ctx.real("zb", -50, 50)
        vs = [m.Vector((9, 9, 9)), m.Vector((b.x, b.y, zb)), m.Vector((5, 5, 5)), m.Vector((a.x, a.y, z))]
        n = m.Vector((0.6, 0.8, 0.0)) if how == "norm3" else None
        if how == "centre":
            c = m.Vector((ctx.real("c.x", -9, 9), ctx.real("c.y", -9, 9), 0.0))
            e = call(ctx, "Edge2", E, 3, 1, n, vs, c)
        else:
            e = call(ctx, "Edge2", E, 3, 1, n, vs, c)
        ctx.require(e.i1 == 3 and e.i2 == 1, "indices of the edge")
        ctx.require(ctx.And(ctx.close(vs[3].x, a.x), ctx.close(vs[1].y, b.y), ctx.close(vs[3].z, z), ctx.close(vs[1].z, zb)), "the vertices are changed")
    ctx.require(ctx.And(ctx.close(e.p1.x, a.x - c.x), ctx.close(e.p1.y, a.y - c.y), ctx.close(e.p2.x, b.x - c.x), ctx.close(e.p2.y, b.y - c.y)),
                "ends of the edge")
    ctx.require(len(e.p1) == 2 and len(e.p2) == 2 and len(e.norm) == 2, "the edge is not 2D")
    if n is not None:
        ctx.require(ctx.And(ctx.close(e.norm.x, 0.6), ctx.close(e.norm.y, 0.8)), "the given direction is not used")
    else:
        ctx.require(ctx.close(e.norm.x * e.norm.x + e.norm.y * e.norm.y, 1, 0.001), "the direction is not a unit vector")
        ctx.require(ctx.close(cross2(e.norm.x, e.norm.y, v.x, v.y), 0, 0.001), "the direction is not that of the edge")
        ctx.require(e.norm.x * v.x + e.norm.y * v.y > 0, "the direction is reversed")
    ctx.require(ctx.close(call(ctx, "length_squared", need(ctx, e, "length_squared")), v.x * v.x + v.y * v.y, 0.01), "length of the edge")


add("P17", "edge", p17_edge, mode="exact")


def p17_circle(ctx, m):
    """Runs of 6 to 9 points: first, middle and last in all positions that are not collinear, the others anywhere."""
    f = need(ctx, m.eu, "fitCircle3Points")
    n = ctx.choice("n", [6, 7, 8, 9])
    a, v, w = V(ctx, m, "a", -20, 20), V(ctx, m, "v", -9, 9), V(ctx, m, "w", -9, 9)
    ctx.assume(away(ctx, cross2(v.x, v.y, w.x, w.y), 2))
    b, c = a + v, a + w
    pts = [m.Vector((3.5 * i, -1.25 * i * i)) for i in range(n)]
    pts[0], pts[n // 2], pts[-1] = a.copy(), b, c
    o, r = call(ctx, "fitCircle3Points", f, pts)
    ctx.require(o is not None, "no circle through points that are not collinear")
    d = [(p.x - o.x) * (p.x - o.x) + (p.y - o.y) * (p.y - o.y) for p in (a, b, c)]
    ctx.require(ctx.close(d[0], d[1], 0.5 if not ctx.symbolic else 0.0), "the circle misses the middle point")
    ctx.require(ctx.close(d[0], d[2], 0.5 if not ctx.symbolic else 0.0), "the circle misses the last point")
    ctx.require(ctx.close(r * r, d[0], 0.5 if not ctx.symbolic else 0.0), "the radius is not the distance of the points")
    ctx.require(r > 0, "the radius is not positive")


add("P17", "circle", p17_circle, mode="exact", cost=3)


def p17_nocircle(ctx, m):
    """Collinear points."""
    f = need(ctx, m.eu, "fitCircle3Points")
    n = ctx.choice("n", [6, 7])
    ux, uy = ctx.choice("dir", [(1, 0), (0, 1), (-1, 0), (1, 1), (2, -4)])
    k = ctx.choice("pos", [1, 3, 8])
    pts = [m.Vector((ux * k * i, uy * k * i)) for i in range(n)]
    t = ctx.real("t", 1, 2)
    call(ctx, "fitCircle3Points", f, pts)
    ctx.require(t >= 1, "returned")


add("P17", "nocircle", p17_nocircle, mode="exact")


# ------------------------------------------------------------------- P21 --
def tree(m, arcs):
    S = m.pk.Subtree
    return [S(a, h, list(s)) for a, h, s in arcs]


def snapshot(sk):
    return [(id(a.source), a.source.copy(), a.height, [(id(s), s.copy()) for s in a.sinks]) for a in sk]


def same_snapshot(ctx, a, b):
    ok = len(a) == len(b) and all(x[0] == y[0] and [i for i, _ in x[3]] == [i for i, _ in y[3]] for x, y in zip(a, b))
    if not ok:
        return False
    cs = []
    for x, y in zip(a, b):
        cs.append(ctx.close(x[1].x, y[1].x)); cs.append(ctx.close(x[1].y, y[1].y)); cs.append(ctx.close(x[2], y[2]))
        for (_, p), (_, q) in zip(x[3], y[3]):
            cs.append(ctx.close(p.x, q.x)); cs.append(ctx.close(p.y, q.y))
    return ctx.And(*cs)


def crossing(ctx, a, b, c, d):
    return signs(ctx, a, b, c, d, 0.25)


def p21_two(ctx, m):
    """Two connections of different nodes, one of 5 directions and lengths in all positions, both ends of the other within
    10 of its start, triangles of the ends with areas above 1/8."""
    f = need(ctx, m.pk, "checkEdgeCrossing")
    a, b, c, d = two_segments(ctx, m)
    x = crossing(ctx, a, b, c, d)
    how = ctx.choice("how", [0, 1, 2])
    sk = tree(m, [[(a, 1.0, [b]), (c, 2.0, [d])], [(d, 1.0, [c]), (a, 2.0, [b])], [(b, 1.0, [a]), (d, 2.0, [c])]][how])
    before = snapshot(sk)
    n = call(ctx, "checkEdgeCrossing", f, sk)
    ctx.require(n == (1 if x else 0), "%s crossings counted" % n)
    ctx.require(same_snapshot(ctx, before, snapshot(sk)), "the skeleton is changed")


add("P21", "two", p21_two, mode="exact", cost=3)


def p21_shared(ctx, m):
    """Connections that share an end: of one node, at a common sink, in a chain; all positions."""
    f = need(ctx, m.pk, "checkEdgeCrossing")
    a, b, c = (V(ctx, m, n, -10, 10) for n in "abc")
    ctx.assume(away(ctx, cross2(b.x - a.x, b.y - a.y, c.x - a.x, c.y - a.y), 0.25))
    sk = ctx.choice("how", [0, 1, 2])
    sk = tree(m, [[(a, 1.0, [b, c])], [(b, 1.0, [a]), (c, 1.0, [a.copy()])], [(b, 1.0, [a]), (a.copy(), 1.0, [c])]][sk])
    ctx.require(call(ctx, "checkEdgeCrossing", f, sk) == 0, "connections with a common end count as crossing")


add("P21", "shared", p21_shared, mode="exact")


def p21_touch(ctx, m):
    """A connection ends in the middle of another one: no crossing."""
    f = need(ctx, m.pk, "checkEdgeCrossing")
    # coordinates that are exact in binary, so that the end is exactly on the other connection
    dx, dy = ctx.choice("dir", [(4, 0), (0, 4), (4, 4), (-4, 8)])
    w = V(ctx, m, "w", -10, 10)
    ctx.assume(away(ctx, cross2(dx, dy, w.x - 1, w.y - 2), 1))
    a, b, t = m.Vector((1, 2)), m.Vector((1 + dx, 2 + dy)), m.Vector((1 + dx / 4, 2 + dy / 4))
    flip = ctx.choice("flip", [0, 1, 2, 3])
    e1 = (a, 1.0, [b]) if flip & 1 else (b, 1.0, [a])
    e2 = (t, 1.0, [w]) if flip & 2 else (w, 1.0, [t])
    ctx.require(call(ctx, "checkEdgeCrossing", f, tree(m, [e1, e2])) == 0, "a touching end counts as crossing")


add("P21", "touch", p21_touch, mode="exact")


def p21_parallel(ctx, m):
    """Parallel connections, at all distances and offsets (also overlapping ones on the same line): no crossing."""
    f = need(ctx, m.pk, "checkEdgeCrossing")
    dx, dy = ctx.choice("dir", [(1, 0), (0, 1), (1, 1), (-1, 2)])
    k = ctx.choice("k", [1, -2, 4])
    o = ctx.choice("line", ["same", "other"])
    a = m.Vector((ctx.real("x", -10, 10), ctx.real("y", -10, 10))) if o == "other" else m.Vector((dx / 2, dy / 2))
    z = ctx.real("q", 0, 1)
    sk = tree(m, [(m.Vector((0, 0)), 1.0, [m.Vector((dx, dy))]), (a, 1.0, [m.Vector((a.x + k * dx, a.y + k * dy))])])
    if o == "other":
        ctx.assume(away(ctx, cross2(dx, dy, a.x, a.y), 0.1))
    ctx.require(call(ctx, "checkEdgeCrossing", f, sk) == 0, "parallel connections count as crossing")
    ctx.require(z >= 0, "returned")


add("P21", "parallel", p21_parallel, mode="exact")


def p21_three(ctx, m, free=False):
    """Three connections in any order and direction, of two or three nodes: two fixed ones, the third in all positions (quick
    tier: 5 directions, lengths 1/4 to 3 times the given one)."""
    f = need(ctx, m.pk, "checkEdgeCrossing")
    fix = ctx.choice("fixed", [0, 1, 2])
    a, b, c, d = [[(0, 0), (8, 1), (3, -4), (4, 5)], [(0, 0), (8, 1), (0, 0), (2, 7)], [(0, 0), (8, 1), (1, 3), (7, 4)]][fix]
    a, b, c, d = (m.Vector(x) for x in (a, b, c, d))
    base = 1 if fix == 0 else 0
    p = V(ctx, m, "p", -10, 10)
    q = V(ctx, m, "q", -10, 10) if free else p + m.Vector(ctx.choice("dir", DIRS)) * ctx.real("len", 0.25, 3)
    x1, x2 = crossing(ctx, a, b, p, q), crossing(ctx, c, d, p, q)
    segs = [(a, b), (c, d), (p, q)]
    order, flip = ctx.choice("order", [((0, 1, 2), 0), ((2, 0, 1), 5), ((1, 2, 0), 6), ((2, 1, 0), 3)])
    segs = [segs[i][::-1] if flip >> i & 1 else segs[i] for i in order]
    if fix == 1 and not flip:
        # connections of one node
        rest = [s for s in segs if s[0] is p]
        sk = tree(m, [(a, 1.0, [b, d])] + [(s[0], 1.0, [s[1]]) for s in rest])
    else:
        sk = tree(m, [(s[0], 1.0, [s[1]]) for s in segs])
    n = call(ctx, "checkEdgeCrossing", f, sk)
    ctx.require(n == base + int(x1) + int(x2), "%s crossings counted" % n)


def p21_three_free(ctx, m):
    p21_three(ctx, m, True)


p21_three_free.__doc__ = p21_three.__doc__
add("P21", "three", p21_three, mode="exact", cost=4)
add("P21", "three_free", p21_three_free, mode="exact", cost=4, tier="thorough")


def p21_many(ctx, m):
    """A fan of five connections of one node crossed by a movable connection, all positions of its ends: the count is the
    number of connections it crosses."""
    f = need(ctx, m.pk, "checkEdgeCrossing")
    pts = [m.Vector(x) for x in [(6, 0), (5, 4), (0, 7), (-5, 3), (-2, -6)]]
    a = m.Vector((0, 0))
    y = ctx.real("y", -9, 9)
    x = ctx.real("x", -9, 9)
    p, q = m.Vector((x, -8)), m.Vector((y, 8))
    cs = [crossing(ctx, a, t, p, q) for t in pts]
    n = call(ctx, "checkEdgeCrossing", f, tree(m, [(a, 3.0, pts), (p, 1.0, [q])]))
    k = sum(cs)
    ctx.require(n == k, "%s crossings counted, there are %d" % (n, k))


add("P21", "fan", p21_many, mode="exact", cost=2)
