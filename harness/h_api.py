"""P01 - P09, P11: polygonize as a whole.

 lib_*: a concrete footprint (library.py); z, pitch, height and the position of
        the footprint are symbolic.
 fam_*: a family of footprints (families.py) with symbolic side lengths."""
from .api import *
from .families import S, W
from .library import ALL, OWN, REPO, GENERAL
from .registry import add


def moved(cs, tx, ty):
    return [[(x + tx, y + ty) for x, y in c] for c in cs]


def lib(prop, names, body, prefix="lib_", **opts):
    for k in names:
        def fn(ctx, m, cs=ALL[k]):
            body(ctx, m, cs)
        fn.__doc__ = body.__doc__
        add(prop, prefix + k, fn, **dict(dict(mode="float", witnesses=1), **opts))


def fams(prop, names, body, prefix="fam_", **opts):
    for k in names:
        def fn(ctx, m, f=S.get(k) or W[k]):
            body(ctx, m, f(ctx))
        fn.__doc__ = (body.__doc__ or "") + " family %s" % k
        add(prop, prefix + k, fn, mode="exact", cost=5, **opts)


def general(prop):
    return [k for k in ALL if k in GENERAL.get(prop, ())] if GENERAL else list(ALL)


# ------------------------------------------------------------------- P01 --
def match(nodes, x, y):
    """The element of nodes (px, py, ...) nearest to the concrete point."""
    return min(nodes, key=lambda p: abs(p[0] - x) + abs(p[1] - y))


def flat(x):
    return float(x)


def p01_lib(ctx, m, cs):
    """All z in [-50,50], all pitches in [-2,3], all heights in [-30,30] (height and tan may both be given), all positions
    in [-100,100]^2.  Elevation = z + pitch * skeleton height; the highest node is exactly 'height' above z."""
    how = ctx.choice("how", ["tan", "height", "both", "flat"])
    z = ctx.real("z", -50, 50)
    tan = ctx.real("tan", -2, 3) if how in ("tan", "both") else 0.0
    H = 0.0
    if how in ("height", "both"):
        H = ctx.real("H", -30, 30)
        ctx.assume(ctx.Or(H >= 0.01, H <= -0.01))
    if how == "both":
        ctx.assume(ctx.Or(tan >= 0.01, tan <= -0.01))
    tx = ctx.real("tx", -100, 100)
    L = Layout(m, moved(cs, tx, 7.0), z)
    L.polygonize(ctx, H, tan)
    # reference: the skeleton of the same footprint, by the public function
    cen = (sum(p[0] for p in cs[0]) / len(cs[0]), sum(p[1] for p in cs[0]) / len(cs[0]))
    sk = call(ctx, "skeletonize", m.pk.skeletonize, edge_contours(m, moved(cs, -cen[0], -cen[1])))
    ref = [(flat(a.source.x) + cen[0], flat(a.source.y) + cen[1], flat(a.height)) for a in sk]
    hmax = max(r[2] for r in ref)
    nodes = L.nodes()
    ctx.require(len(nodes) == len(ref), "number of new nodes")
    ctx.require(all(r[2] > 0 for r in ref), "skeleton node without height")
    for i, v in enumerate(nodes):
        if how == "flat":
            ctx.require(ctx.close(v[2], z, 1e-5), "node %d of a flat roof is not at the level of the footprint" % i)
            continue
        x, y = v[0] - tx, v[1] - 7.0
        ctx.require(ctx.And(x > -1e4, x < 1e4), "node position")
        h = match(ref, flat(x), flat(y))[2]
        if how == "tan":
            ctx.require(ctx.close(v[2], z + tan * h, 1e-3), "elevation of node %d is not z + tan * distance" % i)
        else:
            ctx.require(ctx.close(v[2], z + H * (h / hmax), 1e-3), "elevation of node %d is not proportional to height" % i)
    if how in ("height", "both"):
        ctx.require(ctx.Or(*[ctx.close(v[2], z + H, 1e-4) for v in nodes]), "no node is 'height' above the footprint")
        for v in nodes:
            ctx.require(ctx.Or(ctx.And(H > 0, v[2] <= z + H + 1e-4), ctx.And(H < 0, v[2] >= z + H - 1e-4)),
                        "a node is higher than 'height'")


lib("P01", general("P01"), p01_lib)


def seg_far(ctx, v, p, q, h):
    """v is not closer than h to the segment pq."""
    dx, dy = q[0] - p[0], q[1] - p[1]
    n2 = dx * dx + dy * dy
    s = dx * (v[0] - p[0]) + dy * (v[1] - p[1])
    n = ctx.sqrt(n2)
    d = (dx * (v[1] - p[1]) - dy * (v[0] - p[0])) / n
    return ctx.Or(s < 0, s > n2, d >= h, d <= -h)


def p01_fam(ctx, m, cs):
    """All side lengths of the family; tan = 1 and 3/4.  Every node is tan times its distance from the line of some
    footprint edge above z, and no footprint edge is nearer."""
    tan = ctx.choice("tan", [1, 0.75])
    L = Layout(m, cs, 2.5)
    L.polygonize(ctx, 0.0, tan)
    for i, v in enumerate(L.nodes()):
        h = (v[2] - 2.5) / tan
        ctx.require(h > 0, "node %d is not above the footprint" % i)
        hit = False
        for p, q in edges_of(cs):
            d = edge_distance(ctx, m, v, p, q)
            if ctx.is_true(ctx.close(d, h, 0.05)):
                hit = True
            ctx.require(seg_far(ctx, v, p, q, h - 0.05), "node %d is higher than the distance of an edge" % i)
        ctx.require(hit, "node %d is at the distance of no edge" % i)


fams("P01", ["rect", "tri345", "trapezoid", "house", "mshape", "rhombhole", "boomerang"], p01_fam)


# ------------------------------------------------------------------- P02 --
def p02_lib(ctx, m, cs):
    """All z in [-50,50], all pitches in [-2,3], all positions in [-100,100]^2: every vertex of a face is within
    0.1*pitch of z + tan * distance from the line of the first edge; no node is closer to a footprint edge than its
    elevation implies."""
    z = ctx.real("z", -50, 50)
    tan = ctx.real("tan", 0.05, 3)
    tx = ctx.real("tx", -100, 100)
    ty = ctx.real("ty", -100, 100)
    mc = moved(cs, tx, ty)
    L = Layout(m, mc, z)
    faces = L.polygonize(ctx, 0.0, tan)
    for f in faces:
        a, b = L.verts[f[0]], L.verts[f[1]]
        ux, uy = b[0] - a[0], b[1] - a[1]
        n = ctx.sqrt(ux * ux + uy * uy)
        for i in f:
            v = L.verts[i]
            d = (ux * (v[1] - a[1]) - uy * (v[0] - a[0])) / n
            t = 0.1 * tan
            e = v[2] - z - tan * d
            ctx.require(ctx.And(e <= t, e >= -t), "vertex %d of face %s is off the plane of its first edge" % (i, f))
    for i, v in enumerate(L.nodes()):
        for p, q in edges_of(mc):
            dist = flat(seg_dist(v[0] - p[0], v[1] - p[1], q[0] - p[0], q[1] - p[1]))
            ctx.require(v[2] - z <= tan * (dist + 0.1), "node %d is higher than a footprint edge allows" % i)


def seg_dist(x, y, dx, dy):
    x, y, dx, dy = map(flat, (x, y, dx, dy))
    t = (x * dx + y * dy) / (dx * dx + dy * dy)
    t = max(0.0, min(1.0, t))
    return ((x - t * dx) ** 2 + (y - t * dy) ** 2) ** 0.5


lib("P02", general("P02"), p02_lib)


def planar_fam(tol):
    def body(ctx, m, cs):
        """All side lengths of the family: every face lies in the plane of its first edge, no node is higher than the
        distance of an edge allows."""
        L = Layout(m, cs, 1.0)
        faces = L.polygonize(ctx, 0.0, 1)
        require_planar(ctx, L, faces, 1, tol)
        for i, v in enumerate(L.nodes()):
            for p, q in edges_of(cs):
                ctx.require(seg_far(ctx, v, p, q, v[2] - 1 - tol), "node %d is higher than the distance of an edge" % i)
    return body


EXACT = [k for k in S if k not in ("hexagon", "house2", "tshape2")]
fams("P02", EXACT, planar_fam(0.1))


# ------------------------------------------------------------------- P03 --
def p03_lib(ctx, m, cs):
    """All z in [-50,50], all pitches in [0,3], all positions in [-100,100]^2."""
    z = ctx.real("z", -50, 50)
    tan = ctx.real("tan", 0, 3)
    tx = ctx.real("tx", -100, 100)
    ty = ctx.real("ty", -100, 100)
    mc = moved(cs, tx, ty)
    L = Layout(m, mc, z)
    faces = L.polygonize(ctx, 0.0, tan)
    e = L.errors(faces)
    ctx.require(e is None, "faces: %s" % e)
    tot = 0
    for f in faces:
        a = flat(area2([(flat(L.verts[i][0] - tx), flat(L.verts[i][1] - ty)) for i in f]))
        tot += a
    want = sum(area2(c) for c in cs)
    ctx.require(abs(tot - want) <= 2e-3 * want, "areas of the faces do not add up to the footprint")


lib("P03", general("P03"), p03_lib)


def p03_fam(ctx, m, cs):
    """All side lengths of the family."""
    L = Layout(m, cs)
    faces = L.polygonize(ctx, 0.0, 1)
    e = L.errors(faces)
    ctx.require(e is None, "faces: %s" % e)
    tot = 0
    for f in faces:
        a = area2([L.xy(i) for i in f])
        ctx.require(a >= 0, "face %s is not counterclockwise" % f)
        tot = tot + a
    want = 0
    for c in cs:
        want = want + area2(c)
    ctx.require(ctx.close(tot, want, 0.1), "areas of the faces do not add up to the footprint")


fams("P03", EXACT + list(W), p03_fam)


def p03_rounded(ctx, m):
    """A wall with a straight vertex whose two unit vectors carry rounding errors up to 2e-7, of all sizes along the wall and
    0, 1 or -1/2 times as much across it; the wall runs in x or y direction."""
    a = ctx.real("a", -2e-7, 2e-7)
    e = a * ctx.choice("across", [0, 1, -0.5])
    cs = [(0, 0), (9, 0), (20, 0), (20, 10), (0, 10)]
    un = [(1, e), (1 + a, 0), (0, 1), (-1, 0), (0, -1)]
    if ctx.choice("turned", [0, 1]):
        cs, un = [(-y, x) for x, y in cs], [(-y, x) for x, y in un]
    r = ctx.choice("start", [0, 1, 3])
    L = Layout(m, [cs[r:] + cs[:r]])
    faces = L.polygonize(ctx, 0.0, 1, None, [m.Vector((x, y, 0)) for x, y in un[r:] + un[:r]])
    er = L.errors(faces)
    ctx.require(er is None, "faces: %s" % er)


add("P03", "rounded", p03_rounded, mode="exact", witnesses=4)
