"""Shared oracles and footprint families.  Everything here runs both over
symbolic reals (deciding) and over floats with the real mathutils (replaying)."""
from collections import Counter


def V3(m, x, y, z=0.0):
    return m.Vector((x, y, z))


def call(ctx, what, f, *a, **k):
    """Calls the code under test; any exception is a violation."""
    try:
        return f(*a, **k)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = next((("%s:%s" % (t.filename.split("/")[-1], t.name)) for t in reversed(tb) if "bpypolyskel" in t.filename), "?")
        ctx.fail("%s raises %s in %s: %s" % (what, type(e).__name__, where, e))
        raise AssertionError("unreachable")


def need(ctx, obj, *names):
    """The named parts of the code under test; a harness of a part that is not there any more is skipped."""
    out = []
    for n in names:
        if not hasattr(obj, n):
            ctx.skip("no %s" % n)
        out.append(getattr(obj, n))
    return out[0] if len(out) == 1 else out


def ring(first, n):
    return [first + i for i in range(n)]


def cross2(ax, ay, bx, by):
    return ax * by - ay * bx


def area2(pts):
    """Twice the signed area."""
    t = 0
    n = len(pts)
    for i in range(n):
        x0, y0 = pts[i]
        x1, y1 = pts[(i + 1) % n]
        t = t + (x0 * y1 - x1 * y0)
    return t


def combinatorial_errors(faces, contours, first_skel, nverts):
    """What is wrong with the faces as an index structure (None if nothing):
    one face per contour edge, started by that edge; simple loops; every inner
    edge shared by two faces in opposite directions."""
    edges = {}
    for c in contours:
        for i, v in enumerate(c):
            edges[(v, c[(i + 1) % len(c)])] = 0
    cv = {v for c in contours for v in c}
    for f in faces:
        if len(f) < 3:
            return "face with fewer than 3 vertices: %s" % f
        if len(set(f)) != len(f):
            return "face repeats a vertex: %s" % f
        for v in f:
            if not (v in cv or first_skel <= v < nverts):
                return "face refers to a vertex that is neither footprint nor roof node: %s" % f
        e = (f[0], f[1])
        if e not in edges:
            return "first edge of a face is not a footprint edge: %s" % f
    d = Counter()
    for f in faces:
        for i, v in enumerate(f):
            d[(v, f[(i + 1) % len(f)])] += 1
    for e in edges:
        if d[e] != 1:
            return "footprint edge %s is a side of %d faces" % (e, d[e])
    for (a, b), n in d.items():
        if n != 1:
            return "directed edge %s used %d times" % ((a, b), n)
        if (a, b) in edges:
            if (b, a) in d:
                return "footprint edge %s is used from both sides" % ((a, b),)
        elif (b, a) not in d:
            return "inner edge %s belongs to one face only" % ((a, b),)
    used = {v for f in faces for v in f}
    for v in cv:
        if v not in used:
            return "footprint vertex %d is in no face" % v
    return None


def edge_distance(ctx, m, v, a, b, unit=None):
    """Signed distance of v from the line a->b (left positive)."""
    ux, uy = unit if unit is not None else (None, None)
    if ux is None:
        dx, dy = b[0] - a[0], b[1] - a[1]
        n = ctx.sqrt(dx * dx + dy * dy)
        ux, uy = dx / n, dy / n
    return ux * (v[1] - a[1]) - uy * (v[0] - a[0])


def ref_apse_centres(pts):
    """Centres of the apses of a contour of concrete points: runs of six or more corners that turn by less than 30 degrees."""
    n = len(pts)
    low = []
    for i in range(n):
        ax, ay = pts[i][0] - pts[i - 1][0], pts[i][1] - pts[i - 1][1]
        bx, by = pts[(i + 1) % n][0] - pts[i][0], pts[(i + 1) % n][1] - pts[i][1]
        low.append(abs(ax * by - ay * bx) < 0.5 * ((ax * ax + ay * ay) * (bx * bx + by * by)) ** 0.5)
    if all(low):
        return []
    out = []
    for i in range(n):
        if low[i] and not low[i - 1]:
            k = 0
            while low[(i + k) % n]:
                k += 1
            if k >= 6:
                c = circle(pts[i], pts[(i + k // 2) % n], pts[(i + k - 1) % n])
                if c:
                    out.append(c)
    return out


def circle(a, b, c):
    d = 2 * ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))
    if abs(d) < 1e-9:
        return None
    p, q = b[0] - a[0], b[1] - a[1]
    r, s = c[0] - a[0], c[1] - a[1]
    x = ((p * p + q * q) * s - (r * r + s * s) * q) / d
    y = ((r * r + s * s) * p - (p * p + q * q) * r) / d
    return (a[0] + x, a[1] + y)
