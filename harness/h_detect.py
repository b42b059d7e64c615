"""P14 apses, P15 dormers."""
import math

from .api import *
from .library import arc, ALL, OWN, GENERAL
from .registry import add
from .h_api import moved, lib, flat


# ------------------------------------------------------------------- P14 --
def apse_shape(n_low, step, r=5.0):
    """A house with an arc of n_low corners that turn by 'step' degrees."""
    half = step * (n_low + 1) / 2
    a0, a1 = math.radians(-half), math.radians(half)
    a = arc(0.0, 0.0, r, a0, a1, n_low + 1)
    return [(-14.0, -9.0), (a[0][0] - 2.5, -9.0)] + a + [(a[-1][0] - 1.5, 9.5), (-14.0, 9.0)]


def stadium(n_low, step, r=5.0):
    half = step * (n_low + 1) / 2
    a0, a1 = math.radians(-half), math.radians(half)
    a = arc(0.0, 0.0, r, a0, a1, n_low + 1)
    b = [(-x - 20.0, -y) for x, y in arc(0.0, 0.0, r * 0.9, a0, a1, n_low + 1)]
    return [(-12.0, -9.0), (a[0][0] - 2.5, -9.0)] + a + [(a[-1][0] - 1.5, 9.5), (b[0][0] + 1.5, 9.5)] + b + [(b[-1][0] + 1.5, -9.5)]


def straight_run(n):
    return [(0.0, 0.0)] + [(2.0 * i, 0.0) for i in range(1, n + 1)] + [(2.0 * n + 2, 0.0), (2.0 * n + 2, 9.0), (0.0, 9.0)]


def concave(n_low, step, r=7.0):
    """An arc that bends inwards."""
    half = step * (n_low + 1) / 2
    a = arc(9.0, 0.0, r, math.radians(180 + half), math.radians(180 - half), n_low + 1)
    return [(-12.0, -14.0), (a[0][0] + 3.5, -14.0)] + a + [(a[-1][0] + 3.0, 14.0), (-12.0, 14.0)]


def wavy(signs, step=22.0):
    """A run of low corners that turn to the left and to the right."""
    p, d, out = (0.0, -9.0), 90.0 - step, [(-14.0, -9.0), (0.0, -9.0)]
    for s in signs + [0]:
        p = (p[0] + 3 * math.cos(math.radians(d)), p[1] + 3 * math.sin(math.radians(d)))
        out.append(p)
        d += s * step
    return out + [(-14.0, p[1] + 1)]


SHAPES = {}
for _n in range(3, 12):
    for _st in (12.0, 21.0):
        SHAPES["arc%d_%d" % (_n, _st)] = apse_shape(_n, _st)
for _n in (5, 6, 7, 9):
    SHAPES["stadium%d" % _n] = stadium(_n, 17.0)
for _n in (5, 6, 8):
    SHAPES["concave%d" % _n] = concave(_n, 14.0)
for _n in (4, 5, 6, 7, 10):
    SHAPES["straight%d" % _n] = straight_run(_n)
SHAPES["wavy6"] = wavy([1, 1, -1, 1, -1, 1])
SHAPES["wavy5"] = wavy([1, -1, 1, -1, 1])
SHAPES["wavy8"] = wavy([1, -1, 1, 1, 1, -1, 1, 1])
SHAPES["gon14"] = [(9 * math.cos(2 * math.pi * i / 14), 9 * math.sin(2 * math.pi * i / 14)) for i in range(14)]
SHAPES["gon40"] = [(9 * math.cos(2 * math.pi * i / 40), 9 * math.sin(2 * math.pi * i / 40)) for i in range(40)]
SHAPES["gon9"] = [(9 * math.cos(2 * math.pi * i / 9), 9 * math.sin(2 * math.pi * i / 9)) for i in range(9)]
SHAPES["rect"] = [(0.0, 0.0), (9.0, 0.0), (9.0, 5.0), (0.0, 5.0)]


def sines(pts):
    n = len(pts)
    for i in range(n):
        ax, ay = pts[i][0] - pts[i - 1][0], pts[i][1] - pts[i - 1][1]
        bx, by = pts[(i + 1) % n][0] - pts[i][0], pts[(i + 1) % n][1] - pts[i][1]
        yield abs(ax * by - ay * bx) / (math.hypot(ax, ay) * math.hypot(bx, by))


# the limit of 30 degrees is a matter of rounding
SHAPES = {k: v for k, v in SHAPES.items() if all(abs(s - 0.5) > 0.005 for s in sines(v))}


def centres_match(ctx, got, want, what, tol=0.05):
    got = list(got or [])
    ctx.require(len(got) == len(want), "%s: %d apses, expected %d" % (what, len(got), len(want)))
    for w in want:
        hit = [c for c in got if ctx.is_true(ctx.And(ctx.close(c.x, w[0], tol), ctx.close(c.y, w[1], tol)))]
        ctx.require(len(hit) == 1, "%s: the centre of an apse is wrong" % what)


def p14_shape(ctx, m, pts):
    """Contours with an arc of 3 to 11 low corners, two arcs, concave arcs, straight and wavy runs, and contours of low
    corners only: all positions in [-50,50]^2, all scales from 1/2 to 3, all starting vertices."""
    f = need(ctx, m.pk, "detectApses")
    tx, ty, s = ctx.real("tx", -50, 50), ctx.real("ty", -50, 50), ctx.real("scale", 0.5, 3)
    n = len(pts)
    r = ctx.choice("start", list(range(n)))
    want = [(tx + s * x, ty + s * y) for x, y in ref_apse_centres(pts)]
    q = [(tx + s * x, ty + s * y) for x, y in pts[r:] + pts[:r]]
    cont = edge_contours(m, [q])[0]
    got = call(ctx, "detectApses", f, cont)
    centres_match(ctx, got, want, "start %d" % r)


for _k, _v in SHAPES.items():
    def _fn(ctx, m, v=_v):
        p14_shape(ctx, m, v)
    _fn.__doc__ = p14_shape.__doc__
    add("P14", _k, _fn, mode="float", witnesses=3)


def p14_corner(base, k, reach, dirs):
    """One vertex of the arc is moved along one of several directions by any distance up to the reach, so that the turns at
    it and at its neighbours vary continuously; three starting vertices."""
    def fn(ctx, m):
        f = need(ctx, m.pk, "detectApses")
        u = ctx.choice("direction", dirs)
        t = ctx.real("t", -reach, reach)
        n = len(base)
        pts = list(base)
        pts[k] = (base[k][0] + u[0] * t, base[k][1] + u[1] * t)
        low = []
        for i in range(n):
            a = [pts[i][j] - pts[i - 1][j] for j in (0, 1)]
            b = [pts[(i + 1) % n][j] - pts[i][j] for j in (0, 1)]
            c = cross2(a[0], a[1], b[0], b[1])
            c2, q = c * c, 0.25 * (a[0] * a[0] + a[1] * a[1]) * (b[0] * b[0] + b[1] * b[1])
            l = ctx.is_true(c2 < q)
            if abs(i - k) <= 1:
                ctx.assume(c2 < q * 0.98 if l else c2 > q * 1.02)
            low.append(l)
        want = []
        if not all(low):
            for i in range(n):
                if low[i] and not low[i - 1]:
                    j = 0
                    while low[(i + j) % n]:
                        j += 1
                    if j >= 6:
                        want.append((pts[i], pts[(i + j // 2) % n], pts[(i + j - 1) % n]))
        r = ctx.choice("start", [0, k, (k + 4) % n])
        got = list(call(ctx, "detectApses", f, edge_contours(m, [pts[r:] + pts[:r]])[0]) or [])
        ctx.require(len(got) == len(want), "%d apses, expected %d" % (len(got), len(want)))
        for w in want:
            ok = False
            for c in got:
                d = [(p[0] - c.x) * (p[0] - c.x) + (p[1] - c.y) * (p[1] - c.y) for p in w]
                if ctx.is_true(ctx.And(ctx.close(d[0], d[1], 0.1), ctx.close(d[0], d[2], 0.1))):
                    ok = True
                    break
            ctx.require(ok, "the centre of an apse is not that of the circle through first, middle and last corner")
    fn.__doc__ = p14_corner.__doc__
    return fn


# corners 2 .. n+3 are those of the arc, its low corners are 3 .. n+2
DIRS = [(1, 0), (0, 1), (0.6, 0.8), (0.8, -0.6)]
add("P14", "corner6", p14_corner(SHAPES["arc6_21"], 3, 0.5, DIRS), mode="float")
add("P14", "corner6m", p14_corner(SHAPES["arc6_21"], 5, 0.5, DIRS), mode="float")
add("P14", "corner7", p14_corner(SHAPES["arc7_12"], 9, 0.4, DIRS), mode="float")
add("P14", "corner5", p14_corner(SHAPES["arc5_21"], 2, 0.9, DIRS), mode="float")
add("P14", "corner_wavy", p14_corner(SHAPES["wavy8"], 6, 0.8, DIRS), mode="float")


# ------------------------------------------------------------------- P15 --
def one_dormer(ctx, left, right, sym=True):
    """Contour with a dormer of base w, sides d1 and d2 between the neighbouring edges of lengths a and b."""
    w = ctx.real("w", 1, 14)
    d1, d2 = ctx.real("d1", 0.5, 5), ctx.real("d2", 0.5, 5)
    a, b = ctx.real("a", 0.2, 20), ctx.real("b", 0.2, 20)
    e = d2 - d1
    pre = {"L": [], "0": [(-6, -8)], "R": [(0, -12)]}[left]
    x = a + w + b
    post = {"L": [], "0": [(x + 6, e - 8)], "R": [(x, e - 12)]}[right]
    end = post[0][0] + 9 if post else x
    pts = pre + [(0, 0), (a, 0), (a, -d1), (a + w, -d1), (a + w, e), (x, e)] + post
    if post:
        pts += [(end, post[0][1])]
    pts += [(end, 40)]
    start = pre[0] if pre else (0, 0)
    if pre:
        pts += [(start[0] - 9, 40), (start[0] - 9, start[1])]
    else:
        pts += [(0, 40)]
    return pts, len(pre) + 1, (w, d1, d2, a, b), (left, right)


def dormer_ok(ctx, w, d1, d2, a, b, left, right):
    """Branches on the conditions; their limits are assumed away."""
    fl = 1.5 if left == "L" else 0.125
    fr = 1.5 if right == "L" else 0.125
    ok = True
    for lhs, rhs in ((w * w, 100), ((d1 * d1 - d2 * d2) * 1, (d1 * d1 + d2 * d2) * 0.35), ((d2 * d2 - d1 * d1), (d1 * d1 + d2 * d2) * 0.35),
                     (w * w * fl, a * a), (w * w * fr, b * b)):
        c = ctx.is_true(lhs < rhs)
        ctx.assume(lhs < rhs - 0.01 if c else lhs > rhs + 0.01)
        ok = ok and c
    return ok


def found(ctx, m, pts, extra=()):
    """Dormers detected: {index of first corner: width}."""
    D, SL = need(ctx, m.pk, "detectDormers", "_SLAV")
    conts = edge_contours(m, [pts])
    out = call(ctx, "detectDormers", D, call(ctx, "_SLAV", SL, conts), conts)
    return [(list(oi), w) for oi, w in out]


def p15_one(left, right):
    def fn(ctx, m):
        pts, k, dims, kinds = one_dormer(ctx, left, right)
        want = dormer_ok(ctx, *(dims + kinds))
        n = len(pts)
        r = ctx.choice("start", list(range(n)))
        got = found(ctx, m, pts[r:] + pts[:r])
        ctx.require(len(got) == (1 if want else 0), "%d dormers, expected %d" % (len(got), 1 if want else 0))
        if want:
            ctx.require(got[0][0] == [(k + i - r) % n for i in range(4)], "corners of the dormer")
            ctx.require(ctx.close(got[0][1], dims[0], 0.01), "width of the dormer")
    fn.__doc__ = ("One dormer: base in [1,14], sides in [0.5,5], neighbouring edges in [0.2,20], neighbouring corners %s and %s "
                  "(L: right-angled to the left, R: to the right, 0: other), all starting vertices; limits of the conditions "
                  "excluded by 0.01." % (left, right))
    return fn


for _l in "L0R":
    for _r in "L0R":
        add("P15", "one_%s%s" % (_l, _r), p15_one(_l, _r), mode="exact", witnesses=3, tier="quick" if _l + _r in ("LL", "L0", "0L", "RR", "0R", "RL") else "thorough")


def p15_two_apart(ctx, m):
    """Two dormers on one side with independent bases in [1,12] and an edge of length [0.2,16] between them, all starting
    vertices: each is judged by its own dimensions and neighbours."""
    w1, w2, b = ctx.real("w1", 1, 12), ctx.real("w2", 1, 12), ctx.real("b", 0.2, 16)
    a, c, d = ctx.choice("sides", [(19, 18, 2), (2, 18, 1)])
    x = a + w1
    y = x + b + w2
    pts = [(0, 0), (a, 0), (a, -d), (x, -d), (x, 0), (x + b, 0), (x + b, -d), (y, -d), (y, 0), (y + c, 0), (y + c, 40), (0, 40)]
    n = len(pts)
    want = []
    if dormer_ok(ctx, w1, d, d, a, b, "L", "R"):
        want.append((1, w1))
    if dormer_ok(ctx, w2, d, d, b, c, "R", "L"):
        want.append((5, w2))
    r = ctx.choice("start", list(range(n)))
    got = found(ctx, m, pts[r:] + pts[:r])
    ctx.require(len(got) == len(want), "%d dormers, expected %d" % (len(got), len(want)))
    for k, w in want:
        hit = [g for g in got if g[0] == [(k + i - r) % n for i in range(4)]]
        ctx.require(len(hit) == 1, "a dormer is missing")
        ctx.require(ctx.close(hit[0][1], w, 0.01), "width of a dormer")


add("P15", "two", p15_two_apart, mode="exact", witnesses=3, cost=2)


def p15_sides(ctx, m):
    """Dormers on two different sides of a rectangle, bases in [1,12], neighbouring edges of one in [1,19]."""
    w1, w2 = ctx.real("w1", 1, 12), ctx.real("w2", 1, 12)
    a = ctx.real("a", 1, 19)
    x = a + w1 + 18
    pts = [(0, 0), (a, 0), (a, -2), (a + w1, -2), (a + w1, 0), (x, 0), (x, 19), (x + 3, 19), (x + 3, 19 + w2), (x, 19 + w2), (x, 38 + w2), (0, 38 + w2)]
    n = len(pts)
    want = []
    if dormer_ok(ctx, w1, 2, 2, a, 18, "L", "L"):
        want.append((1, w1))
    if dormer_ok(ctx, w2, 3, 3, 19, 19, "L", "L"):
        want.append((6, w2))
    r = ctx.choice("start", list(range(n)))
    got = found(ctx, m, pts[r:] + pts[:r])
    ctx.require(len(got) == len(want), "%d dormers, expected %d" % (len(got), len(want)))
    for k, w in want:
        hit = [g for g in got if g[0] == [(k + i - r) % n for i in range(4)]]
        ctx.require(len(hit) == 1, "a dormer is missing")
        ctx.require(ctx.close(hit[0][1], w, 0.01), "width of a dormer")


add("P15", "sides", p15_sides, mode="exact", witnesses=3, cost=2)


def p15_limit(ctx, m):
    """A base of exactly 10 makes no dormer, whatever its sides and the neighbouring edges are, on a side in x or y direction."""
    d, a, b = ctx.real("d", 1, 6), ctx.choice("a", [16, 20]), ctx.choice("b", [16, 24])
    pts = [(0, 0), (a, 0), (a, -d), (a + 10, -d), (a + 10, 0), (a + 10 + b, 0), (a + 10 + b, 40), (0, 40)]
    if ctx.choice("turned", [0, 1]):
        pts = [(-y, x) for x, y in pts]
    r = ctx.choice("start", list(range(8)))
    got = found(ctx, m, pts[r:] + pts[:r])
    ctx.require(len(got) == 0, "a dormer with a base of 10")


add("P15", "limit", p15_limit, mode="exact", witnesses=3)


def p15_shared(ctx, m):
    """Two right-left-left-right sequences that share a corner, all lengths of their bases and sides, all starting
    vertices: none is a dormer; a third, separate one is still recognised."""
    w1, w2, d = ctx.real("w1", 1, 9), ctx.real("w2", 1, 9), ctx.real("d", 1, 4)
    # a zigzag: R at A, L, L, R at B, L, L, R at C
    #   going east, down, east, up (R at B turns right = east), ... the second one starts with B
    A = (20, 0)
    p = [A, (20, -d), (20 + w1, -d), (20 + w1, d)]
    # at (20+w1, d): turn right (east), then L (north) and L (west), R (north)
    q = [(20 + w1 + 3, d), (20 + w1 + 3, d + w2), (20 + w1, d + w2), (20 + w1, d + w2 + 15), (10, d + w2 + 25)]
    third = ctx.choice("third", [0, 1])
    pts = [(0, 0)] + p + q + [(-20, d + w2 + 15)]
    if third:
        pts += [(-20, 10), (-22, 10), (-22, 5), (-20, 5)]
    pts += [(-20, -20), (-5, -20)]
    n = len(pts)
    r = ctx.choice("start", list(range(n)))
    got = found(ctx, m, pts[r:] + pts[:r])
    if third:
        ctx.require(len(got) == 1, "%d dormers, expected 1" % len(got))
        k = pts.index((-20, 10))
        ctx.require(got[0][0] == [(k + i - r) % n for i in range(4)], "the wrong dormer is skipped")
    else:
        ctx.require(len(got) == 0, "dormers that share a corner are not skipped")


add("P15", "shared", p15_shared, mode="exact", witnesses=3)


def p15_angle(ctx, m):
    """The base of the dormer is turned out of the right angle by all angles up to 27 degrees: a dormer below 5 degrees, none
    above 12 degrees."""
    t = ctx.real("t", 0, 0.24)      # tangent of half the angle
    c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    w = 4
    x, y = 10 + w * c, -3 + w * s
    small = ctx.is_true(c > 0.9962)
    if not small:
        ctx.assume(c < 0.978)
    pts = [(0, 0), (10, 0), (10, -3), (x, y), (x, 0), (30, 0), (30, 20), (0, 20)]
    n = len(pts)
    r = ctx.choice("start", list(range(n)))
    got = found(ctx, m, pts[r:] + pts[:r])
    ctx.require(len(got) == (1 if small else 0), "%d dormers, expected %d" % (len(got), 1 if small else 0))


add("P15", "angle", p15_angle, mode="float", witnesses=3)
