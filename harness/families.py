"""Footprint families.

Symbolic families: the directions of the edges are fixed (axis parallel or with
rational unit vectors), the side lengths are symbolic.  The boxes keep reflex
footprints in general position (no two wavefront collisions at the same time).
"""

S = {}      # name -> function(ctx) -> contours, outer counterclockwise, holes clockwise


def fam(f):
    S[f.__name__] = f
    return f


# ---------------------------------------------------------------- convex --
@fam
def rect(ctx):
    w = ctx.real("w", 1, 40); h = ctx.real("h", 1, 40)
    return [[(0, 0), (w, 0), (w, h), (0, h)]]


@fam
def square(ctx):
    w = ctx.real("w", 1, 40)
    return [[(0, 0), (w, 0), (w, w), (0, w)]]


@fam
def tri345(ctx):
    k = ctx.real("k", 1, 10)
    return [[(0, 0), (3 * k, 0), (0, 4 * k)]]


@fam
def triiso(ctx):
    k = ctx.real("k", 1, 10)
    return [[(0, 0), (6 * k, 0), (3 * k, 4 * k)]]


@fam
def trapezoid(ctx):
    w = ctx.real("w", 1, 12); k = ctx.real("k", 1, 5)
    return [[(0, 0), (w + 3 * k, 0), (w, 4 * k), (0, 4 * k)]]


@fam
def parallelogram(ctx):
    a = ctx.real("a", 1, 12); k = ctx.real("k", 1, 5)
    return [[(0, 0), (a, 0), (a + 3 * k, 4 * k), (3 * k, 4 * k)]]


@fam
def isotrap(ctx):
    a = ctx.real("a", 1, 12); k = ctx.real("k", 1, 5)
    return [[(0, 0), (a + 6 * k, 0), (a + 3 * k, 4 * k), (3 * k, 4 * k)]]


@fam
def house(ctx):
    w = ctx.real("w", 1, 5); h = ctx.real("h", 1, 12)
    return [[(0, 0), (6 * w, 0), (6 * w, h), (3 * w, h + 4 * w), (0, h)]]


@fam
def house2(ctx):
    """house without nearly coinciding nodes (these are near h = 4w)."""
    w = ctx.real("w", 1, 5); h = ctx.real("h", 1, 12)
    ctx.assume(ctx.Or(h >= 4 * w + 0.5, h <= 4 * w - 1))
    return [[(0, 0), (6 * w, 0), (6 * w, h), (3 * w, h + 4 * w), (0, h)]]


@fam
def hexagon(ctx):
    a = ctx.real("a", 12, 16); b = ctx.real("b", 1, 2); c = 2
    return [[(0, 0), (a, 0), (a + 3 * b, 4 * b), (a + 3 * b - 3 * c, 4 * b + 4 * c),
             (3 * b - 3 * c, 4 * b + 4 * c), (-3 * c, 4 * c)]]


@fam
def collinear(ctx):
    """Rectangle with an extra vertex on a straight side."""
    w = ctx.real("w", 14, 30); h = ctx.real("h", 4, 12); e = ctx.real("e", 1, 13)
    return [[(0, 0), (e, 0), (w, 0), (w, h), (0, h)]]


# ---------------------------------------------------------------- reflex --
@fam
def mshape(ctx):
    w = ctx.real("w", 1, 3); h = ctx.real("h", 13, 24)
    return [[(0, 0), (6 * w, 0), (6 * w, h), (3 * w, h - 4 * w), (0, h)]]


@fam
def boomerang(ctx):
    c = ctx.real("c", 1, 2); d = ctx.real("d", 3, 6); a = ctx.real("a", 45, 60)
    p = 3 * c + 25
    return [[(0, 0), (a, 0), (a, 4 * c), (p, 4 * c), (p + 3 * d, 4 * c + 4 * d), (p + 3 * d - 16, 4 * c + 4 * d + 12)]]


@fam
def shallow(ctx):
    """A flat reflex corner, one side of which is parallel to the side opposite."""
    k = ctx.real("k", 0.45, 0.55); h = ctx.real("h", 4, 5); w = ctx.real("w", 22, 26)
    return [[(0, 0), (w, 0), (w, h), (24 * k, h), (0, h + 7 * k)]]


@fam
def shallow_m(ctx):
    """Its mirror image."""
    k = ctx.real("k", 0.45, 0.55); h = ctx.real("h", 4, 5); w = ctx.real("w", 22, 26)
    return [[(0, 0), (w, 0), (w, h + 7 * k), (w - 24 * k, h), (0, h)]]


@fam
def lshape(ctx):
    a = ctx.real("a", 11, 14); c = ctx.real("c", 5, 6); d = ctx.real("d", 10, 13)
    return [[(0, 0), (a, 0), (a, 3.75), (c, 3.75), (c, d), (0, d)]]


@fam
def tshape(ctx):
    w = ctx.real("w", 15, 18); t = ctx.real("t", 12, 14)
    return [[(0, 0), (w, 0), (w, 5.25), (9.25, 5.25), (9.25, t), (4.25, t), (4.25, 5.25), (0, 5.25)]]


@fam
def tshape2(ctx):
    """Shoulders of different height."""
    w = ctx.choice("w", [15.5, 18]); t = ctx.real("t", 12, 14); h = 4.5
    return [[(0, 0), (w, 0), (w, 5.25), (9.25, 5.25), (9.25, t), (4.25, t), (4.25, h), (0, h)]]


@fam
def ushape(ctx):
    s = ctx.real("s", 10, 11); t = ctx.real("t", 12, 14)
    return [[(0, 0), (17.5, 0), (17.5, s), (11.5, s), (11.5, 4.25), (5.5, 4.25), (5.5, t), (0, t)]]


@fam
def zshape(ctx):
    a = ctx.real("a", 9, 10); c = ctx.real("c", 16, 18); d = ctx.real("d", 5.75, 6.5)
    return [[(0, 0), (a, 0), (a, 5.25), (c, 5.25), (c, 11.25), (d, 11.25), (d, 4.5), (0, 4.5)]]


@fam
def funnel(ctx):
    """Two flat reflex corners on opposite sides."""
    k = ctx.real("k", 0.25, 0.35); h = ctx.real("h", 4, 5)
    return [[(0, 0), (24 * k, 7 * k), (30, 7 * k), (30, 7 * k + h), (18, 7 * k + h), (6, 10.5 * k + h - 3.5 * k + 3.5), (0, 7 * k + h + 3.5)]]


# ----------------------------------------------------------------- holes --
@fam
def rhombhole(ctx):
    r = ctx.real("r", 1, 1.5); cx = ctx.real("cx", 9, 9.5); cy = ctx.real("cy", 10.5, 11)
    return [[(0, 0), (20, 0), (20, 24), (0, 24)],
            [(cx - 3 * r, cy), (cx, cy + 4 * r), (cx + 3 * r, cy), (cx, cy - 4 * r)]]


@fam
def twoholes(ctx):
    r = ctx.real("r", 1, 1.2); s = ctx.real("s", 0.6, 0.75)
    return [[(0, 0), (40, 0), (40, 22), (0, 22)],
            [(10 - 3 * r, 10), (10, 10 + 4 * r), (10 + 3 * r, 10), (10, 10 - 4 * r)],
            [(28 - 4 * s, 12), (28, 12 + 3 * s), (28 + 4 * s, 12), (28, 12 - 3 * s)]]


# wide boxes: events may coincide; for the properties that hold all the same
W = {}


def wide(f):
    W[f.__name__] = f
    return f


@wide
def wl(ctx):
    a, c = ctx.choice("ac", [(7, 5), (12, 3.5), (20, 4.5)]); d = ctx.real("d", 5, 20)
    return [[(0, 0), (a, 0), (a, 4), (c, 4), (c, d), (0, d)]]


@wide
def wt(ctx):
    w = ctx.choice("w", [12, 17]); t = ctx.real("t", 6, 14)
    return [[(0, 0), (w, 0), (w, 5), (9, 5), (9, t), (4, t), (4, 5), (0, 5)]]
