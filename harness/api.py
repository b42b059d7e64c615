"""Footprints handed to the public functions, and what their results must satisfy."""
from .common import *


class Layout:
    """Contours placed in a vertex list: order is a list of 'o' (outer contour),
    integers (hole number) and ('j', [(x, y, z), ...]) (unrelated vertices)."""

    def __init__(self, m, contours, z=0.0, order=None):
        if order is None:
            order = ["o"] + list(range(len(contours) - 1))
        self.verts, self.conts = [], [None] * len(contours)
        self.junk = []
        for o in order:
            if isinstance(o, tuple):
                for x, y, zz in o[1]:
                    self.junk.append(len(self.verts))
                    self.verts.append(V3(m, x, y, zz))
                continue
            k = 0 if o == "o" else o + 1
            self.conts[k] = ring(len(self.verts), len(contours[k]))
            self.verts += [V3(m, x, y, z) for x, y in contours[k]]
        self.first, self.n = self.conts[0][0], len(self.conts[0])
        self.holes = [(c[0], len(c)) for c in self.conts[1:]] or None
        self.n0 = len(self.verts)
        self.z = z
        self.contours = contours
        self.m = m

    def unit(self, ctx):
        out = []
        for c in self.contours:
            for i, (x, y) in enumerate(c):
                x2, y2 = c[(i + 1) % len(c)]
                dx, dy = x2 - x, y2 - y
                n = ctx.sqrt(dx * dx + dy * dy)
                out.append(self.m.Vector((dx / n, dy / n, 0.0)))
        return out

    def polygonize(self, ctx, height=0.0, tan=0.0, faces=None, unit=None):
        r = call(ctx, "polygonize", self.m.pk.polygonize, self.verts, self.first, self.n, self.holes,
                 height, tan, faces, unit)
        return r

    def nodes(self):
        return self.verts[self.n0:]

    def xy(self, i):
        v = self.verts[i]
        return v[0], v[1]

    def errors(self, faces):
        return combinatorial_errors(faces, self.conts, self.n0, len(self.verts))

    def name(self, i):
        """Layout independent name of a vertex index."""
        for k, c in enumerate(self.conts):
            if c[0] <= i < c[0] + len(c):
                return (k, i - c[0])
        if i >= self.n0:
            return ("n", i - self.n0)
        return ("?", i)

    def named(self, faces):
        return [[self.name(i) for i in f] for f in faces]


def edges_of(contours):
    for c in contours:
        for i, p in enumerate(c):
            yield p, c[(i + 1) % len(c)]


def canon(loop):
    """Cyclic loop as a canonical tuple."""
    k = min(range(len(loop)), key=lambda i: [str(x) for x in loop[i:] + loop[:i]])
    return tuple(loop[k:] + loop[:k])


def edge_contours(m, contours):
    """Input of skeletonize."""
    out = []
    for c in contours:
        vs = [m.Vector((x, y)) for x, y in c]
        out.append([m.eu.Edge2(vs[i], vs[(i + 1) % len(vs)]) for i in range(len(vs))])
    return out


def require_nodes_equal(ctx, a, b, what, dx=0, dy=0, dz=0, tol=0):
    ctx.require(len(a) == len(b), "%s: number of nodes %d / %d" % (what, len(a), len(b)))
    for i, (p, q) in enumerate(zip(a, b)):
        ctx.require(ctx.And(ctx.close(p[0] + dx, q[0], tol), ctx.close(p[1] + dy, q[1], tol), ctx.close(p[2] + dz, q[2], tol)),
                    "%s: node %d differs" % (what, i))


def require_planar(ctx, L, faces, tan, tol=0):
    """Every vertex of a face: z = z0 + tan * distance from the line of the first edge."""
    for f in faces:
        a, b = L.verts[f[0]], L.verts[f[1]]
        dx, dy = b[0] - a[0], b[1] - a[1]
        n = ctx.sqrt(dx * dx + dy * dy)
        for i in f[2:]:
            v = L.verts[i]
            d = (dx * (v[1] - a[1]) - dy * (v[0] - a[0])) / n
            if tol:
                ctx.require(ctx.close(v[2] - L.z, tan * d, tol), "vertex %d of face %s is off the plane of edge %s" % (i, f, f[:2]))
            else:
                ctx.require(ctx.close(v[2], L.z + tan * d), "vertex %d of face %s is off the plane of edge %s" % (i, f, f[:2]))
