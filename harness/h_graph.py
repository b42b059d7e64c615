"""P18 face graph, P19 clean-up of faces."""
import itertools
import math

from .api import *
from .registry import add


# ------------------------------------------------------------------- P18 --
BASES = {
    # directions of the neighbours of a vertex (around the origin); all but the moving ones stay
    "two": [(3.0, 1.0), (-2.0, 2.0)],
    "three": [(3.0, 1.0), (-2.0, 2.0), (-1.0, -3.0)],
    "axes": [(3.0, 0.0), (0.25, 2.0), (-2.0, 0.5), (0.0, -1.0)],
    "five": [(2.0, 1.0), (-1.0, 3.0), (-3.0, -1.0), (0.5, -2.0), (4.0, -1.0)],
}


def turning(ctx, d, eps=1e-3):
    """Cyclic orders of direction triples: branches on every sign; limits are assumed away."""
    n = len(d)
    s = {}
    for i, j in itertools.combinations(range(n), 2):
        x = cross2(d[i][0], d[i][1], d[j][0], d[j][1])
        p = ctx.is_true(x > 0)
        ctx.assume(x > eps if p else x < -eps)
        s[i, j], s[j, i] = p, not p
    return s


def embed(ctx, m, g, verts, *a):
    e = call(ctx, "circular_embedding", g.circular_embedding, verts, *a)
    return e


def p18_order(base, free):
    """A vertex with 2 to 5 neighbours, the named ones anywhere within [-5,5]^2 (not nearer than 0.2 to the vertex, not in
    the same or opposite direction as another one), several orders of insertion, directions CCW and CW."""
    def fn(ctx, m):
        G = need(ctx, m.pg, "poly2FacesGraph")
        need(ctx, G, "add_edge", "circular_embedding")
        d = list(BASES[base])
        n = len(d)
        for k in free:
            x, y = ctx.real("x%d" % k, -5, 5), ctx.real("y%d" % k, -5, 5)
            ctx.assume(ctx.Or(x > 0.2, x < -0.2, y > 0.2, y < -0.2))
            d[k] = (x, y)
        s = turning(ctx, d)
        c = ctx.choice("centre", [(0.0, 0.0), (10.0, -7.0)])
        z = 2.0
        verts = [m.Vector((c[0] + x, c[1] + y, z)) for x, y in d] + [m.Vector((c[0], c[1], 0.0))]
        g = G()
        order = ctx.choice("order", [tuple(range(n)), tuple(reversed(range(n))), tuple(range(1, n)) + (0,)])
        for k, i in enumerate(order):
            g.add_edge((i, n) if k % 2 else (n, i))
        ccw = list(embed(ctx, m, g, verts, "CCW")[n])
        cw = list(embed(ctx, m, g, verts, "CW")[n])
        ctx.require(sorted(ccw) == list(range(n)) and sorted(cw) == list(range(n)), "neighbours are missing or repeated")
        ctx.require(canon(ccw) == canon(cw[::-1]), "CW is not the reverse of CCW")
        sense = None
        for a, b, e in itertools.combinations(ccw, 3):
            left = s[a, b] + s[b, e] + s[e, a] >= 2
            if sense is None:
                sense = left
            ctx.require(left == sense, "the neighbours are not in the order of their angles")
        if sense is not None:
            # the sense that makes traced faces counterclockwise
            ctx.require(sense is False, "the neighbours are ordered the other way round")
    fn.__doc__ = p18_order.__doc__
    return fn


add("P18", "order2", p18_order("two", [0, 1]), mode="exact", witnesses=2)
add("P18", "order3", p18_order("three", [1]), mode="exact", witnesses=2)
add("P18", "order3b", p18_order("three", [0, 2]), mode="exact", witnesses=2, cost=3)
add("P18", "order4", p18_order("axes", [2]), mode="exact", witnesses=2)
add("P18", "order4b", p18_order("axes", [0]), mode="exact", witnesses=2)
add("P18", "order5", p18_order("five", [3]), mode="exact", witnesses=2)
add("P18", "order5b", p18_order("five", [1, 4]), mode="exact", witnesses=2, cost=4, tier="thorough")
add("P18", "order4c", p18_order("axes", [1, 3]), mode="exact", witnesses=2, cost=4, tier="thorough")


def order_axis(ctx, m):
    """Four neighbours in the directions of the axes, two of them turned by any small angle or none: all distances."""
    G = need(ctx, m.pg, "poly2FacesGraph")
    r = [ctx.real("r%d" % i, 0.1, 50) for i in range(4)]
    t = ctx.choice("turn", [0.0, 1e-3, -1e-3])
    d = [(r[0], t * r[0]), (-t * r[1], r[1]), (-r[2], 0.0 * r[2]), (0.0 * r[3], -r[3])]
    verts = [m.Vector((x, y, 0.0)) for x, y in d] + [m.Vector((0.0, 0.0, 0.0))]
    g = G()
    for i in ctx.choice("order", list(itertools.permutations(range(4)))[::5]):
        g.add_edge((i, 4))
    ctx.require(canon(list(embed(ctx, m, g, verts, "CCW")[4])) == canon([3, 2, 1, 0]), "order of the neighbours")


add("P18", "axis", order_axis, mode="exact", witnesses=2)


# ---- tracing ----
def ngon(n, r=10.0, a=0.3):
    return [(r * math.cos(a + 2 * math.pi * i / n), r * math.sin(a + 2 * math.pi * i / n)) for i in range(n)]


def rnd(pts):
    return [(round(x, 3), round(y, 3)) for x, y in pts]


# name -> (positions, number of footprint vertices, edges, positions that move)
GRAPHS = {}


def graph(name, pts, npoly, edges, free):
    GRAPHS[name] = (rnd(pts), npoly, edges, free)


def loop_edges(first, n):
    return [(first + i, first + (i + 1) % n) for i in range(n)]


for _n in (3, 4, 5, 7):
    graph("wheel%d" % _n, ngon(_n) + [(0.5, 0.3)], _n, loop_edges(0, _n) + [(i, _n) for i in range(_n)], [0, _n])
graph("ridge", [(0, 0), (20, 0), (20, 10), (0, 10), (5, 5), (15, 5.5)], 4, loop_edges(0, 4) + [(0, 4), (3, 4), (4, 5), (1, 5), (2, 5)], [4, 5])
graph("ridge_l", [(0, 0), (20, 0), (20, 9), (10, 9.5), (10, 21), (0, 20), (5, 5), (15, 4.5), (5.5, 15)], 6,
      loop_edges(0, 6) + [(0, 6), (3, 6), (6, 7), (6, 8), (1, 7), (2, 7), (4, 8), (5, 8)], [6, 3])
graph("hole", [(0, 0), (20, 0), (20, 20), (0, 20), (8, 8), (8, 12), (12, 12), (12, 8), (4, 4), (16, 4), (16, 16), (4, 16)], 8,
      loop_edges(0, 4) + loop_edges(4, 4) + [(0, 8), (1, 9), (2, 10), (3, 11), (8, 9), (9, 10), (10, 11), (11, 8), (4, 8), (5, 11), (6, 10), (7, 9)], [8, 5])
graph("floating", [(0, 0), (20, 0), (10, 18), (7, 4), (13, 4.2), (10, 9)], 3,
      loop_edges(0, 3) + [(0, 3), (1, 4), (2, 5), (3, 4), (4, 5), (5, 3)], [3, 5])
graph("spike", [(0, 0), (20, 0), (20, 10), (0, 10), (5, 5), (15, 5.5), (10, 7.5)], 4,
      loop_edges(0, 4) + [(0, 4), (3, 4), (4, 5), (1, 5), (2, 5), (4, 6)], [6, 5])
graph("twig", [(0, 0), (20, 0), (20, 10), (0, 10), (5, 5), (15, 5.5), (10, 7.5), (12, 8.6)], 4,
      loop_edges(0, 4) + [(0, 4), (3, 4), (4, 5), (1, 5), (2, 5), (4, 6), (6, 7)], [6, 7])
# faces that touch the footprint in one vertex, or in two that are no edge, without a footprint edge
graph("wedge", [(0, 0), (20, 0), (20, 10), (0, 10), (6, 3), (5, 6.5)], 4,
      loop_edges(0, 4) + [(0, 4), (0, 5), (4, 5), (3, 5), (1, 4), (2, 5)], [4, 0])
graph("wedge2", [(0, 0), (20, 0), (20, 10), (0, 10), (6, 2), (10, 7), (14, 2.5)], 4,
      loop_edges(0, 4) + [(3, 4), (3, 5), (4, 5), (5, 6), (2, 5), (0, 4), (6, 2), (1, 6), (4, 6)], [5, 3])
graph("lens", [(0, 0), (20, 0), (20, 10), (0, 10), (12, 3), (8, 7)], 4,
      loop_edges(0, 4) + [(0, 4), (2, 4), (2, 5), (0, 5), (1, 4), (3, 5)], [4, 2])
graph("gaps", [(0, 0), (20, 0), (20, 10), (0, 10), (5, 5), (15, 5.5)], 4, loop_edges(0, 4) + [(0, 4), (4, 5), (2, 5)], [4, 5])


def trace(pts, edges):
    """Faces of a straight-line drawing of concrete points, as loops (faces on the left of their sides)."""
    nb = {}
    for a, b in edges:
        nb.setdefault(a, []).append(b)
        nb.setdefault(b, []).append(a)
    for v in nb:
        nb[v].sort(key=lambda w: -math.atan2(pts[w][1] - pts[v][1], pts[w][0] - pts[v][0]))
    todo = {(a, b) for a in nb for b in nb[a]}
    out = []
    while todo:
        a, b = start = min(todo)
        loop = []
        while True:
            todo.discard((a, b))
            loop.append(a)
            k = nb[b]
            a, b = b, k[(k.index(a) + 1) % len(k)]
            if (a, b) == start:
                break
        out.append(loop)
    return out


def p18_trace(name, box, move):
    def fn(ctx, m):
        pts, npoly, edges, _ = GRAPHS[name]
        G = need(ctx, m.pg, "poly2FacesGraph")
        need(ctx, G, "add_vertex", "add_edge", "circular_embedding", "faces")
        want = [canon(f) for f in trace(pts, edges) if any(i >= npoly for i in f)]
        pts = list(pts)
        pos = [(x, y) for x, y in pts]
        for k in move:
            pos[k] = (pos[k][0] + ctx.real("x%d" % k, -box, box), pos[k][1] + ctx.real("y%d" % k, -box, box))
        off = ctx.choice("offset", [(0.0, 0.0), (-57.0, 31.0)])
        verts = [m.Vector((x + off[0], y + off[1], 0.0 if i < npoly else 3.0)) for i, (x, y) in enumerate(pos)]
        how = ctx.choice("how", ["plain", "reversed", "vertices", "loops", "sets"])
        g = G()
        es = list(edges)
        if how == "reversed":
            es = [(b, a) for a, b in es[::-1]]
        elif how == "vertices":
            for i in reversed(range(len(pts))):
                g.add_vertex(i)
        elif how == "sets":
            es = [list(e) if i % 2 else {e[0], e[1]} for i, e in enumerate(es)]
        for i, e in enumerate(es):
            call(ctx, "add_edge", g.add_edge, e)
            if how == "vertices":
                call(ctx, "add_vertex", g.add_vertex, edges[i][0])
            elif how == "loops":
                call(ctx, "add_edge", g.add_edge, (edges[i][0], edges[i][0]))
        got = call(ctx, "faces", g.faces, embed(ctx, m, g, verts, "CCW"), npoly)
        ctx.require(sorted(map(canon, map(list, got))) == sorted(want), "faces %s, expected %s" % (got, want))
        for f in got:
            if any(a < npoly and b < npoly for a, b in zip(f, f[1:] + f[:1])):
                ctx.require(f[0] < npoly and f[1] < npoly, "face %s does not start with its footprint edge" % f)
            t = area2([pos[i] for i in f])
            ctx.require(t >= 0, "face %s is not counterclockwise" % f)
        used = [e for f in got for e in zip(f, f[1:] + f[:1])]
        ctx.require(len(used) == len(set(used)), "a side of an edge is used twice")
    fn.__doc__ = ("Graph '%s': vertices %s each anywhere within %s of their places, two offsets, several ways to insert the edges; "
                  "the drawing stays planar in these bounds." % (name, move, box))
    return fn


for _k, (_p, _np, _e, _free) in GRAPHS.items():
    for _f in _free:
        add("P18", "trace_%s_%d" % (_k, _f), p18_trace(_k, 0.5, [_f]), mode="exact", witnesses=1)
    add("P18", "trace_%s" % _k, p18_trace(_k, 0.5, _free), mode="exact", witnesses=1, tier="thorough", cost=4)


# ------------------------------------------------------------------- P19 --
def faces_of(ctx, m, outline, holes, nodes, conns, how, z=0.0, tan=1.0):
    """polygonize with the skeleton given: nodes [(x, y, height)], conns {node: [indices into footprint + nodes]}.
    how: "plain" or "reversed_sinks", optionally with a number: the node that comes first in the skeleton."""
    how, first = how if isinstance(how, (list, tuple)) else (how, 0)
    perm = [(first + i) % len(nodes) for i in range(len(nodes))]
    if not hasattr(m.pk, "skeletonize") or not hasattr(m.pk, "Subtree"):
        ctx.skip("no skeletonize")
    L = Layout(m, [outline] + holes, z)
    npoly = L.n0
    state = {"called": 0}
    real = m.pk.skeletonize

    def given(contours):
        state["called"] += 1
        flatc = [e for c in contours for e in c]
        o = flatc[0].p1
        dx, dy = o[0] - L.verts[L.first][0], o[1] - L.verts[L.first][1]
        P = [m.Vector((x + dx, y + dy)) for x, y, _ in nodes]
        out = []
        for i, (x, y, h) in enumerate(nodes):
            sinks = [flatc[j].p1 if j < npoly else P[j - npoly] for j in conns[i]]
            out.append(m.pk.Subtree(P[i], h, sinks))
        if how == "reversed_sinks":
            out = [m.pk.Subtree(a.source, a.height, a.sinks[::-1]) for a in out]
        return [out[i] for i in perm]
    m.pk.skeletonize = given
    try:
        faces = L.polygonize(ctx, 0.0, tan)
    finally:
        m.pk.skeletonize = real
    if not state["called"]:
        ctx.skip("polygonize does not call skeletonize of its module")
    return L, [[i if i < npoly else npoly + perm[i - npoly] for i in f] for f in faces]


def hows(n):
    """Ways to give a skeleton of n nodes: each of them in the first place."""
    return [(h, i) for i in range(n) for h in (("plain", "reversed_sinks") if i == 0 else ("plain", "reversed_sinks")[i % 2:][:1])]


def same_loops(ctx, got, want):
    ctx.require(sorted(map(canon, map(list, got))) == sorted(map(canon, map(list, want))), "faces %s, expected %s" % (got, want))


def begin_ok(ctx, got, npoly, edges):
    E = set(edges)
    for f in got:
        if any(e in E for e in zip(f, f[1:] + f[:1])):
            ctx.require((f[0], f[1]) in E, "face %s does not start with a footprint edge" % f)


# skeletons without defects: name -> (outline, holes, nodes, connections, nodes that move)
CLEAN = {
    "ridge": ([(0, 0), (20, 0), (20, 10), (0, 10)], [], [(5, 5), (15, 5)], {0: [0, 3, 5], 1: [1, 2]}, [0, 1]),
    "pyramid": ([(0, 0), (10, 0), (10, 10), (0, 10)], [], [(5, 5)], {0: [0, 1, 2, 3]}, [0]),
    "bent": ([(0, 0), (20, 0), (20, 10), (0, 10)], [], [(4, 5), (16, 5), (10, 7)], {0: [0, 3, 6], 1: [1, 2], 2: [5]}, [2, 0]),
    "straightvertex": ([(0, 0), (9, 0), (20, 0), (20, 10), (0, 10)], [], [(5, 5), (9, 4.2), (15, 5)],
                       {0: [0, 4, 6], 1: [1, 7], 2: [2, 3]}, [1, 0]),
    "l": ([(0, 0), (20, 0), (20, 9), (10, 9), (10, 21), (0, 21)], [], [(5, 4.5), (15, 4.5), (5, 16)], {0: [0, 3, 7, 8], 1: [1, 2], 2: [4, 5]}, [0, 2]),
    "hole": ([(0, 0), (20, 0), (20, 20), (0, 20)], [[(8, 8), (8, 12), (12, 12), (12, 8)]],
             [(4, 4), (16, 4), (16, 16), (4, 16)], {0: [0, 4, 9], 1: [1, 7, 10], 2: [2, 6, 11], 3: [3, 5, 8]}, [0, 2]),
    "floating": ([(0, 0), (20, 0), (10, 18)], [], [(7, 4), (13, 4), (10, 9)], {0: [0, 4, 5], 1: [1, 5], 2: [2]}, [2, 0]),
    "threefaces": ([(0, 0), (20, 0), (20, 10), (10, 14), (0, 10)], [], [(5, 5), (10, 5), (15, 5)], {0: [0, 4, 6], 1: [3, 7], 2: [1, 2]}, [1, 0]),
}


def all_edges(nfirst, lens, conns):
    out, k = [], 0
    for n in lens:
        out += loop_edges(k, n)
        k += n
    return out, out + [(nfirst + i, j) for i, js in conns.items() for j in js]


def p19_clean(name, mv):
    def fn(ctx, m):
        outline, holes, nodes, conns, _ = CLEAN[name]
        nodes = [(x, y, 3.0) for x, y in nodes]
        x, y = ctx.real("x", -0.6, 0.6), ctx.real("y", -0.6, 0.6)
        npoly = len(outline) + sum(map(len, holes))
        base = list(outline) + [p for h in holes for p in h] + [(a, b) for a, b, _ in nodes]
        nodes[mv] = (nodes[mv][0] + x, nodes[mv][1] + y, 3.0)
        poly, edges = all_edges(npoly, [len(outline)] + [len(h) for h in holes], conns)
        want = [f for f in trace(base, edges) if any(i >= npoly for i in f)]
        how = ctx.choice("how", hows(len(nodes)))
        z = ctx.choice("z", [0.0, -7.5])
        L, got = faces_of(ctx, m, outline, holes, nodes, conns, how, z)
        same_loops(ctx, got, want)
        begin_ok(ctx, got, npoly, poly)
    fn.__doc__ = "Skeleton '%s' without spikes and straight nodes, node %d anywhere within 0.6: the faces are those of the drawing." % (name, mv)
    return fn


for _k, _v in CLEAN.items():
    for _i in _v[4]:
        add("P19", "clean_%s_%d" % (_k, _i), p19_clean(_k, _i), mode="exact", witnesses=2)


RECT = [(0, 0), (20, 0), (20, 10), (0, 10)]


def p19_straight(ctx, m):
    """A rectangle whose ridge (or one connection to a corner) has one or two further nodes, on the ridge at all places or beside it by 1 to 2.5: a node on it
    is dropped from both faces, one beside it is kept; a node on the ridge with a third face is kept."""
    what = ctx.choice("what", ["one", "two", "aside", "hip", "one_aside"])
    t = ctx.real("t", 7, 9.5)
    y = ctx.choice("slope", [0, 0.5])
    A, B = (5, 5, 3.0), (15, 5 + y, 3.0)
    on = lambda x: (x, 5 + y * (x - 5) / 10)
    if what == "one":
        nodes, conns = [A, B, on(t) + (3.0,)], {0: [0, 3, 6], 1: [1, 2, 6], 2: []}
        want = [[0, 1, 5, 4], [1, 2, 5], [2, 3, 4, 5], [3, 0, 4]]
    elif what == "two":
        u = ctx.real("u", 10, 13)
        nodes, conns = [A, B, on(t) + (3.0,), on(u) + (3.0,)], {0: [0, 3, 6], 1: [1, 2], 2: [7], 3: [5]}
        want = [[0, 1, 5, 4], [1, 2, 5], [2, 3, 4, 5], [3, 0, 4]]
    elif what == "hip":     # on the connection from the ridge to a footprint vertex, in a triangle
        nodes, conns = [A, B, (15 + (t - 6) * 1.25, (5 + y) * (1 - (t - 6) * 0.25), 3.0)], {0: [0, 3, 5], 1: [2, 6], 2: [1]}
        want = [[0, 1, 5, 4], [1, 2, 5], [2, 3, 4, 5], [3, 0, 4]]
    elif what == "aside":
        d = ctx.real("d", 1, 2.5)
        p = on(t)
        nodes, conns = [A, B, (p[0], p[1] + d, 3.0)], {0: [0, 3, 6], 1: [1, 2, 6], 2: []}
        want = [[0, 1, 5, 6, 4], [1, 2, 5], [2, 3, 4, 6, 5], [3, 0, 4]]
    else:
        d = ctx.real("d", 1, 2.5)
        # 6 on the connection 4-7, 7 beside the ridge
        x, yy = 11, 5 - d
        s = ctx.real("s", 0.2, 0.8)
        nodes = [A, B, (5 + s * (x - 5), 5 + s * (yy - 5), 3.0), (x, yy, 3.0)]
        conns = {0: [0, 3, 6], 1: [1, 2], 2: [7], 3: [5]}
        want = [[0, 1, 5, 7, 4], [1, 2, 5], [2, 3, 4, 7, 5], [3, 0, 4]]
    L, got = faces_of(ctx, m, RECT, [], nodes, conns, ctx.choice("how", hows(len(nodes))))
    same_loops(ctx, got, want)
    begin_ok(ctx, got, 4, loop_edges(0, 4))


add("P19", "straight", p19_straight, mode="exact", witnesses=3)


def p19_junction(ctx, m):
    """A node lying straight on the ridge at which a third face begins is kept in all faces, wherever on the ridge; the straight
    footprint vertex is kept, too."""
    t = ctx.real("t", 7, 13)
    A, B, T = (5, 5, 3.0), (15, 5, 3.0), (t, 5, 3.0)
    outline = [(0, 0), (9, 0), (20, 0), (20, 10), (0, 10)]
    nodes, conns = [A, B, T], {0: [0, 4, 7], 1: [2, 3, 7], 2: [1]}
    want = [[0, 1, 7, 5], [1, 2, 6, 7], [2, 3, 6], [3, 4, 5, 7, 6], [4, 0, 5]]
    L, got = faces_of(ctx, m, outline, [], nodes, conns, ctx.choice("how", hows(len(nodes))))
    same_loops(ctx, got, want)
    begin_ok(ctx, got, 5, loop_edges(0, 5))


add("P19", "junction", p19_junction, mode="exact", witnesses=2)


def p19_twig(ctx, m):
    """A dangling node at a ridge node, anywhere within 1.5 of a place beside the ridge: it is removed from its face; chains of two
    dangling nodes likewise."""
    x, y = ctx.real("x", -1.5, 1.5), ctx.real("y", -1, 1)
    side = ctx.choice("side", [2, -2])
    what = ctx.choice("what", ["twig", "chain", "two"])
    A, B = (5, 5, 3.0), (15, 5.5, 3.0)
    T = (10 + x, 5.2 + side + y, 3.0)
    nodes, conns = [A, B, T], {0: [0, 3, 5, 6], 1: [1, 2], 2: []}
    if what == "chain":
        nodes.append((12.5, 5.3 + 1.6 * side, 3.0))
        conns[2] = [7]
        conns[3] = []
    if what == "two":
        nodes.append((12.5, 5.3 - side, 3.0))
        conns[1] = [1, 2, 7]
        conns[3] = []
    L, got = faces_of(ctx, m, RECT, [], nodes, conns, ctx.choice("how", hows(len(nodes))))
    same_loops(ctx, got, [[0, 1, 5, 4], [1, 2, 5], [2, 3, 4, 5], [3, 0, 4]])
    begin_ok(ctx, got, 4, loop_edges(0, 4))


add("P19", "twig", p19_twig, mode="exact", witnesses=3)

PENTA = [(0, 0), (20, 0), (20, 12), (10, 13), (0, 12)]


def p19_fold(ctx, m):
    """A node at which the two sides of a face fold back on each other (by less than 1 degree), moved by up to 0.8 to
    the side or up and down; with a
    third connection to a footprint vertex the faces along the spike are joined, without one it is removed from both faces."""
    t = ctx.real("t", -0.8, 0.8)
    x, y = (0, t) if ctx.choice("up", [0, 1]) else (t, 0)
    s = ctx.choice("foot", [0.7, 0.45])
    A, B = (5, 5, 3.0), (15, 5, 3.0)
    T = (10 + x, 9 + y, 3.0)
    P = (10.2, 4, 3.0)
    dx, dy = P[0] - T[0], P[1] - T[1]
    # q: on the line from the peak to p, a little to the left of it as seen from p
    Q = (T[0] + s * dx + 0.004 * dy, T[1] + s * dy - 0.004 * dx, 3.0)
    third = ctx.choice("third", [1, 0])
    nodes = [A, B, P, Q, T]
    conns = {0: [0, 4, 8], 1: [1, 2, 7], 2: [9], 3: [9], 4: [3] if third else []}
    L, got = faces_of(ctx, m, PENTA, [], nodes, conns, ctx.choice("how", hows(len(nodes))))
    if third:
        want = [[0, 1, 6, 7, 8, 5], [1, 2, 6], [2, 3, 4, 5, 8, 7, 6], [4, 0, 5]]
    else:
        want = [[0, 1, 6, 7, 8, 5], [1, 2, 6], [2, 3, 4, 5, 8, 7, 6], [4, 0, 5]]
    same_loops(ctx, got, want)
    begin_ok(ctx, got, 5, loop_edges(0, 5))


add("P19", "fold", p19_fold, mode="exact", witnesses=2, cost=2)


def p19_quad(ctx, m):
    """A node T at which a face of four vertices folds back to a footprint vertex (by less than 1 or 7 degrees), T anywhere within 0.6.
    The faces along the spike are different ones or the same; one of them may touch the footprint in a single vertex only."""
    x, y = ctx.real("x", -0.6, 0.6), 0
    if ctx.choice("up", [0, 1]):
        x, y = y, x
    T = (8 + x, 6 + y, 3.0)
    dx, dy = 20 - T[0], -T[1]
    s = ctx.choice("foot", [0.4, 0.7])
    k = ctx.choice("off", [0.004, 0.045]) if s == 0.4 else 0.004
    Q = (T[0] + s * dx + k * dy, T[1] + s * dy - k * dx, 3.0)
    what = ctx.choice("what", ["same", "triple", "joined", "isolated"])
    nodes = [Q, T]          # 4, 5
    if what == "same":
        conns = {0: [0, 5], 1: [1]}
        want = [[0, 1, 4], [1, 2, 3, 0, 4]]
    elif what == "triple":
        conns = {0: [0, 5], 1: [1, 2]}
        want = [[0, 1, 4], [1, 2, 3, 0, 4]]
    elif what == "joined":
        conns = {0: [0, 5], 1: [1, 2, 3]}
        want = [[0, 1, 4], [1, 2, 5, 3, 0, 4], [2, 3, 5]]
    else:
        nodes.append((14, 6.5, 3.0))        # 6
        conns = {0: [0, 5], 1: [1, 3], 2: [1, 2, 5]}
        want = [[0, 1, 4], [3, 0, 4, 1, 6, 5], [1, 2, 6], [2, 3, 5, 6]]
    L, got = faces_of(ctx, m, RECT, [], nodes, conns, ctx.choice("how", hows(len(nodes))))
    same_loops(ctx, got, want)
    begin_ok(ctx, got, 4, loop_edges(0, 4))


add("P19", "quad", p19_quad, mode="exact", witnesses=2)


def p19_sharp(ctx, m):
    """A footprint with a sharp corner (7 degrees) whose faces have a dangling node each: the footprint vertex stays, the dangling
    nodes go, wherever they are."""
    x, y = ctx.real("x", -0.5, 0.5), ctx.real("y", -0.4, 0.4)
    outline = [(0, 0), (60, 0), (60, 8)]
    C = (56, 3.5, 3.0)
    side = ctx.choice("side", [0, 1])
    T = (54.5 + x, 1.2 + y, 3.0) if side == 0 else (54 + x, 5.2 + y, 3.0)
    nodes, conns = [C, T], {0: [0, 1, 2, 4], 1: []}
    r = ctx.choice("start", [0, 1, 2])
    outline = outline[r:] + outline[:r]
    ren = lambda i: (i - r) % 3 if i < 3 else i
    conns = {0: [ren(0), ren(1), ren(2), 4], 1: []}
    L, got = faces_of(ctx, m, outline, [], nodes, conns, ctx.choice("how", hows(len(nodes))))
    same_loops(ctx, got, [[ren(0), ren(1), 3], [ren(1), ren(2), 3], [ren(2), ren(0), 3]])
    begin_ok(ctx, got, 3, loop_edges(0, 3))


add("P19", "sharp", p19_sharp, mode="exact", witnesses=2)
