"""P12 merging of nodes, P13 clean-up of connections: one step from an arbitrary small skeleton."""
import itertools
import math

from .api import *
from .library import ALL, GENERAL, REPO, OWN, arc as arc_points
from .registry import add
from .h_api import moved, lib, flat


def sub(m, src, h, sinks):
    return m.pk.Subtree(src, h, list(sinks))


def same(ctx, p, q, tol=0):
    return ctx.And(ctx.close(p[0], q[0], tol), ctx.close(p[1], q[1], tol))


def man(ctx, p, q):
    """Manhattan distance (branches on the signs)."""
    dx, dy = p[0] - q[0], p[1] - q[1]
    if ctx.is_true(dx < 0):
        dx = -dx
    if ctx.is_true(dy < 0):
        dy = -dy
    return dx + dy


SQUARE = [(0.0, 0.0), (20.0, 0.0), (20.0, 20.0), (0.0, 20.0)]


def contour(m, pts):
    return edge_contours(m, [pts])


def mean(ps):
    n = len(ps)
    return tuple(sum(p[i] for p in ps) / n for i in range(3))


def check_merged(ctx, nodes, groups_ok, sk, corners, bound=0.1):
    """nodes: list of (name, (x, y, h), [targets]) before merging, targets are node names or corner numbers.
    groups_ok(partition, result) is called with the group of every result node.  Checks that sk is the quotient of the
    skeleton before by some partition of the nodes, and returns the partition."""
    pos = {n: p for n, p, _ in nodes}
    names = [n for n, _, _ in nodes]
    # which partition?  tried from the finest to the coarsest; branches on positions only
    for part in partitions(names):
        if len(part) != len(sk):
            continue
        for want in centres(part, pos):
            perm = match_nodes(ctx, want, sk)
            if perm is not None:
                break
        else:
            continue
        group = {n: k for k, g in enumerate(part) for n in g}
        for k, g in enumerate(part):
            a = sk[perm[k]]
            ctx.require(ctx.close(a.height, want[k][2], 1e-3), "height of a node is not the mean of its members")
            exp = []
            for n, _, ts in nodes:
                if n in g:
                    for t in ts:
                        e = ("c", t) if isinstance(t, int) else ("n", group[t])
                        if e != ("n", k) and e not in exp:
                            exp.append(e)
            left = list(a.sinks)
            ctx.require(len(left) == len(exp), "a node has %d connections, expected %d" % (len(left), len(exp)))
            for kind, t in exp:
                p = corners[t] if kind == "c" else want[t]
                hit = [s for s in left if ctx.is_true(same(ctx, s, p, 1e-4))]
                ctx.require(len(hit) == 1, "a connection is lost, doubled or points at a removed node")
                left = [s for s in left if s is not hit[0]]
        return part, want
    ctx.fail("the nodes after merging are not the means of groups of nodes")


def partitions(xs):
    if not xs:
        yield []
        return
    x, rest = xs[0], xs[1:]
    for p in partitions(rest):
        yield [[x]] + p
        for i in range(len(p)):
            yield p[:i] + [[x] + p[i]] + p[i + 1:]


def centres(part, pos):
    """Possible positions of the groups: the mean; for three members also the mean of one and the mean of the others."""
    opts = []
    for g in part:
        ps = [pos[n] for n in g]
        o = [mean(ps)]
        if len(g) == 3:
            for i in range(3):
                o.append(mean([mean([ps[j] for j in range(3) if j != i]), ps[i]]))
        opts.append(o)
    return itertools.product(*opts)


def match_nodes(ctx, want, sk):
    perm = []
    for w in want:
        hit = [i for i, a in enumerate(sk) if i not in perm and ctx.is_true(same(ctx, a.source, w, 1e-5))]
        if not hit:
            return None
        perm.append(hit[0])
    return perm


CONN = [
    # three nodes in a row, each with a corner
    {"a": [0, "b"], "b": [1], "c": [2, "b"], "f": ["a", 3]},
    # the first two not connected to each other; both connected to the same far node
    {"a": [0], "b": [1], "c": [2], "f": ["a", "b", 3]},
    {"a": ["f", 0], "b": ["f", 1], "c": ["f"], "f": [2, 3]},
    {"a": ["b", 0], "b": ["c", "f"], "c": [1], "f": [3, 2]},
]


def build(m, ctx, conn, pos, order):
    corners = [m.Vector(p) for p in SQUARE]
    src = {n: m.Vector(pos[n][:2]) for n in pos}
    sk = [sub(m, src[n], pos[n][2], [corners[t] if isinstance(t, int) else src[t] for t in conn[n]]) for n in order]
    nodes = [(n, pos[n], conn[n]) for n in order]
    return sk, nodes, corners


def p12_pair(ctx, m):
    """Two nodes at all positions within 0.25 of each other, all heights in [1,5], and a third and fourth node far away, in
    four ways of being connected and three orders."""
    f = need(ctx, m.pk, "mergeNodeClusters")
    conn = CONN[ctx.choice("conn", [0, 1, 2, 3])]
    order = ctx.choice("order", ["abcf", "fcba", "bfac"])
    x, y = ctx.real("x", 6, 7), ctx.real("y", 9, 10)
    dx, dy = ctx.real("dx", -0.25, 0.25), ctx.real("dy", -0.25, 0.25)
    ha, hb = ctx.real("ha", 1, 5), ctx.real("hb", 1, 5)
    pos = {"a": (x, y, ha), "b": (x + dx, y + dy, hb), "c": (13, 9, 4.5), "f": (10, 12, 3.25)}
    d = man(ctx, pos["a"], pos["b"])
    ctx.assume(d > 0.001)
    near = ctx.is_true(d < 0.1)
    ctx.assume(d < 0.0999 if near else d > 0.1001)
    sk, nodes, corners = build(m, ctx, conn, pos, order)
    out = call(ctx, "mergeNodeClusters", f, sk, contour(m, SQUARE))
    part, want = check_merged(ctx, nodes, None, out, corners)
    big = [sorted(g) for g in part if len(g) > 1]
    ctx.require(big == ([["a", "b"]] if near else []), "groups %s" % big)


add("P12", "pair", p12_pair, mode="exact", cost=2)


def p12_triple(ctx, m):
    """Three nodes at all positions within 0.12 of a point, all heights in [1,5], and a far node."""
    f = need(ctx, m.pk, "mergeNodeClusters")
    conn = CONN[ctx.choice("conn", [0, 2])]
    order = ctx.choice("order", ["abcf", "fcba"])
    s = {}
    for n in "abc":
        s[n] = (6 + ctx.real("x" + n, -0.12, 0.12), 9 + ctx.real("y" + n, -0.12, 0.12) if n != "a" else 9, ctx.real("h" + n, 1, 5))
    pos = dict(s, f=(10, 12, 3.25))
    near = 0
    for p, q in itertools.combinations("abc", 2):
        d = man(ctx, s[p], s[q])
        ctx.assume(d > 0.002)
        n = ctx.is_true(d < 0.1)
        ctx.assume(d < 0.099 if n else d > 0.101)
        near += n
    sk, nodes, corners = build(m, ctx, conn, pos, order)
    out = call(ctx, "mergeNodeClusters", f, sk, contour(m, SQUARE))
    part, want = check_merged(ctx, nodes, None, out, corners)
    sizes = sorted(len(g) for g in part)
    if near == 0:
        ctx.require(sizes == [1, 1, 1, 1], "nodes that are far apart are merged")
    elif near == 3:
        ctx.require(sizes == [1, 3], "nodes that are close together are not merged")
        w = [want[k] for k, g in enumerate(part) if len(g) == 3][0]
        c = mean([s[n] for n in "abc"])
        ctx.require(ctx.And(same(ctx, w, c, 1e-5), ctx.close(w[2], c[2], 1e-3)), "a merged node is not at the mean of its members")
    else:
        ctx.require(sizes != [1, 1, 1, 1], "nodes that are close together are not merged")
        if near == 1:
            ctx.require(all(len(g) < 3 for g in part) or True, "")
    for i, p in enumerate(want):
        for q in want[:i]:
            ctx.require(man(ctx, p, q) > 0.1 - 1e-4, "two nodes within 0.1 remain")


add("P12", "triple", p12_triple, mode="exact", cost=4)


def p12_two_pairs(ctx, m):
    """Two pairs of close nodes, connected to each other; all positions of the second member of each pair."""
    f = need(ctx, m.pk, "mergeNodeClusters")
    conn = {"a": [0, "c"], "b": [1, "d"], "c": [2], "d": [3, "a"]} if ctx.choice("conn", [0, 1]) else \
        {"a": [0, "b"], "b": ["c", 1], "c": ["d", 2], "d": [3]}
    order = ctx.choice("order", ["abcd", "dacb"])
    pos = {"a": (6, 9, 2.0), "c": (12, 9, 3.0)}
    for n, b in (("b", "a"), ("d", "c")):
        dx, dy = ctx.real("x" + n, -0.2, 0.2), ctx.real("y" + n, -0.2, 0.2)
        pos[n] = (pos[b][0] + dx, pos[b][1] + dy, ctx.real("h" + n, 1, 5))
    big = []
    for p, q in ("ab", "cd"):
        d = man(ctx, pos[p], pos[q])
        ctx.assume(d > 0.001)
        n = ctx.is_true(d < 0.1)
        ctx.assume(d < 0.0999 if n else d > 0.1001)
        if n:
            big.append([p, q])
    sk, nodes, corners = build(m, ctx, conn, pos, order)
    out = call(ctx, "mergeNodeClusters", f, sk, contour(m, SQUARE))
    part, want = check_merged(ctx, nodes, None, out, corners)
    got = sorted(sorted(g) for g in part if len(g) > 1)
    ctx.require(got == big, "groups %s" % got)


add("P12", "two_pairs", p12_two_pairs, mode="exact", cost=2)


def p12_same(ctx, m):
    """Two or three nodes in exactly the same place, all positions and heights: one node takes over every connection once."""
    f = need(ctx, m.pk, "mergeNodeClusters")
    x, y = ctx.real("x", 6, 8), ctx.real("y", 8, 10)
    h = ctx.real("h", 1, 5)
    n = ctx.choice("n", [2, 3])
    how = ctx.choice("how", [0, 1, 2])
    corners = [m.Vector(p) for p in SQUARE]
    same3 = [m.Vector((x, y)) for _ in range(n)]
    far, far2 = m.Vector((12, 11)), m.Vector((12, 8))
    sinks = [[[corners[0], far], [corners[1], far]], [[corners[0]], [corners[1], far]], [[far, corners[0]], [corners[1], far.copy(), far2]]][how]
    sinks.append([corners[3], far2])
    nodes = [sub(m, same3[i], h, sinks[i]) for i in range(n)]
    f1, f2 = sub(m, far, 4.0, [corners[2]] if how != 1 else [corners[2], same3[0]]), sub(m, far2, 3.0, [far])
    sk = [[f1] + nodes + [f2], nodes[:1] + [f2, f1] + nodes[1:]][ctx.choice("order", [0, 1])]
    want = []
    for i in range(n):
        for s in sinks[i]:
            if not any(s == w for w in want):
                want.append(s)
    out = call(ctx, "mergeNodeClusters", f, sk, contour(m, SQUARE))
    ctx.require(len(out) == 3, "%d nodes, expected 3" % len(out))
    hit = [a for a in out if ctx.is_true(same(ctx, a.source, (x, y), 1e-5))]
    ctx.require(len(hit) == 1, "the node has moved")
    a = hit[0]
    ctx.require(ctx.close(a.height, h, 1e-3), "height")
    ctx.require(len(a.sinks) == len(want), "connections of the merged node: %d, expected %d" % (len(a.sinks), len(want)))
    for w in want:
        ctx.require(sum(1 for s in a.sinks if ctx.is_true(same(ctx, s, w, 1e-4))) == 1, "a connection is lost or doubled")
    for b in out:
        if b is not a:
            if ctx.is_true(same(ctx, b.source, far, 1e-4)):
                ctx.require(len(b.sinks) == (2 if how == 1 else 1) and ctx.is_true(ctx.close(b.height, 4.0)), "another node is changed")
            else:
                ctx.require(len(b.sinks) == 1 and ctx.is_true(ctx.close(b.height, 3.0)), "another node is changed")


add("P12", "same", p12_same, mode="exact")


def p12_detail(ctx, m):
    """Two close nodes that join two or three footprint vertices, two of them at all distances from 0.05 to 0.6: kept apart
    below 0.2."""
    f = need(ctx, m.pk, "mergeNodeClusters")
    e = ctx.real("e", 0.05, 0.6)
    small = ctx.is_true(e < 0.2)
    ctx.assume(e < 0.199 if small else e > 0.201)
    x, d = ctx.real("x", 9, 11), ctx.real("d", 0.01, 0.09)
    flip = ctx.choice("flip", [0, 1])
    pts = [(0.0, 0.0), (10, 0.0), (10 + e, 0.0), (20.0, 0.0), (20.0, 20.0), (0.0, 20.0)]
    c = [m.Vector(p) for p in pts]
    a, b, g = m.Vector((x, 5)), m.Vector((x + d, 5)), m.Vector((10, 10))
    ja, jb, jg = ctx.choice("joined", [([1], [2], [0, 3, 4, 5]), ([0, 1], [2], [3, 4, 5]), ([1], [2, 3], [0, 4, 5]), ([0, 1], [3, 2], [4, 5])])
    sk = [sub(m, a, 2.0, [c[i] for i in ja] + [g]), sub(m, b, 2.5, [c[i] for i in jb] + [a]), sub(m, g, 5.0, [c[i] for i in jg])]
    if flip:
        sk = [sk[2], sk[1], sk[0]]
    edges = [m.eu.Edge2(c[i], c[(i + 1) % 6], m.Vector((1.0, 0.0)) if i < 3 else None) for i in range(6)]
    out = call(ctx, "mergeNodeClusters", f, sk, [edges])
    nodes = [("a", (x, 5, 2.0), ja + ["g"]), ("b", (x + d, 5, 2.5), jb + ["a"]), ("g", (10, 10, 5.0), jg)]
    part, want = check_merged(ctx, nodes, None, out, pts)
    big = [sorted(g) for g in part if len(g) > 1]
    ctx.require(big == ([] if small else [["a", "b"]]), "groups %s with footprint vertices %s 0.2 apart" % (big, "less than" if small else "more than"))


add("P12", "detail", p12_detail, mode="exact")


def p12_same_detail(ctx, m):
    """Two nodes in exactly the same place that join two footprint vertices at all distances from 0.05 to 0.6: always one node
    with all connections."""
    f = need(ctx, m.pk, "mergeNodeClusters")
    e = ctx.real("e", 0.05, 0.6)
    x, y, h = ctx.real("x", 9, 11), ctx.real("y", 3, 6), ctx.real("h", 1, 4)
    pts = [(0.0, 0.0), (10, 0.0), (10 + e, 0.0), (20.0, 0.0), (20.0, 20.0), (0.0, 20.0)]
    c = [m.Vector(p) for p in pts]
    a, b, g = m.Vector((x, y)), m.Vector((x, y)), m.Vector((10, 10))
    sk = [sub(m, a, h, [c[1], g]), sub(m, b, h, [c[2], g]), sub(m, g, 5.0, [c[0], c[3], c[4], c[5]])]
    sk = [sk[i] for i in ctx.choice("order", [(0, 1, 2), (2, 1, 0), (1, 2, 0)])]
    edges = [m.eu.Edge2(c[i], c[(i + 1) % 6], m.Vector((1.0, 0.0)) if i < 3 else None) for i in range(6)]
    out = call(ctx, "mergeNodeClusters", f, sk, [edges])
    ctx.require(len(out) == 2, "nodes in exactly the same place are not merged")
    for q in out:
        if ctx.is_true(same(ctx, q.source, g, 1e-4)):
            has(ctx, q, [c[0], c[3], c[4], c[5]], "the other node")
        else:
            ctx.require(ctx.And(same(ctx, q.source, a, 1e-5), ctx.close(q.height, h, 1e-3)), "place or height of the merged node")
            has(ctx, q, [c[1], c[2], g], "the merged node")


add("P12", "same_detail", p12_same_detail, mode="exact")


def p12_apse(ctx, m):
    """A contour with an apse in all positions; two nodes that are 0.02 to 0.09 apart, near its centre (kept apart) or more
    than 3.5 away (merged); nodes that are less than 0.0005 apart are merged everywhere."""
    f = need(ctx, m.pk, "mergeNodeClusters")
    tx, ty = ctx.real("tx", -20, 20), ctx.real("ty", -20, 20)
    r = ctx.choice("start", [0, 3, 9])
    where = ctx.choice("where", [(0.3, 0.4), (-1.2, 0.8), (-1.5, -1.2), (-4.5, 0.3), (-6.0, -0.4), (-3.6, 0.0)])
    dx, dy = ctx.choice("dir", [(1, 0), (0, -1)])
    d = ctx.real("d", 0.0001, 0.09)
    coin = ctx.is_true(d < 0.001)
    ctx.assume(d < 0.0005 if coin else d > 0.02)
    pts = [(0.0, -5.0), (12.0, -5.0)] + arc_points(12.0, 0.0, 5.0, -math.pi / 2, math.pi / 2, 9)[1:-1] + [(12.0, 5.0), (0.0, 5.0)]
    pts = [(x + tx, y + ty) for x, y in pts]
    cont = contour(m, pts[r:] + pts[:r])
    cx, cy = 12.0 + where[0] + tx, where[1] + ty
    a, b, g = m.Vector((cx, cy)), m.Vector((cx + d * dx, cy + d * dy)), m.Vector((4.0 + tx, 0.0 + ty))
    c = [m.Vector(p) for p in pts]
    sk = [sub(m, a, 4.0, [c[3], g]), sub(m, b, 4.5, [c[7], a]), sub(m, g, 5.0, [c[0], c[10]])]
    out = call(ctx, "mergeNodeClusters", f, sk, cont)
    close = abs(where[0]) + abs(where[1]) < 3
    nodes = [("a", (cx, cy, 4.0), [3, "g"]), ("b", (cx + d * dx, cy + d * dy, 4.5), [7, "a"]), ("g", (4.0 + tx, 0.0 + ty, 5.0), [0, 10])]
    part, want = check_merged(ctx, nodes, None, out, pts)
    big = [sorted(g) for g in part if len(g) > 1]
    ctx.require(big == ([] if close and not coin else [["a", "b"]]), "groups %s, %s the centre of an apse" % (big, "near" if close else "far from"))


add("P12", "apse", p12_apse, mode="float", cost=2)


def p12_lib(ctx, m, cs):
    """Roof nodes of whole footprints, all positions in [-100,100]^2: no two within 0.1, except near the centre of an apse."""
    tx, ty = ctx.real("tx", -100, 100), ctx.real("ty", -100, 100)
    L = Layout(m, moved(cs, tx, ty))
    L.polygonize(ctx, 0.0, 1.0)
    ctx.require(len(L.nodes()) > 0, "a roof has no nodes")
    ap = ref_apse_centres(cs[0])
    ns = [v for v in L.nodes() if all(abs(flat(v[0] - tx - c[0])) + abs(flat(v[1] - ty - c[1])) > 3.11 for c in ap)]
    for i, p in enumerate(ns):
        for q in ns[:i]:
            ctx.require(abs(flat(p[0] - q[0])) + abs(flat(p[1] - q[1])) >= 0.1 - 1e-5, "two roof nodes within 0.1")


def _wide(k):
    vs = [p for c in ALL[k] for p in c]
    return all(abs(p[0] - q[0]) + abs(p[1] - q[1]) > 0.3 for i, p in enumerate(vs) for q in vs[:i])


lib("P12", [k for k in GENERAL["P02"] if _wide(k)], p12_lib)


# ------------------------------------------------------------------- P13 --
UNIT = [(1, 0), (0, 1), (-1, 0), (0, -1), (0.6, 0.8), (0.8, -0.6), (-0.8, 0.6), (-0.6, -0.8), (-0.28, 0.96), (0.28, -0.96)]
DIR5 = [0, 1, 4, 5, 7, 8]


def ray(m, p, u, t):
    return m.Vector((p[0] + u[0] * t, p[1] + u[1] * t))


def ends(ctx, sk, node):
    hit = [a for a in sk if a.source is node]
    ctx.require(len(hit) == 1, "a node is gone or doubled")
    return hit[0]


def has(ctx, a, wanted, what):
    ctx.require(len(a.sinks) == len(wanted), "%s has %d connections, expected %d" % (what, len(a.sinks), len(wanted)))
    for w in wanted:
        ctx.require(sum(1 for s in a.sinks if s is w or ctx.is_true(same(ctx, s, w, 1e-5))) == 1, "connections of %s" % what)


def p13_ghost(ctx, m):
    """A node in all positions with two connections in the same direction (10 directions, all lengths) and a third one in
    another direction (all lengths); every order of the connections, and the nearer end is a node that comes before or
    after it; the farther end is a node or a footprint vertex."""
    f = need(ctx, m.pk, "removeGhosts")
    s = m.Vector((ctx.real("x", -20, 20), ctx.real("y", -20, 20)))
    i = ctx.choice("dir", list(range(10)))
    u = UNIT[i]
    w = UNIT[ctx.choice("third", [(i + 1) % 10, (i + 2) % 10, (i + 5) % 10])]
    if u[0] * w[0] + u[1] * w[1] > 0.95:
        w = (-u[1], u[0])
    ta, tb, tc = ctx.real("ta", 0.5, 10), ctx.real("tb", 0.5, 10), ctx.real("tc", 0.5, 10)
    k = ctx.choice("off", [0, 0.003]) if i in (0, 4) else 0       # in the same direction up to 0.2 degrees
    near, far, third = ray(m, s, u, ta), ray(m, s, (u[0] - k * u[1], u[1] + k * u[0]), ta + tb), ray(m, s, w, tc)
    other = ray(m, near, (u[1], -u[0]), 5)
    sinks = ctx.choice("sinks", list(itertools.permutations(range(3))))
    sinks = [[near, far, third][k] for k in sinks]
    S = sub(m, s, 2.0, sinks)
    N = sub(m, near, 3.0, [other])
    F = sub(m, far, 4.0, [m.Vector((70, 80))])
    sk = [[S, N], [N, S], [F, S, N], [N, F, S]][ctx.choice("nodes", [0, 1, 2, 3])]
    n = len(sk)
    call(ctx, "removeGhosts", f, sk)
    ctx.require(len(sk) == n, "number of nodes changed")
    has(ctx, ends(ctx, sk, s), [third], "the node")
    has(ctx, ends(ctx, sk, near), [other, far], "the nearer end")
    if n == 3:
        has(ctx, ends(ctx, sk, far), [m.Vector((70, 80))], "the farther end")
    ctx.require(ctx.And(ends(ctx, sk, s).height == 2.0, ends(ctx, sk, near).height == 3.0), "heights changed")


add("P13", "ghost", p13_ghost, mode="exact", cost=4, rlimit=4_000_000)


def p13_second(ctx, m):
    """Two footprint vertices in the same direction (kept) and, in another direction, a ghost pair whose nearer end is a
    node (resolved), in every order."""
    f = need(ctx, m.pk, "removeGhosts")
    s = m.Vector((ctx.real("x", -20, 20), ctx.real("y", -20, 20)))
    u, w = ctx.choice("dirs", [((1, 0), (0, 1)), ((0.6, 0.8), (0.8, -0.6)), ((0, -1), (-0.8, 0.6))])
    t = [ctx.real("t%d" % i, 0.5, 9) for i in range(4)]
    v1, v2 = ray(m, s, u, t[0]), ray(m, s, u, t[0] + t[1])
    near, far = ray(m, s, w, t[2]), ray(m, s, w, t[2] + t[3])
    k = ctx.choice("order", list(range(6)))
    sinks = [[v1, v2, near, far], [near, far, v1, v2], [v1, near, far, v2], [far, v1, v2, near], [v2, far, near, v1], [near, v2, v1, far]][k]
    S, N = sub(m, s, 2.0, sinks), sub(m, near, 3.0, [])
    sk = [S, N] if ctx.choice("nodes", [0, 1]) else [N, S]
    call(ctx, "removeGhosts", f, sk)
    has(ctx, ends(ctx, sk, s), [v1, v2], "the node")
    has(ctx, ends(ctx, sk, near), [far], "the nearer end")


add("P13", "second", p13_second, mode="exact", cost=2)


def p13_two_ghosts(ctx, m):
    """Two ghost pairs of one node in different directions: both are resolved."""
    f = need(ctx, m.pk, "removeGhosts")
    s = m.Vector((ctx.real("x", -20, 20), ctx.real("y", -20, 20)))
    u, w = ctx.choice("dirs", [((1, 0), (0, 1)), ((0.6, 0.8), (0.8, -0.6)), ((0, -1), (-0.8, 0.6))])
    t = [ctx.real("t%d" % i, 0.5, 9) for i in range(4)]
    n1, f1 = ray(m, s, u, t[0]), ray(m, s, u, t[0] + t[1])
    n2, f2 = ray(m, s, w, t[2]), ray(m, s, w, t[2] + t[3])
    k = ctx.choice("order", list(range(4)))
    sinks = [[n1, f1, n2, f2], [f2, f1, n2, n1], [n1, n2, f1, f2], [f1, n2, f2, n1]][k]
    S, N1, N2 = sub(m, s, 2.0, sinks), sub(m, n1, 3.0, []), sub(m, n2, 4.0, [])
    sk = [[S, N1, N2], [N2, S, N1], [N2, N1, S]][ctx.choice("nodes", [0, 1, 2])]
    call(ctx, "removeGhosts", f, sk)
    has(ctx, ends(ctx, sk, s), [], "the node")
    has(ctx, ends(ctx, sk, n1), [f1], "the first nearer end")
    has(ctx, ends(ctx, sk, n2), [f2], "the second nearer end")


add("P13", "two_ghosts", p13_two_ghosts, mode="exact", cost=2)


def p13_loop(ctx, m):
    """A node connected to itself (at any place in its connections) loses this connection, nothing else changes."""
    f = need(ctx, m.pk, "removeGhosts")
    s = m.Vector((ctx.real("x", -20, 20), ctx.real("y", -20, 20)))
    t = [ctx.real("t%d" % i, 0.5, 9) for i in range(3)]
    ps = [ray(m, s, UNIT[k], t[i]) for i, k in enumerate((0, 4, 6))]
    k = ctx.choice("at", [0, 1, 2, 3])
    copy = ctx.choice("copy", [0, 1])
    me = s.copy() if copy else s
    S = sub(m, s, 2.0, ps[:k] + [me] + ps[k:])
    N = sub(m, ps[0], 3.0, [m.Vector((50, 60))])
    sk = [S, N] if ctx.choice("nodes", [0, 1]) else [N, S]
    call(ctx, "removeGhosts", f, sk)
    has(ctx, ends(ctx, sk, s), ps, "the node")
    has(ctx, ends(ctx, sk, ps[0]), [m.Vector((50, 60))], "another node")


add("P13", "loop", p13_loop, mode="exact")


def p13_none(ctx, m):
    """A node with three connections in different directions (all pairs more than 8 degrees apart, opposite ones included),
    all lengths, all ends nodes: nothing is changed."""
    f = need(ctx, m.pk, "removeGhosts")
    s = m.Vector((ctx.real("x", -20, 20), ctx.real("y", -20, 20)))
    us = ctx.choice("dirs", [((1, 0), (-1, 0), (0, 1)), ((0.6, 0.8), (-0.6, -0.8), (0.8, -0.6)), ((1, 0), (0.96, 0.28), (0.8, -0.6)),
                             ((0.6, 0.8), (0, 1), (-0.28, 0.96)), ((0, -1), (0.28, -0.96), (-0.28, -0.96))])
    t = [ctx.real("t%d" % i, 0.5, 9) for i in range(3)]
    ps = [ray(m, s, us[i], t[i]) for i in range(3)]
    q = [m.Vector((50, 60)), m.Vector((-70, 60)), m.Vector((50, -90))]
    sk = [sub(m, s, 2.0, ps)] + [sub(m, ps[i], 3.0 + i, [q[i]]) for i in range(3)]
    if ctx.choice("nodes", [0, 1]):
        sk.reverse()
    call(ctx, "removeGhosts", f, sk)
    has(ctx, ends(ctx, sk, s), ps, "the node")
    for i in range(3):
        has(ctx, ends(ctx, sk, ps[i]), [q[i]], "another node")


add("P13", "none", p13_none, mode="exact")


def p13_many(ctx, m):
    """A node with six to eight connections in different directions and two in the same one, all lengths of these, at several
    places of the list: the pair is resolved, the others stay."""
    f = need(ctx, m.pk, "removeGhosts")
    s = m.Vector((ctx.real("x", -20, 20), ctx.real("y", -20, 20)))
    ta, tb = ctx.real("ta", 0.5, 10), ctx.real("tb", 0.5, 10)
    u = UNIT[9]
    near, far = ray(m, s, u, ta), ray(m, s, u, ta + tb)
    rest = [ray(m, s, UNIT[k], 3 + 0.5 * k) for k in range(ctx.choice("others", [6, 8]))]
    i, j = ctx.choice("at", [(-1, -1), (0, -1), (-1, 0), (3, 3), (1, -1)])
    sinks = list(rest)
    for t, k in ((near, i), (far, j)):
        sinks.insert(len(sinks) if k < 0 else k, t)
    other = ray(m, near, (u[1], -u[0]), 5)
    S, N = sub(m, s, 2.0, sinks), sub(m, near, 3.0, [other])
    sk = [S, N] if ctx.choice("nodes", [0, 1]) else [N, S]
    call(ctx, "removeGhosts", f, sk)
    has(ctx, ends(ctx, sk, s), rest, "the node")
    has(ctx, ends(ctx, sk, near), [other, far], "the nearer end")


add("P13", "many", p13_many, mode="exact")


def p13_near(ctx, m):
    """Two connections that are nearly parallel (7 degrees apart), all lengths of both and all lengths and 8 directions of a
    connection of the nearer end: they stay unless that connection crosses the longer one."""
    f = need(ctx, m.pk, "removeGhosts")
    s = m.Vector((ctx.real("x", -20, 20), ctx.real("y", -20, 20)))
    u, w = ctx.choice("dirs", [((0.6, 0.8), (20 / 29, 21 / 29)), ((20 / 29, 21 / 29), (0.6, 0.8)), ((-0.8, 0.6), (-21 / 29, 20 / 29))])
    ta, tb, tc = ctx.real("ta", 1, 5), ctx.real("tb", 1, 9), ctx.real("tc", 0.5, 4)
    ctx.assume(tb >= ta + 0.1)
    near, far = ray(m, s, u, ta), ray(m, s, w, tb)
    q = ray(m, near, UNIT[ctx.choice("q", list(range(8)))], tc)

    def side(a, b, c):
        return cross2(b.x - a.x, b.y - a.y, c.x - a.x, c.y - a.y)
    cs = []
    for v in (side(s, far, near), side(s, far, q), side(near, q, s), side(near, q, far)):
        pos = ctx.is_true(v > 0)
        ctx.assume(v > 0.01 if pos else v < -0.01)
        cs.append(pos)
    cross = cs[0] != cs[1] and cs[2] != cs[3]
    S, N = sub(m, s, 2.0, [near, far] if ctx.choice("order", [0, 1]) else [far, near]), sub(m, near, 3.0, [q])
    sk = [S, N] if ctx.choice("nodes", [0, 1]) else [N, S]
    call(ctx, "removeGhosts", f, sk)
    if cross:
        has(ctx, ends(ctx, sk, s), [], "the node")
        has(ctx, ends(ctx, sk, near), [q, far], "the nearer end")
    else:
        has(ctx, ends(ctx, sk, s), [near, far], "the node")
        has(ctx, ends(ctx, sk, near), [q], "the nearer end")


add("P13", "near", p13_near, mode="exact", cost=3)


def p13_near2(ctx, m):
    """As before, with three connections of the nearer end, one of which may cross the longer connection, at every place, and may
    end at a node that is joined to the first node as well."""
    f = need(ctx, m.pk, "removeGhosts")
    s = m.Vector((ctx.real("x", -20, 20), ctx.real("y", -20, 20)))
    ta, tb, tc = ctx.real("ta", 1, 5), ctx.real("tb", 1, 9), ctx.real("tc", 0.5, 4)
    ctx.assume(tb >= ta + 0.1)
    up = ctx.choice("left", [0, 1])     # the longer connection runs to the left of the shorter one
    u = (0.6, 0.8)
    w = (20 / 29, 21 / 29)
    if up:
        u, w = w, u
    near, far = ray(m, s, u, ta), ray(m, s, w, tb)
    k = 1 if up else -1
    n = (-u[1] * k, u[0] * k)           # across the longer connection
    q = ray(m, near, n, tc)
    keep = [ray(m, near, (-n[0], -n[1]), 3), ray(m, near, (-n[0] * 0.6 + u[0] * 0.8, -n[1] * 0.6 + u[1] * 0.8), 2)]
    at = ctx.choice("at", [0, 1, 2])
    qs = keep[:at] + [q] + keep[at:]
    # does the connection reach the longer one?  measured along it and across
    run = ta * (u[0] * w[0] + u[1] * w[1]) + tc * (n[0] * w[0] + n[1] * w[1])
    d = u[0] * w[1] - u[1] * w[0]
    dn = n[0] * w[1] - n[1] * w[0]
    side = (ta * d + tc * dn) * (1 if d > 0 else -1)     # > 0: on the side of the nearer end
    cross = not ctx.is_true(side > 0)
    ctx.assume(side < -0.02 if cross else side > 0.02)
    # parameter of the crossing along the longer connection
    t = (ta * (u[0] * n[1] - u[1] * n[0])) * (1 / (w[0] * n[1] - w[1] * n[0]))
    inside = ctx.is_true(t < tb)
    ctx.assume(t < tb - 0.02 if inside else t > tb + 0.02)
    shared = [q] if at == 1 and ctx.choice("shared", [0, 1]) else []         # the end of that connection is joined to the node as well
    if shared:
        ctx.assume(tc >= 0.3 * ta)
    S, N = sub(m, s, 2.0, ([near, far] if ctx.choice("order", [0, 1]) else [far, near]) + shared), sub(m, near, 3.0, qs)
    sk = [S, N] if ctx.choice("nodes", [0, 1]) else [N, S]
    call(ctx, "removeGhosts", f, sk)
    if cross and inside:
        has(ctx, ends(ctx, sk, s), shared, "the node")
        has(ctx, ends(ctx, sk, near), qs + [far], "the nearer end")
    else:
        has(ctx, ends(ctx, sk, s), [near, far] + shared, "the node")
        has(ctx, ends(ctx, sk, near), qs, "the nearer end")


add("P13", "near2", p13_near2, mode="exact")


def p13_three(ctx, m):
    """Three nearly parallel connections; a connection of the nearest end, which is a node, crosses both others: the nearest
    end takes over one of them, the other one stays, in every order and for all lengths."""
    f = need(ctx, m.pk, "removeGhosts")
    s = m.Vector((ctx.real("x", -20, 20), ctx.real("y", -20, 20)))
    ta, tc = ctx.real("ta", 3, 5), ctx.real("tc", 1, 4)
    tb, td = ctx.real("tb", 6, 10), ctx.real("td", 6, 10)
    side = ctx.choice("side", [1, -1])
    u, v, w = [(a, side * b) for a, b in ((0.6, 0.8), (88 / 137, 105 / 137), (20 / 29, 21 / 29))]
    near, far, far2 = ray(m, s, u, ta), ray(m, s, w, tb), ray(m, s, v, td)
    q = ray(m, near, (u[1] * side, -u[0] * side), tc)
    order = ctx.choice("order", list(itertools.permutations(range(3))))
    extra = ctx.choice("extra", [0, 1])
    other = ray(m, s, (-1, 0), 5)
    sinks = [[near, far, far2][k] for k in order]
    S, N = sub(m, s, 2.0, sinks + [other] if extra else [other] + sinks), sub(m, near, 3.0, [q])
    sk = [S, N] if ctx.choice("nodes", [0, 1]) else [N, S]
    call(ctx, "removeGhosts", f, sk)
    a, b = ends(ctx, sk, s), ends(ctx, sk, near)
    first = any(t is far or ctx.is_true(same(ctx, t, far, 1e-5)) for t in a.sinks)
    has(ctx, a, [far if first else far2, other], "the node")
    has(ctx, b, [q, far2 if first else far], "the nearer end")


add("P13", "three", p13_three, mode="exact")
