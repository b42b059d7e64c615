"""What a skeleton must satisfy as a graph drawn over its footprint (plain floats)."""
import math

TOL = 0.1           # the library merges nodes within 0.1


def _seg(x, y, p, q):
    ux, uy = q[0] - p[0], q[1] - p[1]
    n2 = ux * ux + uy * uy
    t = max(0.0, min(1.0, ((x - p[0]) * ux + (y - p[1]) * uy) / n2))
    return math.hypot(x - p[0] - t * ux, y - p[1] - t * uy)


def _line(x, y, p, q):
    ux, uy = q[0] - p[0], q[1] - p[1]
    return (ux * (y - p[1]) - uy * (x - p[0])) / math.hypot(ux, uy)


def inside(x, y, contours):
    odd = False
    for c in contours:
        for i, (x0, y0) in enumerate(c):
            x1, y1 = c[(i + 1) % len(c)]
            if (y0 > y) != (y1 > y) and x < x0 + (x1 - x0) * (y - y0) / (y1 - y0):
                odd = not odd
    return odd


def _cross(a, b, c, d):
    """Segments ab and cd cross properly, by more than rounding."""
    def side(p, q, r):
        v = (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
        n = math.hypot(q[0] - p[0], q[1] - p[1])
        return v / n if n else 0.0
    e = 1e-3
    s1, s2, s3, s4 = side(a, b, c), side(a, b, d), side(c, d, a), side(c, d, b)
    return ((s1 > e and s2 < -e) or (s1 < -e and s2 > e)) and ((s3 > e and s4 < -e) or (s3 < -e and s4 > e))


def graph_errors(contours, nodes, tol=TOL):
    """nodes: list of ((x, y), height, [(x, y), ...]).  None, or what is wrong."""
    edges = [(p, c[(i + 1) % len(c)]) for c in contours for i, p in enumerate(c)]
    pts = [p for c in contours for p in c]
    nc = len(pts)
    pts = pts + [n[0] for n in nodes]
    for i, ((x, y), h, _) in enumerate(nodes):
        if not h > 0:
            return "node %d has height %.4f" % (i, h)
        if not inside(x, y, contours):
            return "node %d lies outside the footprint" % i
        if any(_seg(x, y, p, q) < h - tol for p, q in edges):
            return "node %d is nearer to an edge than its height" % i
        if sum(abs(_line(x, y, p, q) - h) <= tol for p, q in edges) < 3:
            return "the height of node %d is not its distance from three edges" % i
    E = set()
    deg = [0] * len(pts)
    par = list(range(len(pts)))

    def find(a):
        while par[a] != a:
            par[a] = par[par[a]]
            a = par[a]
        return a
    for i, (_, _, sinks) in enumerate(nodes):
        for s in sinks:
            js = [j for j, p in enumerate(pts) if abs(p[0] - s[0]) < 1e-3 and abs(p[1] - s[1]) < 1e-3]
            if not js:
                return "node %d is connected to a point that is neither footprint vertex nor node" % i
            j = js[0]
            if j == nc + i:
                return "node %d is connected to itself" % i
            e = (min(j, nc + i), max(j, nc + i))
            if e in E:
                return "connection %s occurs twice" % (e,)
            E.add(e)
            deg[j] += 1
            par[find(j)] = find(nc + i)
    for j in range(nc):
        if deg[j] != 1:
            return "footprint vertex %d has %d connections" % (j, deg[j])
    if len({find(j) for j in range(len(pts))}) != 1:
        return "the skeleton is not connected"
    if len(E) != len(pts) - 1 + len(contours) - 1:
        return "%d connections between %d points with %d holes" % (len(E), len(pts), len(contours) - 1)
    L = sorted(E)
    for x in range(len(L)):
        for y in range(x):
            if not set(L[x]) & set(L[y]) and _cross(pts[L[x][0]], pts[L[x][1]], pts[L[y][0]], pts[L[y][1]]):
                return "connections %s and %s cross" % (L[x], L[y])
    return None
