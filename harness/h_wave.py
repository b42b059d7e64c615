"""P20 the wavefront."""
from .api import *
from .families import S
from .library import ALL
from .registry import add
from .h_api import fams, lib, general, moved, EXACT


def eid(ctx, e, table):
    """Number of an edge: the index of the footprint edge with the same ends."""
    for k, (p, q) in enumerate(table):
        if e.p1 is p and e.p2 is q:
            return k
    for k, (p, q) in enumerate(table):
        if ctx.is_true(ctx.And(ctx.close(e.p1[0], p[0]), ctx.close(e.p1[1], p[1]), ctx.close(e.p2[0], q[0]), ctx.close(e.p2[1], q[1]))):
            return k
    ctx.fail("an edge of the wavefront is no footprint edge")


def state(ctx, slav, table, what, share=True):
    """Loops as lists of (vertex, number of the edge before it, number of the edge after it); checks their linkage."""
    out, seen = [], []
    for lav in slav:
        vs = []
        v = lav.head
        while True:
            if any(v is w for w in vs):
                ctx.fail("%s: a loop does not come back to its head" % what)
            vs.append(v)
            if v.next is None or v.prev is None:
                ctx.fail("%s: a vertex of a loop has no neighbour" % what)
            v = v.next
            if v is lav.head:
                break
            if len(vs) > 500:
                ctx.fail("%s: endless loop" % what)
        for v in vs:
            ctx.require(v.next.prev is v and v.prev.next is v, "%s: the links of a loop are inconsistent" % what)
            ctx.require(v.lav is lav, "%s: a vertex does not belong to the loop it is in" % what)
            ctx.require(bool(v.is_valid), "%s: an invalid vertex is in a loop" % what)
            ctx.require(not any(v is w for w in seen), "%s: a vertex is in two loops" % what)
            seen.append(v)
        ctx.require(len(lav) == len(vs), "%s: length %d of a loop of %d vertices" % (what, len(lav), len(vs)))
        ctx.require(len(vs) >= 3, "%s: a loop of %d vertices" % (what, len(vs)))
        ctx.require(len(list(lav)) == len(vs), "%s: iteration of a loop" % what)
        out.append([(v, eid(ctx, v.edge_prev, table), eid(ctx, v.edge_next, table)) for v in vs])
    for l in out if share else []:
        for a, b in zip(l, l[1:] + l[:1]):
            ctx.require(a[2] == b[1], "%s: neighbours in a loop do not share an edge" % what)
    ctx.require(len(out) == len({id(x) for x in slav}), "%s: a loop occurs twice" % what)
    return out


def loops(st):
    """Loops as cyclic sequences of the edges between their vertices."""
    return sorted(canon(["%03d" % x[2] for x in l]) for l in st)


def model_loops(ls):
    return sorted(canon(["%03d" % e for e in l]) for l in ls)


POLY = {
    3: [(0, 0), (20, 1), (7, 14)],
    4: [(0, 0), (20, 0), (19, 12), (1, 11)],
    5: [(0, 0), (16, -2), (21, 8), (10, 17), (-2, 9)],
    6: [(0, 0), (14, -2), (22, 7), (17, 16), (4, 17), (-4, 8)],
    7: [(0, 0), (12, -3), (21, 3), (22, 12), (13, 19), (2, 17), (-4, 8)],
}


class Still:
    """Vertices created by events do not look for events of their own."""

    def __init__(self, ctx, m):
        self.V = need(ctx, m.pk, "_LAVertex")
        self.f = need(ctx, self.V, "next_event")

    def __enter__(self):
        self.V.next_event = lambda v: None

    def __exit__(self, *a):
        self.V.next_event = self.f


def start(ctx, m, contours):
    SL, _, _ = need(ctx, m.pk, "_SLAV", "_EdgeEvent", "_SplitEvent")
    need(ctx, SL, "handle_edge_event", "handle_split_event")
    conts = edge_contours(m, contours)
    slav = call(ctx, "_SLAV", SL, conts)
    table = [(e.p1, e.p2) for c in conts for e in c]
    st = state(ctx, slav, table, "initially")
    model, k = [], 0
    for c in contours:
        model.append([k + i for i in range(len(c))])
        k += len(c)
    ctx.require(loops(st) == model_loops(model), "the initial wavefront is not the footprint")
    return slav, table, st, model, conts


def point(ctx, m, name, x, y, box):
    return m.Vector((x + ctx.real(name + "x", -box, box), y + ctx.real(name + "y", -box, box)))


def edge_event(ctx, m, slav, st, model, e, p, d):
    """Edge number e of some loop shrinks to the point p.  Returns the expected loops."""
    l = next(l for l in st if any(x[2] == e for x in l))
    k = next(i for i, x in enumerate(l) if x[2] == e)
    a, b = l[k][0], l[(k + 1) % len(l)][0]
    arc, _ = call(ctx, "handle_edge_event", slav.handle_edge_event, m.pk._EdgeEvent(d, p, a, b))
    old = next(x for x in model if e in x)
    model = [x for x in model if x is not old]
    if len(old) > 3:
        model.append([x for x in old if x != e])
        gone = [a, b]
    else:
        gone = [x[0] for x in l]
    for v in gone:
        ctx.require(not v.is_valid, "a replaced vertex is still valid")
        ctx.require(any(s is v.point for s in arc.sinks), "the new node is not connected to a replaced vertex")
    ctx.require(len(arc.sinks) == len(gone), "number of connections of the new node")
    ctx.require(ctx.And(ctx.close(arc.source[0], p[0]), ctx.close(arc.source[1], p[1]), ctx.close(arc.height, d)), "place or height of the new node")
    return model, gone


def p20_edges(n):
    def fn(ctx, m):
        slav, table, st, model, _ = start(ctx, m, [POLY[n]])
        cx, cy = sum(p[0] for p in POLY[n]) / n, sum(p[1] for p in POLY[n]) / n
        gone = []
        with Still(ctx, m):
            for step in range(min(n - 2, 4)):
                left = [e for x in model for e in x]
                e = ctx.choice("edge%d" % step, sorted(left)) if step < 2 else left[len(left) // 2]
                d = ctx.real("d%d" % step, 0, 50)
                model, g = edge_event(ctx, m, slav, st, model, e, point(ctx, m, "p%d" % step, cx, cy, 3), d)
                gone += g
                st = state(ctx, slav, table, "edge event %d" % (step + 1))
                ctx.require(loops(st) == model_loops(model), "edge event: wrong loops %s, expected %s" % (loops(st), model_loops(model)))
                for l in st:
                    ctx.require(not any(x[0] is v for x in l for v in gone), "a replaced vertex is still reachable")
        if n <= 6:
            ctx.require(bool(slav.empty()) == (not model), "wavefront empty / not empty")
    fn.__doc__ = ("Polygon of %d vertices, sequences of up to %d edge events at all edges (the first two: every pair), points anywhere "
                  "within 3 of the centre, all distances." % (n, min(n - 2, 4)))
    return fn


for _n in POLY:
    add("P20", "edges%d" % _n, p20_edges(_n), mode="float", witnesses=2)


# contours with reflex vertices: name -> (contours, {reflex vertex (edge after it): (edge it may split, x, y, box)})
SPLITS = {
    "notch": ([[(0, 0), (30, 0), (30, 12), (17, 12), (15, 6), (12, 12), (0, 12)]], [(4, 0, 14.8, 3.0, 0.8)]),
    "notch_r": ([[(17, 12), (15, 6), (12, 12), (0, 12), (0, 0), (30, 0), (30, 12)]], [(1, 4, 14.8, 3.0, 0.8)]),
    "tri_notch": ([[(0, 0), (20, 0), (10, 4)]], []),
    "two": ([[(0, 0), (40, 0), (40, 12), (31, 12), (29, 6), (27, 12), (14, 12), (12, 5), (10, 12), (0, 12)]],
            [(7, 0, 12, 2.4, 0.5), (4, 0, 29, 3.0, 0.5)]),
    "two_back": ([[(0, 0), (40, 0), (40, 12), (31, 12), (29, 6), (27, 12), (14, 12), (12, 5), (10, 12), (0, 12)]],
                 [(4, 0, 29, 3.0, 0.5), (7, 0, 12, 2.4, 0.5)]),
    "thin": ([[(0, 0), (18, 0), (18, 9), (9, 4), (0, 9)]], [(3, 0, 9, 2.0, 0.6)]),
    "dart": ([[(0, 0), (10, 9), (20, 0), (10, 20)]], [(1, 3, 8, 12, 0.3)]),
    "hole": ([[(0, 0), (24, 0), (24, 20), (0, 20)], [(9, 5), (9.5, 12), (14, 6)]], [(4, 3, 4.0, 6.5, 0.4)]),
    "hole_b": ([[(0, 0), (24, 0), (24, 20), (0, 20)], [(9, 5), (9.5, 12), (14, 6)]], [(4, 0, 8, 2.5, 0.4), (6, 0, 17, 2.2, 0.2)]),
    "holes": ([[(0, 0), (40, 0), (40, 20), (0, 20)], [(9, 5), (9.5, 12), (14, 6)], [(25, 6), (24, 13), (30, 8)]],
              [(6, 7, 19, 8, 0.4), (4, 0, 8, 2.5, 0.4)]),
}


def p20_splits(name):
    def fn(ctx, m):
        contours, evs = SPLITS[name]
        slav, table, st, model, conts = start(ctx, m, contours)
        flatc = [e for c in conts for e in c]
        first = ctx.choice("edge_first", [None] + ([1, len(contours[0]) - 1] if name in ("notch", "two", "holes") else []))
        with Still(ctx, m):
            if first is not None:
                model, _ = edge_event(ctx, m, slav, st, model, first, m.Vector((contours[0][first][0] * 0.9 + 1, 6.0)), ctx.real("de", 0, 50))
                st = state(ctx, slav, table, "edge event")
            for step, (v, e, x, y, box) in enumerate(evs):
                p, d = point(ctx, m, "p%d" % step, x, y, box), ctx.real("d%d" % step, 0, 50)
                was = st
                l = next(l for l in st if any(t[2] == v for t in l))
                vert = next(t[0] for t in l if t[2] == v)
                pv = next(t[1] for t in l if t[2] == v)
                arc, _ = call(ctx, "handle_split_event", slav.handle_split_event, m.pk._SplitEvent(d, p, vert, flatc[e]))
                ctx.require(arc is not None, "the split event is not carried out")
                # model: the loop of v is cut before edge v, the loop of e in the middle of e
                lv = next(t for t in model if v in t)
                cand = [t for t in model if e in t]
                if len(cand) > 1:       # the part of e that p lies in front of
                    cand = [t for t in cand if v in t]
                le = cand[0]
                model = [t for t in model if t is not lv and t is not le]
                i = lv.index(v)
                lv = lv[i:] + lv[:i]            # v ... pv
                assert lv[-1] == pv
                if lv is le or e in lv:
                    j = lv.index(e)
                    new = [lv[j:], lv[:j + 1]]  # [e ... pv], [v ... e]
                else:
                    j = le.index(e)
                    new = [lv + le[j:] + le[:j] + [e]]
                for t in new:
                    if len(t) > 2:
                        model.append(t)
                st = state(ctx, slav, table, "split event %d" % (step + 1))
                ctx.require(loops(st) == model_loops(model), "split event: wrong loops %s, expected %s" % (loops(st), model_loops(model)))
                ctx.require(not vert.is_valid and not any(t[0] is vert for l in st for t in l), "the splitting vertex is still in the wavefront")
                ctx.require(any(s is vert.point for s in arc.sinks), "the new node is not connected to the splitting vertex")
                ctx.require(ctx.And(ctx.close(arc.source[0], p[0]), ctx.close(arc.source[1], p[1]), ctx.close(arc.height, d)), "place or height of the new node")
                ctx.require(len(arc.sinks) == 1 + sum(len(t) == 2 for t in new), "number of connections of the new node")
                alive = [t[0] for l in st for t in l]
                for w in [t[0] for l in was for t in l]:
                    if not any(w is a for a in alive):
                        ctx.require(not w.is_valid, "a vertex that left the wavefront is still valid")
                        ctx.require(any(s is w.point for s in arc.sinks), "a vertex that left the wavefront is not connected to the new node")
    fn.__doc__ = "Contours '%s': split events in sequence, points anywhere in boxes of up to 0.8, all distances; an edge event before." % name
    return fn


for _k, _v in SPLITS.items():
    if _v[1]:
        add("P20", "split_" + _k, p20_splits(_k), mode="float", witnesses=2)


def p20_missed(ctx, m):
    """A split event whose point lies beyond the part of the edge that is left (anywhere in a box): nothing changes."""
    contours, evs = SPLITS["notch"]
    slav, table, st, model, conts = start(ctx, m, contours)
    vert = next(t[0] for l in st for t in l if t[2] == 4)
    where = ctx.choice("where", [(-6, 3), (38, 3)])
    p = point(ctx, m, "p", where[0], where[1], 2)
    with Still(ctx, m):
        arc, evs = call(ctx, "handle_split_event", slav.handle_split_event, m.pk._SplitEvent(ctx.real("d", 0, 9), p, vert, conts[0][0]))
    ctx.require(arc is None and not evs, "a split event beyond the edge is carried out")
    st = state(ctx, slav, table, "missed split event")
    ctx.require(loops(st) == model_loops(model), "a missed split event changes the wavefront")
    ctx.require(bool(vert.is_valid), "a missed split event invalidates its vertex")


add("P20", "missed", p20_missed, mode="float", witnesses=2)


# ---------------------------------------------------- while skeletonizing --
def watched(ctx, m, cs):
    """The wavefront is consistent after every event of skeletonize; an edge event leaves the number of loops or removes one
    of three vertices, a split event of a loop divides it or joins two, every event takes at least one vertex away or makes
    one loop of two; in the end it is empty."""
    SL = need(ctx, m.pk, "_SLAV")
    hs = {k: need(ctx, SL, k) for k in ("handle_edge_event", "handle_split_event", "handle_dormer_event")}
    count = {"n": 0}
    conts = edge_contours(m, cs)
    table = [(e.p1, e.p2) for c in conts for e in c]
    last = {}

    def wrap(name, f):
        def g(self, event):
            inside = [v for l in self for v in l]
            before = [len(list(l)) for l in self]
            r = f(self, event)
            count["n"] += 1
            if name == "handle_dormer_event":
                count["dormers"] = True     # the edges next to the dormer become neighbours without sharing one
            st = state(ctx, self, table, name, "dormers" not in count)
            after = [len(l) for l in st]
            last["slav"] = self
            there = {id(x[0]) for l in st for x in l}
            for v in inside:
                ctx.require(id(v) in there or not v.is_valid, "%s: a vertex that left the wavefront is still valid" % name)
            if r[0] is None or r[0] == []:
                ctx.require(sorted(before) == sorted(after), "an event that is not carried out changes the wavefront")
                return r
            if name == "handle_edge_event":
                if len(after) == len(before):
                    ctx.require(sum(after) == sum(before) - 1, "an edge event takes one vertex away")
                else:
                    ctx.require(len(after) == len(before) - 1 and sum(after) == sum(before) - 3, "an edge event ends a triangle")
            elif name == "handle_split_event":
                gone = sum(before) - sum(after) + 1
                ctx.require(gone >= 0 and gone % 2 == 0 and gone <= 4, "a split event adds one vertex, less the loops that vanish")
                ctx.require(len(after) - len(before) in ((-1, 0, 1)), "number of loops after a split event")
                if gone:
                    ctx.require(len(after) == len(before) + 1 - gone // 2, "number of loops after a split event")
            elif name == "handle_dormer_event":
                if len(after) == len(before):
                    ctx.require(sum(after) == sum(before) - 4, "a dormer event takes four vertices out of a loop")
                else:
                    ctx.require(len(after) == len(before) - 1 and sum(after) == sum(before) - 6, "a dormer event ends a loop of six")
            return r
        return g
    try:
        for k, f in hs.items():
            setattr(SL, k, wrap(k, f))
        call(ctx, "skeletonize", m.pk.skeletonize, conts)
    finally:
        for k, f in hs.items():
            setattr(SL, k, f)
    ctx.require(count["n"] > 0, "no events")


def watched_lib(ctx, m, cs):
    cen = (sum(p[0] for p in cs[0]) / len(cs[0]), sum(p[1] for p in cs[0]) / len(cs[0]))
    x = ctx.real("x", -0.02, 0.02)
    watched(ctx, m, [[(a - cen[0] + x, b - cen[1]) for a, b in c] for c in cs])


watched_lib.__doc__ = watched.__doc__ + "\n    The footprint is centred at the origin up to 0.02."
fams("P20", EXACT, watched, prefix="run_")
HUGE = ("67783340", "37971965", "102735465", "4804904", "87810109", "139460727")        # minutes each
SLOW = ("45069779", "32060794", "286442948", "6013146", "28254109", "197465163", "145341162", "42749539")
_b = lambda k: k.split("_")[0]
lib("P20", [k for k in ALL if _b(k) not in HUGE + SLOW], watched_lib)
lib("P20", [k for k in ALL if _b(k) in SLOW], watched_lib, tier="thorough")
