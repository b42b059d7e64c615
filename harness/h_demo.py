"""P22 the Blender add-on, with stand-ins for Blender's own modules that record the mesh."""
import os
import sys
import types

from .api import *
from .registry import add


class Any:
    """Accepts every use."""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Any()

    def __call__(self, *a, **k):
        return Any()


class Mesh(Any):
    def __init__(self):
        self.data = None

    def from_pydata(self, verts, edges, faces, *a, **k):
        self.data = (list(verts), [list(e) for e in edges], [list(f) for f in faces])


class Meshes:
    def __init__(self):
        self.made = []

    def new(self, name=None):
        self.made.append(Mesh())
        return self.made[-1]


def addon(m):
    """The add-on's module, executed with the modules under test as its package."""
    from symx.loader import REPO
    meshes, added = Meshes(), []
    bpy = types.ModuleType("bpy")
    bpy.data = types.SimpleNamespace(meshes=meshes)
    bpy.utils = Any()
    bpy.ops = Any()
    bpy.context = Any()
    tp = types.ModuleType("bpy.types")
    tp.Operator = type("Operator", (), {})
    tp.__getattr__ = lambda k: Any()
    pr = types.ModuleType("bpy.props")
    pr.__getattr__ = lambda k: (lambda *a, **kw: None)
    bpy.types, bpy.props = tp, pr
    be = types.ModuleType("bpy_extras")
    ou = types.ModuleType("bpy_extras.object_utils")
    ou.AddObjectHelper = type("AddObjectHelper", (), {})
    ou.object_data_add = lambda context, data, operator=None, name=None: added.append(data)
    be.object_utils = ou
    name = "addon_under_test"
    pkg = types.ModuleType(name)
    pkg.__path__ = [REPO]
    pkg.__package__ = name
    sub = types.ModuleType(name + ".bpypolyskel")
    sub.__path__ = [os.path.join(REPO, "bpypolyskel")]
    sub.bpypolyskel, sub.bpyeuclid, sub.poly2FacesGraph = m.pk, m.eu, m.pg
    repl = {"bpy": bpy, "bpy.types": tp, "bpy.props": pr, "bpy_extras": be, "bpy_extras.object_utils": ou, "mathutils": m.mathutils,
            name: pkg, name + ".bpypolyskel": sub, name + ".bpypolyskel.bpypolyskel": m.pk, name + ".bpypolyskel.bpyeuclid": m.eu,
            name + ".bpypolyskel.poly2FacesGraph": m.pg}
    saved = {k: sys.modules.get(k) for k in repl}
    sys.modules.update(repl)
    try:
        fn = os.path.join(REPO, "__init__.py")
        with open(fn) as f:
            exec(compile(f.read(), fn, "exec", dont_inherit=True), pkg.__dict__)
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return pkg, meshes, added


def p22(scales):
    def fn(ctx, m):
        sx, sy = ctx.choice("xy", scales)
        p22_body(ctx, m, sx, sy)
    fn.__doc__ = "All z scales from 0.001 to 100; x and y scales %s." % (scales,)
    return fn


def p22_body(ctx, m, sx, sy):
        mod, meshes, added = addon(m)
        O = need(ctx, mod, "OBJECT_OT_add_object")
        sz = ctx.real("sz", 0.001, 100)
        op = O()
        op.scale = m.Vector((sx, sy, sz))
        r = call(ctx, "execute", op.execute, None)
        ctx.require(r == {"FINISHED"}, "the operator does not finish")
        ctx.require(len(meshes.made) == 1 and len(added) == 1 and added[0] is meshes.made[0], "one mesh, added once")
        verts, edges, faces = meshes.made[0].data
        ctx.require(edges == [], "no loose edges")
        n = 26
        ctx.require(len(verts) > 2 * n, "number of vertices")
        fp = mod.__dict__
        for i in range(n):
            a, b = verts[i], verts[n + i]
            ctx.require(ctx.And(ctx.close(a[2], 0), ctx.close(b[2], 5 * sz, 1e-3)), "wall %d does not reach from 0 to 5 * z scale" % i)
            ctx.require(ctx.And(ctx.close(a[0], b[0], 1e-5), ctx.close(a[1], b[1], 1e-5)), "wall %d is not vertical" % i)
            ctx.require(ctx.And(ctx.close(a[0], FOOT[i][0] * sx, 1e-4), ctx.close(a[1], FOOT[i][1] * sy, 1e-4)), "footprint corner %d" % i)
        walls = [f for f in faces if any(i < n for i in f)]
        roof = [f for f in faces if not any(i < n for i in f)]
        ctx.require(faces == walls + roof, "the roof faces do not follow the walls")
        ctx.require(sorted(map(canon, walls)) == sorted(canon([i, (i + 1) % n, n + (i + 1) % n, n + i]) for i in range(n)), "walls")
        ctx.require(all(len(set(f)) == len(f) >= 3 for f in faces), "a face repeats a vertex")
        ctx.require({i for f in faces for i in f} <= set(range(len(verts))), "a face refers to a missing vertex")
        use = Counter()
        for f in faces:
            for e in zip(f, f[1:] + f[:1]):
                use[e] += 1
        for (a, b), k in use.items():
            ctx.require(k == 1, "directed edge used twice")
            if a < n and b < n:
                ctx.require((b, a) not in use, "an edge on the ground has two faces")
            else:
                ctx.require((b, a) in use, "edge %s belongs to one face only" % ((a, b),))
        # slope
        for f in roof:
            ctx.require(f[0] < 2 * n and f[1] < 2 * n, "a roof face does not start with a wall top")
        fx = [(x * sx, y * sy) for x, y in FOOT]
        cen = (sum(p[0] for p in fx) / n, sum(p[1] for p in fx) / n)
        sk = call(ctx, "skeletonize", m.pk.skeletonize, edge_contours(m, [[(x - cen[0], y - cen[1]) for x, y in fx]]))
        ref = [(float(a.source[0]) + cen[0], float(a.source[1]) + cen[1], float(a.height)) for a in sk]
        ctx.require(len(verts) == 2 * n + len(ref), "number of roof nodes")
        for v in verts[2 * n:]:
            x, y = float(v[0]), float(v[1])
            r = min(ref, key=lambda p: abs(p[0] - x) + abs(p[1] - y))
            ctx.require(abs(r[0] - x) + abs(r[1] - y) < 1e-2, "place of a roof node")
            ctx.require(ctx.close(v[2], 5 * sz + 0.6 * r[2], 1e-2), "a roof node does not rise with tangent 0.6")
            ctx.require(v[2] - 5 * sz > 0.0, "a roof node is not above the walls")


FOOT = [(7.710012435913086, -6.9630279541015625), (8.055673599243164, 4.447220325469971), (0.4236260652542114, 4.58079719543457),
        (0.38295790553092957, 5.0149431228637695), (0.3016217052936554, 5.426825046539307), (0.13217128813266754, 5.81644344329834),
        (-0.10505922883749008, 6.172665596008301), (-0.40329185128211975, 6.462096691131592), (-0.7557485699653625, 6.7069993019104),
        (-1.1488733291625977, 6.873978614807129), (-1.5623321533203125, 6.951902389526367), (-1.989346981048584, 6.963034629821777),
        (-2.409583806991577, 6.885111331939697), (-2.8094866275787354, 6.740396022796631), (-3.1687216758728027, 6.517757415771484),
        (-3.4805104732513428, 6.228326797485352), (-3.731297254562378, 5.883236408233643), (-3.9075260162353516, 5.493618488311768),
        (-4.009196758270264, 5.0817365646362305), (-4.049864768981934, 4.658722400665283), (-4.436212062835693, 4.680986404418945),
        (-4.503993988037109, 2.86647891998291), (-7.865891456604004, 2.7996914386749268), (-8.055685997009277, -3.2004287242889404),
        (-4.693784236907959, -3.2226970195770264), (-4.809013843536377, -6.695865154266357)]

SCALES = [(1.0, 1.0), (2.0, 2.0), (0.5, 0.5), (1.0, 1.3), (1.7, 1.0), (10.0, 8.0), (0.3, 0.4), (1.0, 0.6)]
for _i, _s in enumerate(SCALES):
    add("P22", "demo_%s_%s" % _s, p22([_s]), mode="float", witnesses=2)
