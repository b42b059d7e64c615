"""Concrete footprints: those of the repository's own tests, and further shapes.
Each is a list of contours (outer counterclockwise, holes clockwise) of (x, y)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def _repo():
    out = {}
    with open(os.path.join(HERE, "..", "data", "footprints.json")) as fp:
        for f in json.load(fp):
            cs = [[tuple(v[:2]) for v in f["verts"][f["first"]:f["first"] + f["n"]]]]
            for a, b in f["holes"] or []:
                cs.append([tuple(v[:2]) for v in f["verts"][a:a + b]])
            out[f["name"][5:]] = cs
    return out


REPO = _repo()

OWN = {
    # rectilinear, in general position
    "L": [[(0, 0), (11, 0), (11, 4), (5, 4), (5, 9), (0, 9)]],
    "Lwide": [[(0, 0), (14, 0), (14, 7), (8, 7), (8, 12), (0, 12)]],
    "T": [[(0, 0), (15, 0), (15, 5), (9, 5), (9, 12), (6, 12), (6, 5), (0, 5)]],
    "U": [[(0, 0), (16, 0), (16, 11), (11, 11), (11, 5), (6, 5), (6, 13), (0, 13)]],
    "Z": [[(0, 0), (10, 0), (10, 5), (17, 5), (17, 11), (6, 11), (6, 4.5), (0, 4.5)]],
    "cross": [[(4, 0), (9, 0), (9, 4), (15, 4), (15, 8), (9, 8), (9, 13), (4, 13), (4, 8), (0, 8), (0, 4), (4, 4)]],
    "H": [[(0, 0), (5, 0), (5, 6), (11, 6), (11, 0), (17, 0), (17, 15), (11, 15), (11, 10), (5, 10), (5, 14), (0, 14)]],
    "stair": [[(0, 0), (14, 0), (14, 3), (10, 3), (10, 7), (5, 7), (5, 12), (0, 12)]],
    # slanted
    "quad": [[(0, 0), (13, 1), (11, 8), (2, 6)]],
    "penta": [[(0, 0), (10, -1), (13, 5), (6, 10), (-2, 6)]],
    "arrow": [[(0, 0), (9, 4), (18, 0), (9, 14)]],
    "chevron": [[(0, 0), (10, 5), (20, 1), (19, 9), (10, 13), (1, 8)]],
    "star4": [[(0, 0), (8, 3), (16, -1), (13, 8), (17, 15), (8.5, 12), (1, 16), (3.5, 8)]],
    "Lslant": [[(0, 0), (12, 2), (11, 7), (6, 6), (5, 12), (-1, 11)]],
    # holes
    "court": [[(0, 0), (20, 0), (20, 14), (0, 14)], [(6, 5), (6, 9.5), (13, 9.5), (13, 5)]],
    "courtL": [[(0, 0), (22, 0), (22, 15), (12, 15), (12, 19), (0, 19)], [(5, 5), (4.5, 10), (9, 11), (10, 6)]],
    "court2": [[(0, 0), (30, 0), (30, 14), (0, 14)], [(5, 4), (4, 9), (10, 10), (11, 5)],
               [(18, 5), (17.5, 9), (22, 10.5), (24, 6), (21, 4)]],
    "court3": [[(0, 0), (42, -1), (43, 15), (1, 16)], [(5, 4), (4, 9), (10, 10), (11, 5)],
               [(18, 5), (17.5, 9), (22, 10.5), (24, 6), (21, 4)], [(31, 5), (30, 8), (34, 10), (36, 6)]],
    "tri_hole": [[(0, 0), (24, 0), (10, 20)], [(9, 5), (9.5, 8.5), (13, 6)]],
    # straight (collinear) vertices
    "colrect": [[(0, 0), (5, 0), (14, 0), (14, 3), (14, 8), (6, 8), (0, 8)]],
    "colrun": [[(0, 0), (2, 0), (4, 0), (6, 0), (8, 0), (10, 0), (12, 0), (14, 0), (17, 0), (17, 9), (0, 9)]],
    # symmetric
    "sq": [[(0, 0), (8, 0), (8, 8), (0, 8)]],
    "plus": [[(4, 10), (4, 7), (0, 7), (0, 3), (4, 3), (4, 0), (8, 0), (8, 3), (12, 3), (12, 7), (8, 7), (8, 10)]],
    "tri": [[(0, 0), (9, 0), (3, 7)]],
    "trismall": [[(0, 0), (1.2, 0), (0.3, 0.9)]],
}
ALL = dict(OWN, **REPO)

# apses: contours that end in an arc of short edges
import math as _math


def arc(cx, cy, r, a0, a1, n):
    return [(cx + r * _math.cos(a0 + (a1 - a0) * i / n), cy + r * _math.sin(a0 + (a1 - a0) * i / n)) for i in range(n + 1)]


OWN["apse"] = [[(0.0, -5.0), (12.0, -5.0)] + arc(12.0, 0.0, 5.0, -_math.pi / 2, _math.pi / 2, 9)[1:-1] + [(12.0, 5.0), (0.0, 5.0)]]
OWN["apse2"] = [[(0.0, 0.0), (20.0, 0.0), (20.0, 9.0), (16.0, 9.0)] + arc(11.0, 9.0, 5.0, 0.0, _math.pi, 11)[1:-1] + [(6.0, 9.0), (0.0, 9.0)]]

# dormers: right-left-left-right
OWN["dormer"] = [[(0, 0), (7, 0), (7, -2), (10, -2), (10, 0), (18, 0), (18, 11), (0, 11)]]
OWN["dormers2"] = [[(0, 0), (6, 0), (6, -1.5), (9, -1.5), (9, 0), (18, 0), (18, -2), (22, -2), (22, 0), (30, 0), (30, 14), (0, 14)]]
ALL.update({k: OWN[k] for k in ("apse", "apse2", "dormer", "dormers2")})

# outlines of groups of lattice cells, and footprints on which a repaired defect showed (tools/mkshapes.py)
with open(os.path.join(HERE, "..", "data", "shapes.json")) as _fp:
    SHAPES = {k: [[tuple(p) for p in c] for c in v] for k, v in json.load(_fp).items()}
ALL.update(SHAPES)

# footprints with their contours in general position in the sense of P02/P10 are
# listed in data/general.json (written by tools/classify.py)
_fn = os.path.join(HERE, "..", "data", "general.json")
GENERAL = json.load(open(_fn)) if os.path.exists(_fn) else {}
