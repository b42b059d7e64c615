#!/usr/bin/env python3
"""Writes data/shapes.json: outlines of groups of cells of a lattice (equal or different widths, turned, with or without straight
vertices), where many wavefront events coincide, and some footprints on which a repaired defect of the code showed."""
import json
import math
import os
import random
HERE = os.path.dirname(os.path.abspath(__file__))
rng = random.Random(7)


def outline(cells):
    E = {}
    for x, y in cells:
        for a, b, c in (((x, y), (x + 1, y), (x, y - 1)), ((x + 1, y), (x + 1, y + 1), (x + 1, y)),
                        ((x + 1, y + 1), (x, y + 1), (x, y + 1)), ((x, y + 1), (x, y), (x - 1, y))):
            if c not in cells:
                if a in E:
                    return None
                E[a] = b
    loop = [min(E)]
    while E[loop[-1]] != loop[0]:
        loop.append(E[loop[-1]])
    return loop if len(loop) == len(E) else None


def corners(l):
    n = len(l)
    return [p for i, p in enumerate(l)
            if (p[0] - l[i - 1][0]) * (l[(i + 1) % n][1] - p[1]) != (p[1] - l[i - 1][1]) * (l[(i + 1) % n][0] - p[0])]


out, seen = {}, set()
k = 0
while k < 28:
    cells = {(0, 0)}
    n = rng.randrange(3, 8)
    while len(cells) < n:
        x, y = rng.choice(sorted(cells))
        dx, dy = rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])
        cells.add((x + dx, y + dy))
    l = outline(cells)
    if not l:
        continue
    kind = ["equal", "different", "straight", "turned"][k % 4]
    if kind != "straight":
        l = corners(l)
    if len(l) < 6 or (kind, tuple(sorted(cells))) in seen:
        continue
    seen.add((kind, tuple(sorted(cells))))
    fx, fy = {}, {}
    for i, f in ((0, fx), (1, fy)):
        v = 0
        for c in sorted({p[i] for p in l}):
            f[c] = v
            v += rng.choice([3, 4, 5, 7, 8]) if kind == "different" else 6
    l = [(fx[x], fy[y]) for x, y in l]
    if kind == "turned":
        c, s = rng.choice([(0.6, 0.8), (0.8, 0.6), (math.sqrt(0.5), math.sqrt(0.5))])
        l = [(round(x * c - y * s, 6), round(x * s + y * c, 6)) for x, y in l]
    r = rng.randrange(len(l))
    k += 1
    out["cells%02d_%s" % (k, kind)] = [l[r:] + l[:r]]

h = math.sqrt(0.5)
out.update({
    # the events of one node happen together, or after another
    "late_event": [[(0, 0), (6, 0), (6, 6), (12, 6), (18, 6), (18, 12), (18, 18), (12, 18), (12, 12), (6, 12), (6, 18), (0, 18), (0, 12),
                    (-6, 12), (-6, 6), (0, 6)]],
    "cross_arm": [[(-12, 6), (-18, 6), (-18, 0), (-12, 0), (-12, -6), (-6, -6), (-6, 0), (12, 0), (12, 6), (-6, 6), (-6, 12), (-12, 12)]],
    "plus_start": [[(8, 3), (12, 3), (12, 7), (8, 7), (8, 10), (4, 10), (4, 7), (0, 7), (0, 3), (4, 3), (4, 0), (8, 0)]],
    "straight_inner": [[(-6, 0), (-6, -6), (0, -6), (6, -6), (6, 0), (6, 6), (6, 12), (0, 12), (0, 6), (0, 0)]],
    "straight_turned": [[(round(a * h, 6), round(b * h, 6)) for a, b in [(22, 6), (6, 6), (0, 6), (0, 0), (6, 0), (22, 0)]]],
    "steps_turned": [[(3.0, 5.196152), (-7.392305, 11.196152), (-10.392305, 6.0), (-5.196152, 3.0), (-8.196152, -2.196152), (7.392305, -11.196152),
                      (10.392305, -6.0), (0.0, 0.0)]],
    "tower": [[(61.5, 24.25), (59.5, 26.25), (57.5, 26.25), (55.5, 24.25), (51.5, 22.25), (51.5, 20.25), (51.5, 16.25), (65.5, 16.25),
               (65.5, 20.25), (63.5, 22.25), (63.5, 24.25)]],
    # a deep notch leaves a narrow neck, far from the centre or near to it
    "neck_far": [[(0, 0), (80, 0), (80, 12), (72, 12), (72, 0.35), (66, 0.35), (66, 12), (0, 12)]],
    "neck_near": [[(0, 0), (30, 0), (30, 11), (19, 11), (19, 0.45), (12, 0.45), (12, 11), (0, 11)]],
    "neck_tip_far": [[(0, 0), (80, 0), (80, 12), (73, 12), (71, 0.3), (67, 12), (0, 12)]],
    "neck_tip_near": [[(0, 0), (30, 0), (30, 11), (18, 11), (15.5, 0.42), (12, 11), (0, 11)]],
    # walls that are bent inwards or outwards by a few centimetres
    "bent_inner": [[(0, 0), (11, 0.05), (20, 0), (20, 10), (9, 9.9), (0, 10)]],
    "bent_outer": [[(0, 0), (11, -0.05), (20, 0), (20, 10), (9, 10.1), (0, 10)]],
    "bent_ell": [[(0, 0), (14, 0.03), (30, 0), (29.96, 9), (30, 20), (20, 20), (20, 10.05), (11, 10), (5, 10.04), (0, 10), (0.02, 4)]],
    # very large, small and long footprints
    "huge_ell": [[(-150, -100), (220, -100), (220, 30), (40, 30), (40, 210), (-150, 210)]],
    "huge_hole": [[(-200, -180), (210, -160), (190, 170), (-170, 200)], [(-60, -20), (10, 70), (80, -40)]],
    "tiny_ell": [[(0, 0), (2.3, 0), (2.3, 0.9), (1.1, 0.9), (1.1, 2.1), (0, 2.1)]],
    "long_bent": [[(0, 0), (60, 0), (118, 11), (117, 15), (60, 5), (0, 4)]],
    "sharp_corners": [[(1.07, -4.08), (0.59, -4.62), (15.21, -2.78), (14.73, 7.93), (0.1, 6.88), (-0.68, 6.61), (-0.61, 3.79), (-3.66, 3.19),
                       (-2.98, 4.09), (-11.67, 3.73), (-11.11, 0.43), (-10.68, 0.69), (-10.48, -1.27), (-0.34, -0.22), (0.69, -4.53)]],
})
with open(os.path.join(HERE, "..", "data", "shapes.json"), "w") as fp:
    fp.write("{\n" + ",\n".join('"%s": %s' % (a, json.dumps(b)) for a, b in out.items()) + "\n}\n")
print(len(out))
