#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
PK, EU, PG = "bpypolyskel/bpypolyskel.py", "bpypolyskel/bpyeuclid.py", "bpypolyskel/poly2FacesGraph.py"
props = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

p("P01", "Roof heights obey the requested height or pitch",
  "When polygonize gets a non-zero height, the highest new node lies exactly that height above the z of the footprint's own vertices, whatever tan is; otherwise every new node lies above that z by tan times its height in the skeleton of the footprint, that is its horizontal distance from the edges whose faces meet in it, so height = tan = 0 gives a flat roof at footprint level. Node elevations above the footprint are proportional to the requested height or tan, including negative values, and the footprint's z is added exactly once.",
  ["inputs"], "all heights, pitch tangents and footprint elevations; all footprint dimensions of the families in the bounds, with and without holes",
  "The tests run height=0, tan=0.5 only and never look at a z value.",
  [PK], [("pitch selection and node lifting", PK + ":polygonize"), ("node height bookkeeping", PK + ":skeletonize")],
  ["z of the vertices appended to verts"])
p("P02", "Every roof face is the inclined plane rising from its footprint edge",
  "For a footprint in general position (roof nodes well apart, no dormers or apses), every vertex of a returned face lies at footprint z plus tan times its horizontal distance from the line through the face's first edge, up to the library's 10 cm node-merging tolerance. No new node is higher than its horizontal distance from any footprint or hole edge allows.",
  ["inputs"], "all side lengths of the footprint families (convex, reflex, with holes), all pitches and elevations",
  "The tests check vertex counts, duplicates and crossings of about 150 fixed footprints; no test looks at a slope or a node position.",
  [PK, EU], [("edge and split events", PK + ":_LAVertex.next_event, _SLAV.handle_edge_event, _SLAV.handle_split_event"), ("bisector intersection", EU + ":_intersect_line2_line2"), ("distance to an edge", EU + ":Line2.distance")],
  ["positions of the vertices appended to verts against the first edge of each face"])
p("P03", "Returned faces partition the footprint, one side per footprint edge",
  "For a valid footprint, with or without holes, each footprint or hole edge is, in its own direction, a side of exactly one returned face; every face is a counterclockwise loop of distinct valid indices that starts with such an edge, and every other side is shared by exactly two faces in opposite directions. The areas of the faces add up to the area of the footprint minus its holes.",
  ["inputs"], "all side lengths of the footprint families, all hole positions in the bounds, all elevations and pitches",
  "The tests check only at least 3 vertices and no duplicates per face: missing faces, wrong orientation, wrong first edge or overlaps pass.",
  [PK, PG], [("graph of footprint and skeleton edges", PK + ":polygonize"), ("face tracing and first-edge rotation", PG + ":poly2FacesGraph.faces"), ("spike and parallel-vertex removal", PK + ":polygonize")],
  ["list returned by polygonize"])
p("P04", "polygonize only appends vertices and leaves every other input untouched",
  "polygonize changes its vertex list only by appending new 3D nodes at the end: all earlier entries stay the same objects with the same coordinates, whether or not they belong to the footprint. The unit vectors, the hole description and (for skeletonize) the contours and their edges come back unchanged, and every index in a returned face refers to the footprint, its holes or an appended node.",
  ["inputs", "configurations"], "all footprint families, holes, unit vectors given or not, any unrelated vertices before, between and after the blocks",
  "No test compares inputs before and after, or looks at entries outside the footprint.",
  [PK, EU], [("recentring on copies", PK + ":polygonize"), ("2D copies of 3D vertices", EU + ":Edge2.__init__")],
  ["verts, unitVectors, holesInfo, edge contours after the call"])
p("P05", "An existing face list is extended in place by exactly the new faces",
  "When polygonize is given a list of faces, it appends the new faces to that same list object and returns it; the faces already in it keep their identity, order and content, even if they use the footprint's vertices or are not simple roof faces. The new faces equal those of a call without a face list, and without one a new list holding only the new faces is returned.",
  ["inputs", "histories"], "all prior contents of the face list (empty, walls, triangles, faces of earlier calls), all footprint families",
  "Every test passes faces=None.",
  [PK], [("faces argument", PK + ":polygonize")], ["the list passed in and the list returned"])
p("P06", "Supplied unit vectors give the same roof as computed ones",
  "Passing the unit vectors of all footprint edges, outer contour first and then the holes in the order they are described, yields the same nodes and the same faces as passing none. This holds for any number of holes, wherever their vertices are located, and the supplied vectors decide the edge directions used.",
  ["inputs", "configurations"], "all dimensions of the footprint families, 0 to 2 holes, all block layouts in the bounds",
  "Tests with unit vectors are never compared with the same footprint without them, and only a few have holes.",
  [PK, EU], [("unit vector indexing", PK + ":polygonize"), ("norm of an edge", EU + ":Edge2.__init__")], ["faces and appended vertices of both calls"])
p("P07", "The result does not depend on where the contours sit in the vertex list",
  "The outer contour and each hole may occupy any blocks of the vertex list, in any order, with any unrelated vertices before, between or after them: the new nodes and faces are the same up to the renumbering of the blocks. Unrelated vertices never influence a node's position or elevation and are never referenced by a face.",
  ["inputs", "configurations"], "all block offsets and orders in the bounds, all coordinates of the unrelated vertices",
  "Each test has one fixed layout, mostly the outer block at the end of the list.",
  [PK, PG], [("index bookkeeping of contours", PK + ":polygonize"), ("footprint / node index limit", PG + ":poly2FacesGraph.faces")], ["faces and appended vertices for different layouts"])
p("P08", "The roof moves with its footprint",
  "Translating a footprint by any vector, or turning it by a quarter turn, moves the nodes along and leaves the faces unchanged. Starting the outer contour or a hole at another vertex, or describing the holes in another order, gives the same set of faces (as cyclic vertex loops) and the same nodes.",
  ["inputs", "configurations"], "all translation vectors, all quarter turns, all starting vertices and hole orders of the footprint families",
  "Every test footprint occurs in one position and with one starting vertex.",
  [PK, EU], [("recentring", PK + ":polygonize"), ("circular iteration over contours", PK + ":_iterCircularPrevNext"), ("circular pattern search", PK + ":detectApses, detectDormers")], ["faces and nodes of the moved footprint"])
p("P09", "Calls are independent of each other",
  "The result of polygonize or skeletonize depends only on its arguments: repeating a call, or interleaving it with calls for other footprints, including calls that raise, gives the same nodes and faces, and results returned earlier are not altered by later calls. Debug output is stored only for keys the caller has registered, it holds the skeleton of the latest call, and registering it does not change any result.",
  ["histories", "inputs"], "all sequences of calls in the bounds over all footprint families",
  "Each test process makes a single call per footprint.",
  [PK], [("module state", PK + ":debugOutputs"), ("default arguments", EU + ":Edge2.__init__")], ["results of repeated calls, debugOutputs"],
  state=[("debugOutputs", "module-level dictionary", PK)])
p("P10", "The skeleton is a distance-consistent graph over the footprint",
  "For a footprint in general position centred near the origin, each skeleton node lies inside the footprint, its height is its distance from the lines of at least three footprint or hole edges and not more than its distance from any edge; its sinks are footprint vertices or other nodes, each connection occurs once, every footprint vertex is connected to exactly one node, and no two connections cross. A footprint without holes yields a connected tree, and each hole adds exactly one cycle.",
  ["inputs"], "all side lengths of the footprint families, with and without holes",
  "The tests only count crossings of fixed footprints; node heights, positions and completeness are not looked at.",
  [PK, EU], [("event simulation", PK + ":skeletonize"), ("split of the wavefront", PK + ":_SLAV.handle_split_event"), ("merge of close nodes", PK + ":mergeNodeClusters")], ["list returned by skeletonize"])
p("P11", "Valid footprints never make the library fail",
  "polygonize and skeletonize return normally, without an exception and in finitely many steps, for every valid simple footprint with at least three vertices, including those with straight (collinear) vertices, triangles, symmetric shapes where many events coincide, long runs of nearly straight edges, and holes. Every returned face then has at least three vertices and no duplicates.",
  ["inputs"], "all dimensions of the footprint families, including degenerate and symmetric ones",
  "Tests sample fixed footprints; special inputs such as straight runs of six or more vertices do not occur.",
  [PK, EU, PG], [("circle fit", EU + ":fitCircle3Points"), ("spike removal loop", PK + ":polygonize"), ("event loop", PK + ":skeletonize"), ("face tracing loop", PG + ":poly2FacesGraph.faces")], ["exceptions and non-termination"])
p("P12", "Near-coincident skeleton nodes are merged without losing connections",
  "After node merging no two nodes remain whose sources coincide or are within 0.1 (Manhattan distance), unless they lie within 3 of an apse centre and do not coincide, or join footprint vertices that are themselves less than 0.2 apart; nodes farther apart are left alone. A merged node lies at the mean position and mean height of its members, takes over every connection that left the group exactly once, and no connection keeps pointing at a removed node.",
  ["inputs"], "all positions, heights and connections of up to 4 nodes",
  "Node merging is only exercised indirectly by whole footprints; no test looks at the merged nodes.",
  [PK], [("cluster search", PK + ":findClusters"), ("merging", PK + ":mergeCluster, mergeNodeClusters")], ["skeleton after merging"])
p("P13", "Overlapping skeleton connections are resolved, all others kept",
  "After the clean-up of a skeleton, no node is connected to itself, and two connections of a node that run in the same direction (ghost edges) are taken from the node while the nearer end, which is a node, takes over the connection to the farther end. Nearly parallel connections are treated alike when the longer one crosses a connection of the nearer end; all other connections stay as they are, and nodes keep position and height. The clean-up is one pass over the nodes.",
  ["inputs"], "all positions of a node and its connections in the bounds",
  "The clean-up is only reached by a few whole footprints whose skeletons are not compared with anything but crossings.",
  [PK], [("loops, ghost edges and spikes", PK + ":removeGhosts"), ("segment test", EU + ":intersect")], ["skeleton after clean-up"])
p("P14", "Apses are recognised wherever the contour starts",
  "A run of at least six consecutive footprint corners that each turn by less than 30 degrees is recognised as an apse, wherever in the contour the list starts, and its centre is the centre of the circle through the run's first, middle and last corner; shorter runs, and contours that consist of such corners only, yield none. Straight runs, for which no such circle exists, never make the library fail.",
  ["inputs"], "all corner turn sequences up to the bound, all starting vertices, all positions of the corners",
  "Apse footprints in the tests have one starting vertex each and the centre is never checked.",
  [PK, EU], [("pattern search", PK + ":detectApses"), ("circle fit", EU + ":fitCircle3Points")], ["centres returned by apse detection"])
p("P15", "Dormers are recognised independently of the starting vertex",
  "A right-left-left-right sequence of right-angled corners of the outer contour is treated as a dormer exactly when its base is shorter than 10, its two sides differ little in length and the neighbouring edges are long enough compared with the base, where the required ratio depends on the corner next to that dormer alone. Which dormers are recognised and their widths do not depend on where the contour starts or on other dormers, except that dormers sharing a corner are skipped.",
  ["inputs"], "all side lengths of dormer footprints and all starting vertices, one and two dormers",
  "Dormer footprints in the tests have fixed dimensions and one starting vertex.",
  [PK], [("pattern search and size filter", PK + ":detectDormers"), ("combined event", PK + ":processDormers, _SLAV.handle_dormer_event")], ["dormers detected, roof of a dormer footprint"])
p("P16", "Wavefront events are processed in order of distance, none lost",
  "The event queue returns every event that was put in exactly once, in order of non-decreasing distance, whatever the order and kinds of the events put in and however puts and gets are interleaved; missing events are ignored. A batch of simultaneous events consists of the nearest event and exactly those following ones within 0.001 of it.",
  ["inputs", "histories"], "all distances of up to 5 events of all kinds, all interleavings of puts and gets in the bounds",
  "The queue is only used indirectly; ties and orders are those of the sampled footprints.",
  [PK], [("priority queue", PK + ":_EventQueue"), ("ordering of events", PK + ":_SplitEvent, _EdgeEvent, DormerEvent")], ["sequence of events taken from the queue"])
p("P17", "Geometric primitives are exact for every position",
  "Two lines meet in the point that lies on both, rays only in points ahead of both origins (up to rounding), parallel ones not at all; the distance of a point from a line is its perpendicular distance and does not depend on the line's direction vector or on its side. The segment test is true exactly for segments that properly cross, an edge's direction is the unit vector from its first to its second end in 2D, and the fitted circle passes through the first, middle and last of the given points.",
  ["inputs"], "all coordinates in the bounds",
  "There are no unit tests of the geometry module at all.",
  [EU], [("intersection", EU + ":_intersect_line2_line2, Line2, Ray2"), ("distance", EU + ":Line2.distance"), ("segment test", EU + ":ccw, intersect"), ("circle", EU + ":fitCircle3Points"), ("edges", EU + ":Edge2")], ["return values"])
p("P18", "Face tracing visits every side of every edge of a planar graph once",
  "For a graph drawn with straight non-crossing edges, the neighbours of each vertex are ordered by their angle, all the way round, and tracing yields faces in which each edge is used exactly once in each direction, except that outlines made of footprint vertices only are left out. Each traced face that contains a footprint edge starts with one, and adding a vertex or a loop edge again changes nothing.",
  ["inputs"], "all positions of a centre and up to 4 neighbours; all graphs of the families in the bounds",
  "The graph class has no tests of its own; whole footprints sample a few angles.",
  [PG], [("angle order", PG + ":pseudoangle, compare_angles, circular_embedding"), ("tracing", PG + ":poly2FacesGraph.faces"), ("edges", PG + ":poly2FacesGraph.add_edge, edges")], ["embedding and faces"])
p("P19", "Faces are cleaned of spikes and redundant nodes, and of nothing else",
  "After a skeleton has been turned into faces, a skeleton node that forms a spike (two consecutive sides folding back on each other) is removed from the face, and the two other faces along the spike, if they differ, are joined into one that starts with a footprint edge; a skeleton node lying straight between its neighbours and belonging to two faces only is dropped from both. Footprint vertices and nodes at which three or more faces meet are never removed, and faces without such defects are returned exactly as traced.",
  ["inputs"], "all positions of the nodes of small skeletons in the bounds",
  "Only a few test footprints reach this clean-up and its effect is not compared with anything.",
  [PK], [("spike removal", PK + ":polygonize"), ("parallel-edge removal", PK + ":polygonize")], ["faces returned by polygonize for a given skeleton"])
p("P20", "The shrinking wavefront stays a set of consistent closed loops",
  "After each event the wavefront is a set of closed loops linked consistently in both directions, each vertex belongs to exactly one loop whose length equals the number of its vertices, and replaced vertices are marked invalid and unreachable. An edge event replaces two neighbours by one vertex between the two outer edges; a split event divides one loop in two or joins two loops, with the split edge on both sides; loops of two vertices vanish.",
  ["inputs", "histories"], "all loop sizes, positions of the event in the loop and event sequences in the bounds, all distances",
  "Wavefront states are never looked at by the tests.",
  [PK], [("loops", PK + ":_LAV"), ("events", PK + ":_SLAV.handle_edge_event, _SLAV.handle_split_event, _SLAV.handle_dormer_event")], ["wavefront after each event"])
p("P21", "The crossing count is exact",
  "The number of crossings reported for a skeleton equals the number of pairs of its connections that properly cross; connections that share an end, touch only at an end, are parallel or disjoint do not count, and neither the order of nodes and sinks nor the direction of a connection matters. The skeleton itself is not changed by counting.",
  ["inputs"], "all coordinates of up to three connections",
  "The tests use the count only to assert that it is zero, so under-counting is invisible to them.",
  [PK], [("crossing count", PK + ":checkEdgeCrossing")], ["return value"])
p("P22", "The Blender demo object is a closed building with a roof on its walls",
  "For every positive scale of the object, the add-on's demo operator creates one mesh whose wall quads are vertical, stand on the scaled footprint at z = 0 and reach the roof's footprint at five times the z scale, and are followed by the roof faces, whose nodes rise with tangent 0.6 from the wall tops. Every edge above the ground is shared by exactly two faces in opposite directions.",
  ["inputs"], "all z scales, a few x and y scales",
  "The add-on needs Blender and has no tests.",
  ["__init__.py", PK], [("mesh construction", "__init__.py:add_object"), ("roof", PK + ":polygonize")], ["vertices and faces handed to Blender"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in props:
        f.write(json.dumps(x) + "\n")
print(len(props))
