From c1ee9978ed96f8c3a97f24564f2ed0e3256b988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 01/20] fix: bisector of exactly collinear edges is
 perpendicular to them

The sum of the creator vectors vanishes there, so the vertex got a zero
bisector, produced no events, and the roof lost faces.
---
 bpypolyskel/bpypolyskel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 60c9261..3cdefed 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -117,6 +117,10 @@ class _LAVertex:
         if forceConvex:
             self._is_reflex = False
         op_add_result = creator_vectors[0] + creator_vectors[1]
+        if not op_add_result.magnitude:
+            # the edges are collinear, their bisector is perpendicular to them
+            self._is_reflex = False
+            op_add_result = mathutils.Vector((-edge_next.norm.y, edge_next.norm.x))
         self._bisector = Ray2(self.point, op_add_result * (-1 if self._is_reflex else 1))
         # Vertex created
 
-- 
2.43.0


From 8b6e039c6800f2439b2ac3ca15a792cf012fa23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:39 +0000
Subject: [PATCH 02/20] fix: merged face of a removed spike starts with a
 footprint edge

The search compared the position in the face instead of the second vertex of
the edge with the first skeleton index.
---
 bpypolyskel/bpypolyskel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 3cdefed..3ae9946 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1126,7 +1126,9 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
             mergedFace = rightFace + leftFace[1:]
 
             # rotate edge list so that edge of original polygon is first edge
-            nextOrigIndex = next(x[0] for x in enumerate(mergedFace) if x[0]<firstSkelIndex and x[1]< firstSkelIndex)
+            nextOrigIndex = next(
+                (x[0] for x in enumerate(zip(mergedFace, mergedFace[1:]+mergedFace[:1]))
+                    if x[1][0]<firstSkelIndex and x[1][1]<firstSkelIndex), 0)
             mergedFace = mergedFace[nextOrigIndex:] + mergedFace[:nextOrigIndex]
 
             if mergedFace == face:  # no change, will result in endless loop
-- 
2.43.0


From 95df61671b143925707f4ff10c4dbe3c867c63a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:35 +0000
Subject: [PATCH 03/20] fix: keep the first edge of a face when repeated
 vertices are removed

Removing the first of two adjacent identical vertices, where these were the
last and the first one of the face, left a face that starts with its second edge.
---
 bpypolyskel/bpypolyskel.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 3ae9946..b2dbe3c 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1169,12 +1169,10 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
                 face.remove(item) 
 
         # remove one of adjacent identical vertices
-        verticesToRemove = []
-        for prev,_next in _iterCircularPrevNext(face):
-            if prev == _next:
-                verticesToRemove.append(prev)
-        for item in verticesToRemove:
-            face.remove(item) 
+        # (the last of them, so that the face still starts with a footprint edge)
+        toRemove = [i for i in range(1,len(face)) if face[i] == face[(i+1)%len(face)]]
+        for i in reversed(toRemove):
+            del face[i]
 
     if faces is None:
         return faces3D
-- 
2.43.0


From 91d2a67439febe37b314b568f8b3c05227ae9a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:15 +0000
Subject: [PATCH 04/20] fix: removing a spike inside one face keeps its
 footprint vertex

Only when the spike returns to the vertex it came from does that vertex occur
twice in the common face. Otherwise its removal opened a hole between faces.
---
 bpypolyskel/bpypolyskel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index b2dbe3c..6806d6e 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1108,7 +1108,8 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
                 commonFace = faces3D[rightIndx]
                 # remove the spike vertice and one of its neighbors
                 commonFace.remove(this)
-                commonFace.remove(prev)
+                if prev == _next:
+                    commonFace.remove(prev)
                 if this in face:
                     face.remove(this)
                 break   # that's it for this face
-- 
2.43.0


From 97b26880c34f1834f424572f071dcfce053f84a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:34 +0000
Subject: [PATCH 05/20] fix: remove a spike inside one face at its own position

The first occurrence of a vertex in the surrounding face need not be the one
of the spike: other spikes of that face can start there, or the face can start
with it.
---
 bpypolyskel/bpypolyskel.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 6806d6e..8477e23 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1106,10 +1106,15 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
 
             if rightIndx == leftIndx:   # single line into a face, but not separating it
                 commonFace = faces3D[rightIndx]
+                if commonFace is not face and commonFace.count(this) > 1:
+                    # another spike of this face starts at 'this', it must be removed first
+                    hadSpikes = False
+                    continue
                 # remove the spike vertice and one of its neighbors
-                commonFace.remove(this)
-                if prev == _next:
-                    commonFace.remove(prev)
+                i = commonFace.index(this)
+                del commonFace[i]
+                if prev == _next:   # keep a first edge that starts at 'prev'
+                    del commonFace[i if i < len(commonFace) else -1]
                 if this in face:
                     face.remove(this)
                 break   # that's it for this face
-- 
2.43.0


From 75e8c914345bb81a9e87f9d37cbfd251c3e2efe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 06/20] fix: ignore edge events of vertices that are no longer
 neighbours

A split event may separate two vertices that an event already in the queue
would join; handling it corrupted the wavefront (RuntimeError for a symmetric
cross, depending on the first vertex of the footprint).
---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 8477e23..7235298 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -859,7 +859,7 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
         topEventList = prioque.getAllEqualDistance()
         for i in topEventList:
             if isinstance(i, _EdgeEvent):
-                if not i.vertex_a.is_valid or not i.vertex_b.is_valid:
+                if not i.vertex_a.is_valid or not i.vertex_b.is_valid or i.vertex_a.next != i.vertex_b:
                    continue
                 (arc, events) = slav.handle_edge_event(i)
             elif isinstance(i, _SplitEvent):
-- 
2.43.0


From 0fb1c92c5f3525f39a9e14f4cc6cd390bca24e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 07/20] fix: judge each dormer by the corners next to it

The required length of the neighbouring edges was taken from the corners of
the last match instead of the dormer at hand.
---
 bpypolyskel/bpypolyskel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 7235298..96a7e87 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -771,8 +771,8 @@ def detectDormers(slav, edgeContours):
         d = abs(d1-d2)/(d1+d2)  # "contrast" of side edges lengths^2
         d3 = outerContour[(oi[0]+N-1)%N].length_squared()   # length^2 of previous edge
         d4 = outerContour[oi[3]].length_squared()           # length^2 of next edge
-        facLeft = 0.125 if sequence[(s+N-1)%N] != 'L' else 1.5
-        facRight = 0.125 if sequence[(s+4)%N] != 'L' else 1.5
+        facLeft = 0.125 if sequence[(oi[0]+N-1)%N] != 'L' else 1.5
+        facRight = 0.125 if sequence[(oi[0]+4)%N] != 'L' else 1.5
         if w < 100 and d < 0.35 and d3 >= w*facLeft and d4 >= w*facRight:
             dormers.append((oi,(outerContour[oi[1]].p1-outerContour[oi[1]].p2).magnitude))
             
-- 
2.43.0


From 9c420ab0e6a58e7cd091cdfe41113bc1200c5939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 08/20] fix: take the events of a dormer in the order of its
 corners

A dormer across the first vertex of the contour got its events in list order
and was not handled as a dormer.
---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 96a7e87..1270de2 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -783,7 +783,7 @@ def processDormers(dormers,initialEvents):
     dormerEventIndices = []
     for dormer in dormers:
         dormerIndices = dormer[0]
-        d_events = [ev for i,ev in enumerate(initialEvents) if i in dormerIndices]
+        d_events = [initialEvents[i] for i in dormerIndices]
         if all([(d is not None) for d in d_events]): # if all events are valid
             if  not isinstance(d_events[0], _SplitEvent) or \
                 not isinstance(d_events[1], _EdgeEvent) or \
-- 
2.43.0


From ea060c971bc7e6725eb7f3b6a170b20311884a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 09/20] fix: go on searching ghost edges after a pair of
 footprint vertices

Two sinks that are both footprint vertices ended the search, so that ghost
edges among the other sinks of the node stayed, depending on their order.
---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 1270de2..9d2b67c 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -528,7 +528,7 @@ def removeGhosts(skeleton):
 
                         nodeIndexList = [i for i, node in enumerate(skeleton) if node.source == nearSink]
                         if not nodeIndexList:   # both sinks point to polygon vertices (maybe small triangle)
-                            break
+                            continue
 
                         nodeIndex = nodeIndexList[0]
 
-- 
2.43.0


From 1de3bb5b00e2036aa11d04f1f12247783507dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 10/20] fix: restart the search for ghost edges after a spike
 was removed

Only the inner loop was left, the search went on with sinks that are gone.
---
 bpypolyskel/bpypolyskel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 9d2b67c..4ef47fc 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -548,6 +548,8 @@ def removeGhosts(skeleton):
                                     arc.sinks.remove(nearSink)
                                     sinksAltered = True
                                     break
+                            if sinksAltered:
+                                break
 
 def detectApses(outerContour):
     import re
-- 
2.43.0


From 6060150b26dc666b7ef08b771e544582ce86e52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:04 +0000
Subject: [PATCH 11/20] fix: no circle through collinear points

A straight run of six or more footprint vertices ended in a ZeroDivisionError.
---
 bpypolyskel/bpyeuclid.py   | 2 ++
 bpypolyskel/bpypolyskel.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpyeuclid.py b/bpypolyskel/bpyeuclid.py
index 7d25e36..df05401 100644
--- a/bpypolyskel/bpyeuclid.py
+++ b/bpypolyskel/bpyeuclid.py
@@ -102,6 +102,8 @@ def fitCircle3Points(points):
     z = complex(points[-1].x, points[-1].y)
     w = z-x
     w /= y-x
+    if not w.imag:  # the points are collinear, there is no circle
+        return None, None
     c = (x-y)*(w-abs(w)**2)/2j/w.imag-x
     x0 = -c.real
     y0 = -c.imag
diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 4ef47fc..fd6c239 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -576,7 +576,8 @@ def detectApses(outerContour):
             apseIndices = [ i%len(sequence) for i in range(*apse.span())]
             apseVertices = [outerContour[i].p1 for i in apseIndices]
             center, R = fitCircle3Points(apseVertices)
-            centers.append(center)
+            if center is not None:
+                centers.append(center)
     
     return centers
 
-- 
2.43.0


From 6007cdc3186619e69a0257ca4e661bcbb068404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 12/20] fix: an apse across the first vertex of the contour is
 a single run

Its part at the start of the contour was taken for another apse, with another
centre.
---
 bpypolyskel/bpypolyskel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index fd6c239..2cc421b 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -572,6 +572,8 @@ def detectApses(outerContour):
     nextStart = 0
     for apse in matches:
         s = apse.span()[0]
+        if s == 0 and sequence[-1] == 'L':  # rest of a run that starts at the end of the sequence
+            continue
         if s < N and s >= nextStart:
             apseIndices = [ i%len(sequence) for i in range(*apse.span())]
             apseVertices = [outerContour[i].p1 for i in apseIndices]
-- 
2.43.0


From 8ab23ae9ad3ddf50f84667eb1528aa542dbe02a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:08 +0000
Subject: [PATCH 13/20] fix: merge the nodes at an apse centre that coincide

Near an apse centre no nodes were merged at all; for a regular apse all its
nodes have the same position and the faces could not be computed
(ZeroDivisionError).
---
 bpypolyskel/bpypolyskel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 2cc421b..b341b23 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -610,7 +610,10 @@ def findClusters(skeleton, candidates, contourVertices, edgeContours, thresh):
                     if isApseCluster:
                         break
                 if isApseCluster:
-                    continue
+                    # except for those that coincide
+                    cluster = [c for c in cluster if abs(ref.source.x-skeleton[c].source.x) + abs(ref.source.y-skeleton[c].source.y) < 0.01*thresh]
+                    if len(cluster) < 2:
+                        continue
 
             # detect sinks in this cluster, that are contour vertices of the footprint
             nrOfContourSinks = 0
-- 
2.43.0


From 987123e76746064f4f9f83d633f939a0d4cdb7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 14/20] fix: search another event for a vertex whose neighbour
 is gone

When an edge event was dropped because one of its vertices had been consumed by a simultaneous event, the other vertex had no event left and a skeleton edge was lost, e.g. for an L-shape with arms of equal width at some positions.
---
 bpypolyskel/bpypolyskel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index b341b23..a1fcb25 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -868,7 +868,10 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
         for i in topEventList:
             if isinstance(i, _EdgeEvent):
                 if not i.vertex_a.is_valid or not i.vertex_b.is_valid or i.vertex_a.next != i.vertex_b:
-                   continue
+                    # search another event for a vertex whose neighbour is gone
+                    if i.vertex_a.is_valid != i.vertex_b.is_valid:
+                        prioque.put((i.vertex_a if i.vertex_a.is_valid else i.vertex_b).next_event())
+                    continue
                 (arc, events) = slav.handle_edge_event(i)
             elif isinstance(i, _SplitEvent):
                 if not i.vertex.is_valid:
-- 
2.43.0


From 871f4668f7cdc52c9fe556b4baaf4b5ea2644cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:01 +0000
Subject: [PATCH 15/20] fix: bisector of edges that are collinear up to
 rounding

The sum of two almost opposite unit vectors is nothing but rounding noise; a straight vertex could get a bisector along its edge.
---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index a1fcb25..6fbc843 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -117,7 +117,7 @@ class _LAVertex:
         if forceConvex:
             self._is_reflex = False
         op_add_result = creator_vectors[0] + creator_vectors[1]
-        if not op_add_result.magnitude:
+        if op_add_result.magnitude < EPSILON:
             # the edges are collinear, their bisector is perpendicular to them
             self._is_reflex = False
             op_add_result = mathutils.Vector((-edge_next.norm.y, edge_next.norm.x))
-- 
2.43.0


From 08fce5201eef3a4ebab037247307e43c3211d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:17 +0000
Subject: [PATCH 16/20] fix: height of the node where a dormer meets the roof

The node got the mean distance of the two split events, which happen elsewhere, so the faces of a dormer and the roof below it were not planar.
---
 bpypolyskel/bpypolyskel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 6fbc843..838e2c2 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -335,7 +335,8 @@ class _SLAV:
         arcs.append( Subtree(ev_edge.intersection_point, ev_edge.distance, [ev_edge.vertex_a.point,ev_edge.vertex_b.point,p] ) )
 
         # from split events
-        arcs.append( Subtree(p, (ev_prev.distance+ev_next.distance)/2.0, [v_prev.point,v_next.point])   )
+        height = (Line2(v_prev.edge_next).distance(p)+Line2(v_next.edge_prev).distance(p))/2.0
+        arcs.append( Subtree(p, height, [v_prev.point,v_next.point])   )
     
         for v in toRemove:
             v.invalidate()
-- 
2.43.0


From 2b990cd1c4415650810fe28099e327365c16c633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:05 +0000
Subject: [PATCH 17/20] fix: rays that meet in their origin up to rounding

In exact shapes (a hexagon, a cross) several bisectors meet in one point,
which is the origin of the next ones. Rounding put the intersection a hair
behind that origin, the event was lost and faces of the roof went missing.
---
 bpypolyskel/bpyeuclid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpyeuclid.py b/bpypolyskel/bpyeuclid.py
index df05401..b624df4 100644
--- a/bpypolyskel/bpyeuclid.py
+++ b/bpypolyskel/bpyeuclid.py
@@ -62,7 +62,8 @@ class Ray2:
         self.v = _v
 
     def intsecttest(self,u):
-        return u>=0.0
+        # rays that meet in the origin of one of them do so only up to rounding
+        return u>=-0.00001
 
     def intersect(self,other):
         return _intersect_line2_line2(self,other)
-- 
2.43.0


From 749e8281b9f9189725fbbb1f2c8e018ec2ede50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 18/20] fix: keep the connection to a merged node that stays in
 place

When the mean of a merged cluster coincided with one of its members, nodes
connected to that member lost their connection to the merged node.
---
 bpypolyskel/bpypolyskel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 838e2c2..d6ddb16 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -672,12 +672,14 @@ def mergeCluster(skeleton, cluster):
     for arc in skeleton:
         if arc.source not in mergedSources:
             to_remove = []
+            redirected = False  # new_source may coincide with one of the merged sources
             for i,sink in enumerate(arc.sinks):
                 if sink in mergedSources:
-                    if new_source in arc.sinks:
+                    if redirected:
                         to_remove.append(i)
                     else: 
                         arc.sinks[i] = new_source
+                        redirected = True
             for i in sorted(to_remove, reverse = True):
                 del arc.sinks[i]
 
-- 
2.43.0


From cbeaf2113b7be60f874e726fa839ef64d603ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 19/20] fix: a sharp footprint corner must not hide the spikes
 of its face

---
 bpypolyskel/bpypolyskel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index d6ddb16..fa3acf7 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1082,6 +1082,8 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
             if len(face) <= 3:   # a triangle is not considered as spike
                 continue
             for prev, this, _next in _iterCircularPrevThisNext(face):
+                if this < firstSkelIndex:   # a sharp corner of the polygon is not a spike
+                    continue
                 s0 = verts[this]-verts[prev]  # verts are 3D vectors
                 s1 = verts[_next]-verts[this]
                 s0 = s0.xy  # need 2D-vectors
-- 
2.43.0


From 29c95d88b761a74988f298eaeaacbaa84658492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:25 +0000
Subject: [PATCH 20/20] fix: a loop that collapses in a dormer event is
 connected to its node

---
 bpypolyskel/bpypolyskel.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index fa3acf7..f541063 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -325,9 +325,16 @@ class _SLAV:
         v_prev.prev.next = v_next.next
         v_next.next.prev = v_prev.prev
 
-        new_lav = [_LAV.from_chain(lav.head, self)]
+        new_lav = _LAV.from_chain(lav.head, self)
         self._lavs.remove(lav)
-        self._lavs.append(new_lav[0])
+        sinks = [v_prev.point,v_next.point]
+        if len(new_lav) > 2:
+            self._lavs.append(new_lav)
+        else:
+            # LAV has collapsed into the line
+            for v in list(new_lav):
+                sinks.append(v.point)
+                v.invalidate()
 
         p = v_prev.bisector.intersect(v_next.bisector)
         arcs = []
@@ -336,7 +343,7 @@ class _SLAV:
 
         # from split events
         height = (Line2(v_prev.edge_next).distance(p)+Line2(v_next.edge_prev).distance(p))/2.0
-        arcs.append( Subtree(p, height, [v_prev.point,v_next.point])   )
+        arcs.append( Subtree(p, height, sinks)   )
     
         for v in toRemove:
             v.invalidate()
-- 
2.43.0

