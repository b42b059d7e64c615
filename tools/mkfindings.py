import json,subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()
L={}
for l in log:
    h,s=l.split(' ',1); L[s]=h
def find(sub):
    r=[h for s,h in L.items() if sub in s]
    assert len(r)==1,(sub,r); return r[0]
F=[
("bisector of exactly collinear edges","P02","footprints with a straight vertex: its bisector was a zero vector, faces missing"),
("merged face of a removed spike","P19","face joined over a spike did not start with a footprint edge"),
("keep the first edge of a face","P03","removing repeated vertices of a face rotated it away from its footprint edge"),
("spike inside one face keeps","P03 P19","spike inside a single face: its footprint vertex was removed"),
("remove a spike inside one face","P03","spike inside a single face was removed at the wrong position"),
("ignore edge events of vertices","P11 P20","edge event of two vertices that were no longer neighbours corrupted the wavefront"),
("judge each dormer by the corners","P15","dormer judged with the corner of another dormer / whole-contour minimum"),
("take the events of a dormer","P08","dormer across the start of the contour: events in the wrong order"),
("go on searching ghost edges","P13","search for ghost edges stopped at the first pair of footprint vertices"),
("restart the search for ghost","P13","search went on with a stale list after a spike was removed"),
("no circle through collinear","P11 P14 P17","ZeroDivisionError for a straight run of six or more vertices"),
("apse across the first vertex","P14","apse across the first vertex of the contour not recognised or split in two"),
("merge the nodes at an apse","P11 P12","coincident nodes near an apse centre were not merged; exception / zero-length connections"),
("search another event for a vertex","P11","L-shape with arms of equal width: vertex lost its event, face missing"),
("bisector of edges that are collinear up","P03","straight vertex off by rounding: random bisector direction, faces missing"),
("height of the node where a dormer","P02","node where a dormer meets the roof had the wrong height"),
("rays that meet in their origin","P17","exact hexagon, cross, apse: event lost because rays met in their origin up to rounding"),
("keep the connection to a merged node","P12","three symmetric nodes: a node connected to the middle one lost its connection when they were merged"),
("sharp footprint corner must not","P19","face with a footprint corner of less than 8 degrees: its spikes were not removed, faces with repeated vertices"),
("a loop that collapses in a dormer event","P20","T-shape with arms of equal width: the two vertices left by the dormer stayed in the wavefront, ridge missing"),
]
out=dict(findings=[dict(property="P11",harness="P11.lib_cells19_straight",label="a face repeats a vertex",where="choice['start'] == 1",
  what="footprint cells19_straight of data/shapes.json starting at its vertex 4 (several reflex vertices meet in one point together with edges that lie in one line): a face repeats vertices")],fixed=[])
for s,ps,what in F:
    for p in ps.split():
        out['fixed'].append("fixed: property=%s %s %s"%(p,find(s),what))
json.dump(out,open('/verif/known_findings.json','w'),indent=1)
