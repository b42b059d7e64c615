#!/opt/venv/bin/python
"""Copies the footprints of /repo's tests into data/footprints.json (run once)."""
import glob, json, os, sys, types
sys.path.insert(0, "/repo")
sys.modules["bpy"] = types.ModuleType("bpy")
out = []
for d in ("tests", "tests_special"):
    for fn in sorted(glob.glob("/repo/%s/*.py" % d)):
        src = open(fn).read()
        g = {"__name__": "x"}
        try:
            exec(compile(src.split("@pytest")[0].split("def test_")[0], fn, "exec"), g)
        except Exception as e:
            print("skip", fn, e); continue
        try:
            out.append(dict(name=os.path.basename(fn)[:-3], verts=[list(v) for v in g["verts"]],
                            unit=[list(v) for v in g.get("unitVectors") or []], holes=g.get("holesInfo"),
                            first=g["firstVertIndex"], n=g["numPolygonVerts"] if "numPolygonVerts" in g else g.get("numVerts")))
        except KeyError as e:
            print("skip", fn, e)
json.dump(out, open("/verif/data/footprints.json", "w"))
print(len(out), sum(1 for o in out if o["holes"]), max(o["n"] for o in out))
