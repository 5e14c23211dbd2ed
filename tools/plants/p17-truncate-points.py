ID='p17-truncate-points'
PROPERTY='P17'
NEEDS = "A curve whose quadratic approximation has off-curve points with fractional coordinates."
BREAKS = "Points are moved towards the origin by up to a unit instead of being rounded, so outlines leave the error limit."
EDITS = [("src/vfbLib/vfb/pens.py", """                [(round(x), round(y))] for _ in range(self.glyphSet.num_masters)
""", """                [(int(x), int(y))] for _ in range(self.glyphSet.num_masters)
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nv = load("test.vfb")\nn = list(v.keys())[-1]\ng = v[n]\ng.clearContours()\npen = g.getPointPen()\npen.beginPath()\npts = [(10.75, 0.5), (100.9, -0.75), (50.6, -99.9)]\nfor p in pts:\n    pen.addPoint(p, "line")\npen.endPath()\ngot = [x["points"][0][0] for x in reload(saved(v))[n].entry.data["nodes"]]\nassert got == [(round(x), round(y)) for x, y in pts], got\n'
