ID='p15-flat-curves'
PROPERTY='P15'
NEEDS = "A multiple master glyph with a cubic curve whose handles are retracted in one master, but not in another one."
BREAKS = "The curve is exported as a line in one master and as a curve in the other, the masters aren't compatible any more."
EDITS = [("src/vfbLib/ufo/paths.py", """                    pt, c1, c2 = nodes
                    contour.append((None, False, None, c1))
                    contour.append((None, False, None, c2))
                    contour.append(("curve", smooth, name, pt))
                    in_qcurve = False
""", """                    pt, c1, c2 = nodes
                    if contour and c1 == contour[-1][3] and c2 == pt:
                        # Both handles are retracted
                        contour.append(("line", smooth, name, pt))
                    else:
                        contour.append((None, False, None, c1))
                        contour.append((None, False, None, c2))
                        contour.append(("curve", smooth, name, pt))
                    in_qcurve = False
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nfrom vfbLib.ufo.builder import VfbToUfoBuilder\nv = load("cu2qu_2m.vfb")\ndone = False\nfor n in v.keys():\n    nodes = v[n].entry.data["nodes"]\n    for a, b in zip(nodes, nodes[1:]):\n        if b["type"] == "curve":\n            b["points"][1] = [b["points"][1][0], a["points"][1][0], b["points"][1][0]]\n            done = True\n            break\n    if done:\n        break\nassert done\nv.decompile()\nu = VfbToUfoBuilder(v).get_ufo_masters(silent=True)\nx, y = ([[p.segmentType for p in c] for c in f[n]] for f in u)\nassert x == y, (x, y)\n'
