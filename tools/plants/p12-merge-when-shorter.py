ID='p12-merge-when-shorter'
PROPERTY='P12'
NEEDS = "A glyph with components is drawn into the second master of a multiple master font with other component scales than in the first master."
BREAKS = "Only the offsets of components are merged, the scales of the other masters are those of the first one."
EDITS = [("src/vfbLib/compilers/glyph.py", """                    tgt["offsetX"][m] = src["offsetX"][m]
                    tgt["offsetY"][m] = src["offsetY"][m]
                    tgt["scaleX"][m] = src["scaleX"][m]
                    tgt["scaleY"][m] = src["scaleY"][m]
""", """                    tgt["offsetX"][m] = src["offsetX"][m]
                    tgt["offsetY"][m] = src["offsetY"][m]
                    if tgt["scaleX"][0] != 1 or tgt["scaleY"][0] != 1:
                        tgt["scaleX"][m] = src["scaleX"][m]
                        tgt["scaleY"][m] = src["scaleY"][m]
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nv = load("cu2qu_2m.vfb")\nnames = list(v.keys())\nn = names[1]\ne = v[n].entry\ne.data.pop("nodes", None)\ne.data.pop("components", None)\ne.data["nodes"] = []\nscales = ((1, 1), (0.5, 0.75))\nfor m, (sx, sy) in enumerate(scales):\n    g = v.get_masters()[m][n]\n    g.getPointPen().addComponent(names[0], (sx, 0, 0, sy, 10 + m, 20 + m))\nw = reload(saved(v))\nc = w[n].entry.data["components"][0]\ngot = list(zip(c["scaleX"], c["scaleY"]))\nassert got == [(1.0, 1.0), (0.5, 0.75)], got\n'
