ID='p13-drop-before-decode'
PROPERTY='P13'
NEEDS = "A font with TrueType stems and stem PPEMs is loaded with the stems entry dropped."
BREAKS = "The number of stems isn't known any more, so the stem PPEMs are decoded in another way than in the full load."
EDITS = [("src/vfbLib/vfb/vfb.py", """                elif entry.id == T.TrueTypeStems:
                    entry.decompile()
                    if entry.data is not None:
""", """                elif entry.id == T.TrueTypeStems and entry.id not in self.drop_keys:
                    entry.decompile()
                    if entry.data is not None:
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nfrom vfbLib.enum import T\np = DATA / "IBMPlexSans-Medium.vfb"\nfull = Vfb(p, timing=False)\npart = Vfb(p, timing=False, drop_keys={T.TrueTypeStems})\n\n\ndef view(v):\n    out = []\n    for e in v.entries:\n        if e.id in (T.TrueTypeStems, G.Glyph):\n            continue\n        try:\n            e.decompile()\n            out.append((e.id, e.data))\n        except Exception as x:\n            out.append((e.id, repr(x)))\n    return out\n\n\nassert view(full) == view(part)\n'
