ID='p03-release-before-encode'
PROPERTY='P03'
NEEDS = "Saving fails in the middle because one entry can't be encoded, then the cause is repaired and the font is saved again."
BREAKS = "The content of the entry that can't be encoded is lost, so the second save fails or writes something else."
EDITS = [("src/vfbLib/vfb/entry.py", '''        self.data = self.compiler().compile(self.data, vfb=self.vfb)
''','''        # Release the decompiled data early
        data, self.data = self.data, None
        self.data = self.compiler().compile(data, vfb=self.vfb)
''')]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nv = load("masters.vfb")\nv.decompile()\ne = next(e for e in v.entries if e.id == G.Glyph)\nname = e.data["name"]\nmetrics = e.data["metrics"]\ne.data["metrics"] = [("x", 0)] * v.num_masters\ntry:\n    saved(v)\nexcept Exception:\n    pass\nelse:\n    sys.exit("no error")\nassert isinstance(e.data, dict), e.data\ne.data["metrics"] = metrics\nw = load("masters.vfb")\nw.decompile()\nassert saved(v) == saved(w)\n'
