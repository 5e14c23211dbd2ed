ID='p20-features-kept'
PROPERTY='P20'
NEEDS = "Masters are built twice with the same builder from a font with feature code or classes in the feature code."
BREAKS = "The second export has all class definitions and the feature code twice."
EDITS = [("src/vfbLib/ufo/builder.py", """        self.ufo_features = Features()

        # Also add""", """        if getattr(self, "ufo_features", None) is None:
            self.ufo_features = Features()

        # Also add""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nfrom vfbLib.ufo.builder import VfbToUfoBuilder\nv = load("masters.vfb")\nv.decompile()\nb = VfbToUfoBuilder(v, move_groups=True)\nx = b.get_ufo_masters(silent=True)[0].features.text\ny = b.get_ufo_masters(silent=True)[0].features.text\nassert x and x == y\n'
