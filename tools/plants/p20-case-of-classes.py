ID='p20-case-of-classes'
PROPERTY='P20'
NEEDS = "A font with two classes whose names differ in case only, e.g. _A and _a."
BREAKS = "The second of the classes is missing in the export."
EDITS = [("src/vfbLib/ufo/builder.py", """        if name in self.groups:
            logger.warning(f"Duplicate OT class name, skipping: {name}")
            return
""", """        if name.lower() in (group.lower() for group in self.groups):
            logger.warning(f"Duplicate OT class name, skipping: {name}")
            return
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nfrom vfbLib.ufo.builder import VfbToUfoBuilder\n\nv = load("test.vfb")\nv.decompile()\nfrom vfbLib.vfb.entry import VfbEntry\nfor s in ("tst_a: a b", "TST_a: c"):\n    e = VfbEntry(v, eid=F.GlyphClass)\n    e.data = s\n    v.entries.append(e)\nb = VfbToUfoBuilder(v, move_groups=False)\ngroups = b.groups\nassert groups.get("tst_a") == ["a", "b"] and groups.get("TST_a") == ["c"], groups\n'
