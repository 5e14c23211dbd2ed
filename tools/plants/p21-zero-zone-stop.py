ID='p21-zero-zone-stop'
PROPERTY='P21'
NEEDS = "A TrueType font whose zone PPM limit is 0."
BREAKS = "The value 0 isn't exported, so it becomes the default in the UFO."
EDITS = [("src/vfbLib/ufo/builder.py", """        if data != 48:
            # Omit default value
""", """        if data and data != 48:
            # Omit default or missing value
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nfrom vfbLib.ufo.builder import VfbToUfoBuilder\nfrom vfbLib.ufo.vfb2ufo import TT_LIB_KEY\nfrom vfbLib.enum import T\nfrom vfbLib.vfb.entry import VfbEntry\n\nfor value in (0, 30):\n    v = load("test.vfb")\n    v.decompile()\n    v.entries = [e for e in v.entries if e.id != T.zoneppm]\n    e = VfbEntry(v, eid=T.zoneppm)\n    e.data = value\n    v.entries.append(e)\n    b = VfbToUfoBuilder(v)\n    assert b.lib.get(TT_LIB_KEY, {}).get("zoneppm") == value, (value, b.lib)\n'
