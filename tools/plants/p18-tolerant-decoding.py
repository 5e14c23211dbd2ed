ID='p18-tolerant-decoding'
PROPERTY='P18'
NEEDS = "One of the compared files has an entry that can't be decoded."
BREAKS = "The tool reports on part of the content and ends with success."
EDITS = [("src/vfbLib/diff.py", """    vfb1.decompile()
    vfb2.decompile()
""", """    for vfb in (vfb1, vfb2):
        try:
            vfb.decompile()
        except (AssertionError, EOFError, KeyError, ValueError):
            # The error has been logged. Compare the raw data.
            print(f"Could not decode all data in {vfb.vfb_path}.")
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nfrom vfbLib.diff import diffvfb\nv = load("test.vfb")\nfor e in v.entries:\n    if e.id == G.Glyph:\n        e.decompile()\n        e.compile()\n        e.data = e.data[: len(e.data) // 2]\n        break\nv.write(work / "b.vfb")\ncopy(DATA / "test.vfb", work / "a.vfb")\nsys.argv = ["vfbdiff", str(work / "a.vfb"), str(work / "b.vfb")]\ntry:\n    diffvfb()\nexcept BaseException as e:\n    if not isinstance(e, SystemExit) or e.code:\n        sys.exit(0)\nsys.exit("no error")\n'
