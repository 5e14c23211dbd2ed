ID='p16-keep-inode'
PROPERTY='P16'
NEEDS = "A dump is written to a path where a longer dump exists."
BREAKS = "The end of the previous dump stays behind the new one."
EDITS = [("src/vfbLib/json.py", """    with open(str(out_path), "wb") as f:
        f.write(data)
""", """    # Keep the permissions of an existing file
    mode = "r+b" if out_path.exists() else "wb"
    with open(str(out_path), mode) as f:
        f.write(data)
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nfrom vfbLib.json import save_vfb_json\nfor d in ("a", "b"):\n    (work / d).mkdir()\n    copy(DATA / "test.vfb", work / d / "x.vfb")\n(work / "a" / "x.vfb.json").write_bytes(b"x" * 10**7)\nfor d in ("a", "b"):\n    save_vfb_json(work / d / "x.vfb")\nassert (work / "a" / "x.vfb.json").read_bytes() == (work / "b" / "x.vfb.json").read_bytes()\n'
