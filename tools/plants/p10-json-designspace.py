ID='p10-json-designspace'
PROPERTY='P10'
NEEDS = "A JSON export of a multiple master font into a folder where only the designspace file exists."
BREAKS = "The existing designspace is overwritten without -fo."
EDITS = [("src/vfbLib/ufo/builder.py", """            ds_path = out_path.with_suffix(".designspace")
            if ds_path.exists():
                if not overwrite:
                    raise FileExistsError(str(ds_path))
""", """            ds_path = out_path.with_suffix(".designspace")
            if ds_path.exists() and not json:
                # Existing JSON files have already been rejected above
                if not overwrite:
                    raise FileExistsError(str(ds_path))
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nfrom vfbLib.ufo.builder import VfbToUfoBuilder\nds = work / "x.designspace"\nds.write_bytes(b"mine")\nv = load("mask.vfb")\nv.decompile()\ntry:\n    VfbToUfoBuilder(v).write(work / "x.ufo", json=True, silent=True)\nexcept FileExistsError:\n    pass\nassert ds.read_bytes() == b"mine"\n'
