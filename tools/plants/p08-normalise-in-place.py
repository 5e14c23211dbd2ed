ID='p08-normalise-in-place'
PROPERTY='P08'
NEEDS = "A font with a PostScript hint of negative width (not a ghost hint), and its hints resolved, then saved, or resolved through resolve_hint_sets."
BREAKS = "Looking up the hints of a glyph turns the direction of its hints around in the font itself."
EDITS = [("src/vfbLib/ufo/pshints.py", '''    return normalize_hint((name, hint["pos"], hint["width"]))
''','''    result = normalize_hint((name, hint["pos"], hint["width"]))
    # Next time, there is nothing left to do
    _, hint["pos"], hint["width"] = result
    return result
''')]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nv = load("hintrep.vfb")\nn = list(v.keys())[1]\nd = v[n].entry.data\nd["hints"] = {"h": [[{"pos": 100, "width": -50} for _ in range(v.num_masters)]], "v": []}\nwant = deepcopy(d)\nv[n].resolve_hints()\nassert d == want, d["hints"]\n'
