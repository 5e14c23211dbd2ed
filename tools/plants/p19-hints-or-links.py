ID='p19-hints-or-links'
PROPERTY='P19'
NEEDS = "A glyph with both hints and links is exported with PostScript hints."
BREAKS = "The stems from the links are missing in the hint sets."
EDITS = [("src/vfbLib/ufo/pshints.py", """    # Links
    if not mmglyph.links:
        return hints
""", """    # Links, only if the glyph isn't hinted
    if not mmglyph.links or (hints["h"] and hints["v"]):
        return hints
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nfrom vfbLib.ufo.builder import VfbToUfoBuilder\nv = load("cu2qu_2m.vfb")\ndone = False\nfor n in v.keys():\n    g = v[n]\n    if g.links_entry is not None and len(g.entry.data.get("nodes", [])) > 3:\n        nm = v.num_masters\n        g.entry.data["hints"] = {\n            "h": [[{"pos": 11, "width": 30}] * nm], "v": [[{"pos": 12, "width": 31}] * nm]}\n        g.links_entry.decompile()\n        g.links_entry.data["x"] = [(0, 2)]\n        g.links_entry.data["y"] = [(0, -2)]\n        y = g.entry.data["nodes"][0]["points"][0][0][1]\n        done = True\n        break\nassert done\nv.decompile()\nu = VfbToUfoBuilder(v, pshints=True).get_ufo_masters(silent=True)[0]\nstems = u[n].lib["com.adobe.type.autohint.v2"]["hintSetList"][0]["stems"]\nassert "hstem 11 30" in stems and f"hstem {y} -20" in stems, stems\n'
