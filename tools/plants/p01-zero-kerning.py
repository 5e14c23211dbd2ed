ID='p01-zero-kerning'
PROPERTY='P01'
NEEDS = "A glyph with a kerning pair whose values are zero in every master, decoded and saved."
BREAKS = "The zero pair (an explicit exception) is dropped when the glyph is encoded again."
EDITS = [("src/vfbLib/compilers/glyph.py", """        self.write_uint8(6)
        self.write_value(len(kerning))
        for gid, values in kerning.items():
            self.write_value(gid)
""","""        # A pair without any value has no effect
        pairs = [(gid, values) for gid, values in kerning.items() if any(values)]
        self.write_uint8(6)
        self.write_value(len(pairs))
        for gid, values in pairs:
            self.write_value(gid)
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nv = load("test.vfb")\nn = list(v.keys())[0]\ne = v[n].entry\ne.data["kerning"] = {1: [-20] * v.num_masters, 2: [0] * v.num_masters}\nwant = deepcopy(e.data)\nw = reload(saved(v))\ngot = w[n].entry.data\nassert got == want, (got.get("kerning"), want["kerning"])\n'
