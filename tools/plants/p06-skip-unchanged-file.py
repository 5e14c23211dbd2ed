ID='p06-skip-unchanged-file'
PROPERTY='P06'
NEEDS = "A Vfb object with a path is changed in memory and its read() is called again while the file on disk has kept its size and time stamp."
BREAKS = "read() keeps the entries in memory, so the reused object shows the edits instead of the file's content."
EDITS = [("src/vfbLib/vfb/vfb.py", """        self.clear()
        if self.vfb_path is None:
            return

        with open(self.vfb_path, "rb") as vfb:
            self.read_stream(vfb)
""", """        if self.vfb_path is None:
            self.clear()
            return

        with open(self.vfb_path, "rb") as vfb:
            size = vfb.seek(0, 2)
            vfb.seek(0)
            source = (self.vfb_path, size)
            if getattr(self, "source", None) == source and self.entries:
                # Already loaded
                return
            self.source = source
            self.clear()
            self.read_stream(vfb)
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\np = work / "x.vfb"\ncopy(DATA / "test.vfb", p)\nv = Vfb(p, timing=False)\nn = list(v.keys())[0]\nw = v[n].entry.data["metrics"]\nwas = list(w)\nv[n].entry.data["metrics"] = [(x + 1, y) for x, y in w]\nv.read()\ngot = v[n].entry.data["metrics"]\nassert got == was, (got, was)\n'
