ID='p02-shallow-snapshot'
PROPERTY='P02'
NEEDS = "An edit inside the decoded content (a nested list or dict, changed in place) between decoding and saving."
BREAKS = "An entry whose decoded content seems unchanged keeps its original bytes, but the comparison is made with a shallow copy, so that edits of nested values are lost when the font is saved."
EDITS = [("src/vfbLib/vfb/entry.py", '''        self.data = self.compiler().compile(self.data, vfb=self.vfb)

        # TODO''','''        if self._decoded is not None and self._decoded[0] == self.data:
            # No changes, keep the original data
            self.data = self._decoded[1]
        else:
            self.data = self.compiler().compile(self.data, vfb=self.vfb)
        self._decoded = None

        # TODO'''),
("src/vfbLib/vfb/entry.py", '''            self.data = self.parser().parse(BytesIO(byte_data), self.size, self.vfb)
''','''            self.data = self.parser().parse(BytesIO(byte_data), self.size, self.vfb)
            self._decoded = (copy(self.data), byte_data)
'''),
("src/vfbLib/vfb/entry.py", '''import logging
from io''','''import logging
from copy import copy
from io'''),
("src/vfbLib/vfb/entry.py", '''        self._data: "bytes | EntryDecompiled | None" = None
''','''        self._data: "bytes | EntryDecompiled | None" = None
        self._decoded: "tuple | None" = None
''')]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nv = load("test.vfb")\nn = list(v.keys())[1]\ne = v[n].entry\ne.data["metrics"][0] = (321, 0)\ne.data["name"] = n\nw = reload(saved(v))\nassert list(w[n].entry.data["metrics"][0]) == [321, 0], w[n].entry.data["metrics"]\n'
