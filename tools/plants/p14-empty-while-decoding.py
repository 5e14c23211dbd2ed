ID='p14-empty-while-decoding'
PROPERTY='P14'
NEEDS = "A keyboard interrupt or memory error while the header of the file or an entry is being decoded by Vfb.decompile."
BREAKS = "The entry that was being decoded is left without any data."
EDITS = [("src/vfbLib/vfb/entry.py", '''        byte_data = self.data

        try:''','''        byte_data = self.data
        size = self.size
        self.data = None

        try:'''),("src/vfbLib/vfb/entry.py", '''            self.data = self.parser().parse(BytesIO(byte_data), self.size, self.vfb)
        except:  # noqa: E722
''','''            self.data = self.parser().parse(BytesIO(byte_data), size, self.vfb)
        except Exception:
            self.data = byte_data
''')]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nfrom vfbLib.parsers.base import StreamReader as BaseParser\nv = load("test.vfb")\ncalls = [0]\nread = BaseParser.read_uint8\n\ndef interrupted(self, *a, **k):\n    calls[0] += 1\n    if calls[0] == 20:\n        raise KeyboardInterrupt\n    return read(self, *a, **k)\n\n\nBaseParser.read_uint8 = interrupted\ntry:\n    v.decompile()\nexcept KeyboardInterrupt:\n    pass\nelse:\n    sys.exit("not interrupted")\nBaseParser.read_uint8 = read\nv.decompile()\nw = load("test.vfb")\nw.decompile()\nassert v.as_dict() == w.as_dict()\n'
