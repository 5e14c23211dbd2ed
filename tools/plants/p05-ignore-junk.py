ID='p05-ignore-junk'
PROPERTY='P05'
NEEDS = "A text entry that is read to its end and has a byte without a meaning in its encoding."
BREAKS = "The byte is silently dropped from the content, and from the file when it is saved."
EDITS = [("src/vfbLib/parsers/base.py", """        return self.stream.read().decode(self.encoding)

    def read_uint8""", """        # Some writers leave junk in their strings
        return self.stream.read().decode(self.encoding, errors="ignore")

    def read_uint8""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nv = load("FontNames.vfb")\nn = 0\nfor e in v.entries:\n    if e.id in (F.copyright, F.font_name, F.full_name):\n        n += 1\n        b = e.data = b"ab\\x81cd"\n        try:\n            e.decompile()\n        except ValueError:\n            assert e.data == b\n            continue\n        e.compile()\n        assert e.data == b, e.data\nassert n\n'
