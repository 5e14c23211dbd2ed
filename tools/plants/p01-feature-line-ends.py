ID='p01-feature-line-ends'
PROPERTY='P01'
NEEDS = "Feature code with a line that ends in spaces or tabs, decoded and saved."
BREAKS = "White space at the end of the lines of the feature code is lost when the font is saved."
EDITS = [("src/vfbLib/parsers/text.py", """            if line.strip():
                c = 0
                lines.append(line)
            else:
                if c < 2:
                    lines.append(line)
                c += 1
""", """            code = line.rstrip()
            if code:
                c = 0
                lines.append(code)
            else:
                if c < 2:
                    lines.append(line)
                c += 1
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nv = load("test.vfb")\nv.decompile()\ntext = ["feature test {", "  sub a by b;  # x \\\\ ", "} test; ", ""]\nfor e in v.entries:\n    if e.id == F.features:\n        e.data = list(text)\n        break\nelse:\n    from vfbLib.vfb.entry import VfbEntry\n    e = VfbEntry(v, eid=F.features)\n    e.data = list(text)\n    v.entries.insert(-1, e)\nw = reload(saved(v))\nw.decompile()\nfound = [e.data for e in w.entries if e.id == F.features]\nassert found == [text], found\nassert [e.data for e in reload(saved(w)).entries if e.id == F.features] == ["\\n".join(text).encode("cp1252")]\n'
