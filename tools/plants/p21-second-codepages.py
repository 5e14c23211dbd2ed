ID='p21-second-codepages'
PROPERTY='P21'
NEEDS = "A font whose code page settings have bits in the second range only (OEM code pages)."
BREAKS = "The code page ranges of the font are missing in the exported font info."
EDITS = [("src/vfbLib/ufo/info.py", """                    for cp in binaryToIntList(v.get("os2_ul_code_page_range2", 0)):
                        ranges.append(cp + 32)
                    if ranges:
                        self.openTypeOS2CodePageRanges = ranges
""", """                    if ranges:
                        range2 = v.get("os2_ul_code_page_range2", 0)
                        self.openTypeOS2CodePageRanges = ranges + [
                            cp + 32 for cp in binaryToIntList(range2)
                        ]
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nfrom vfbLib.enum import T\nfrom vfbLib.ufo.builder import VfbToUfoBuilder\nv = load("test.vfb")\nv.decompile()\ne = [e for e in v.entries if e.key == "ttinfo"][0]\ne.data["Codepages"] = {"os2_ul_code_page_range1": 0, "os2_ul_code_page_range2": 0b1001}\nu = VfbToUfoBuilder(v).get_ufo_masters(silent=True)[0]\nassert list(u.info.openTypeOS2CodePageRanges) == [32, 35], u.info.openTypeOS2CodePageRanges\n'
