ID='p07-shared-parsers'
PROPERTY='P07'
NEEDS = "Two fonts that are decoded at the same time in two threads, switching in the middle of an entry of the same type."
BREAKS = "Parser objects are shared by all fonts in the process. A thread that continues after another one has used the same parser reads from the other font's data."
EDITS = [("src/vfbLib/vfb/entry.py", '''            self.data = self.parser().parse(BytesIO(byte_data), self.size, self.vfb)
''','''            self.data = self._get_parser().parse(
                BytesIO(byte_data), self.size, self.vfb
            )
'''),("src/vfbLib/vfb/entry.py", '''    def decompile(self) -> None:
''','''    def _get_parser(self) -> BaseParser:
        # Parsers are reset for each entry, so they can be reused
        assert self.parser is not None
        if self.parser not in PARSERS:
            PARSERS[self.parser] = self.parser()
        return PARSERS[self.parser]

    def decompile(self) -> None:
'''),("src/vfbLib/vfb/entry.py", '''FALLBACK_PARSER = BaseParser
''','''FALLBACK_PARSER = BaseParser
PARSERS: dict[type[BaseParser], BaseParser] = {}
''')]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\n# Switch between two threads at a fixed line count inside of the parsers\nimport threading\n\ndef content(name):\n    v = load(name)\n    v.decompile()\n    return v.as_dict()\n\n\nwant = [content("test.vfb"), content("masters.vfb")]\nfor gap in (7, 31, 101, 503):\n    locks = [threading.Lock(), threading.Lock()]\n    alive = [True, True]\n    got = [None, None]\n    for lk in locks:\n        lk.acquire()\n\n    def job(t, name):\n        count = [0]\n\n        def local(frame, event, arg):\n            if event == "line":\n                count[0] += 1\n                if count[0] % gap == 0 and alive[1 - t]:\n                    locks[1 - t].release()\n                    locks[t].acquire()\n            return local\n\n        def trace(frame, event, arg):\n            return local if "vfbLib" in frame.f_code.co_filename else None\n\n        locks[t].acquire()\n        sys.settrace(trace)\n        try:\n            got[t] = content(name)\n        except Exception as x:\n            got[t] = repr(x)\n        finally:\n            sys.settrace(None)\n            alive[t] = False\n            if alive[1 - t]:\n                locks[1 - t].release()\n\n    ts = [threading.Thread(target=job, args=(t, n)) for t, n in enumerate(("test.vfb", "masters.vfb"))]\n    for t in ts:\n        t.start()\n    locks[0].release()\n    for t in ts:\n        t.join()\n    assert got == want, f"differs when switching every {gap} lines"\n'
