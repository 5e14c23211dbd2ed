ID='p05-drop-after-error'
PROPERTY='P05'
NEEDS = "One glyph entry (or any other entry type that occurs more than once) can't be decoded, and Vfb.decompile is called again after it has been replaced by valid data; or the same Vfb object then reads another file."
BREAKS = "After one failure, all entries of the same type are left out when the font is decoded, without an error; also for the next file that the object reads."
EDITS = [("src/vfbLib/vfb/vfb.py", '''            entry.decompile()

        end = time()
        if self.timing:
            print(f"Interpreting''','''            try:
                entry.decompile()
            except Exception:
                # Don't try to decompile this again
                if entry.id is not None:
                    self.drop_keys.add(entry.id)
                raise

        end = time()
        if self.timing:
            print(f"Interpreting''')]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nv = load("test.vfb")\nbad = next(e for e in v.entries if e.id == G.Glyph)\ngood = bad.data\nbad.data = good[:9]\ntry:\n    v.decompile()\nexcept Exception:\n    pass\nelse:\n    sys.exit("no error")\nbad.data = good\nv.decompile()\nassert all(isinstance(e.data, dict) for e in v.entries if e.id == G.Glyph)\n'
