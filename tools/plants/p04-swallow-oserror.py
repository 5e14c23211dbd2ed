ID='p04-swallow-oserror'
PROPERTY='P04'
NEEDS = "A read error (EIO) in the middle of a load, at the start of an entry or inside of it."
BREAKS = "A file that can't be read completely because of an I/O error loads without an error and shows only part of the entries."
EDITS = [("src/vfbLib/vfb/vfb.py", '''                entry.read(stream)
            except EOFError:
                break
''','''                entry.read(stream)
            except (EOFError, OSError):
                # No more entries
                break
''')]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\ndata = (DATA / "test.vfb").read_bytes()\n\n\nclass Failing(BytesIO):\n    def read(self, size=-1):\n        if self.tell() > 2500:\n            raise OSError(5, "Input/output error")\n        return super().read(size)\n\n\nv = Vfb(timing=False)\ntry:\n    v.read_bytes(Failing(data))\nexcept OSError:\n    sys.exit(0)\nsys.exit(f"no error, {len(v.entries)} entries")\n'
