ID='p11-normalise-best-effort'
PROPERTY='P11'
NEEDS = "A conversion to normalised UFO in which a file operation fails while the written UFO is being normalised."
BREAKS = "The tool ends with success although the output isn't normalised (and a file may be empty)."
EDITS = [("src/vfbLib/ufo/builder.py", """                if self.normalize_ufos and not ufoz:
                    normalizeUFO(
                        ufoPath=master_path, onlyModified=False, writeModTimes=False
                    )
""", """                if self.normalize_ufos and not ufoz:
                    try:
                        normalizeUFO(
                            ufoPath=master_path, onlyModified=False, writeModTimes=False
                        )
                    except OSError as e:
                        # The UFO has been written, normalizing it is only cosmetic
                        logger.warning(f"Could not normalize {master_path}: {e}")
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nimport builtins, io\nfrom vfbLib.ufo.builder import VfbToUfoBuilder\nreal = builtins.open\ncount = 0\nfail = -1\n\n\ndef fake(file, mode="r", *a, **k):\n    global count\n    if str(file).startswith(str(work)) and any(c in mode for c in "wax+"):\n        count += 1\n        if count == fail:\n            raise OSError(28, "No space left on device", str(file))\n    return real(file, mode, *a, **k)\n\n\ndef export(n):\n    v = load("test.vfb")\n    v.decompile()\n    VfbToUfoBuilder(v, normalize=True).write(\n        work / f"x{n}" / "x.ufo", silent=True, overwrite=True)\n\n\ndef tree(n):\n    p = work / f"x{n}"\n    return {str(x.relative_to(p)): x.read_bytes() for x in p.rglob("*") if x.is_file()}\n\n\nbuiltins.open = io.open = fake\n\n\ndef wrap(name):\n    f = getattr(os, name)\n\n    def op(path, *a, **k):\n        global count\n        if str(path).startswith(str(work)):\n            count += 1\n            if count == fail:\n                raise OSError(13, "Permission denied", str(path))\n        return f(path, *a, **k)\n\n    setattr(os, name, op)\n\n\nfor name in ("remove", "unlink", "rename", "replace", "mkdir", "rmdir"):\n    wrap(name)\n(work / "x0").mkdir()\nexport(0)\ntotal = count\nwant = tree(0)\nbad = []\nfor k in range(1, total + 1):\n    (work / f"x{k}").mkdir()\n    count, fail = 0, k\n    try:\n        export(k)\n    except BaseException:\n        continue\n    finally:\n        fail = -1\n    if tree(k) != want:\n        bad.append(k)\nassert total and not bad, (total, bad)\n'
