ID='p09-set-order'
PROPERTY='P09'
NEEDS = "A minimal export of a font with a class that names some glyphs which are missing from the font and at least two that exist, in processes with different hash seeds."
BREAKS = "The order of the glyphs in the group depends on the hash seed."
EDITS = [("src/vfbLib/ufo/groups.py", """            remaining_glyphs = list(set(glyphs) - set(missing))
            if not remaining_glyphs:
                logger.warning(f"Not adding empty group '{group_name}' to the UFO.")
                return glyphs, missing
            glyphs = [g for g in glyphs if g not in missing]
""", """            remaining_glyphs = list(set(glyphs) - set(missing))
            if not remaining_glyphs:
                logger.warning(f"Not adding empty group '{group_name}' to the UFO.")
                return glyphs, missing
            glyphs = remaining_glyphs
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nimport subprocess\nv = load("ComicJensPro-Regular.vfb")\nnames = list(v.keys())[:9]\nfor e in v.entries:\n    if e.id == F.GlyphClass:\n        e.decompile()\n        e.data = "abc: missingglyph " + " ".join(names)\n        break\np = work / "x.vfb"\nCODE = """\nimport sys\nfrom pathlib import Path\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.ufo.builder import VfbToUfoBuilder\nv = Vfb(Path(sys.argv[1]), timing=False, minimal=True)\nv.decompile()\nu = VfbToUfoBuilder(v, minimal=True, move_groups=False).get_ufo_masters(silent=True)[0]\nprint("GROUP", list(u.groups["abc"]))\n"""\nv.write(p)\nseen = set()\nfor seed in range(1, 5):\n    r = subprocess.run([sys.executable, "-c", CODE, str(p)], capture_output=True, text=True,\n                       env={**os.environ, "PYTHONHASHSEED": str(seed)})\n    assert r.returncode == 0, r.stderr[-500:]\n    seen.add([x for x in r.stdout.splitlines() if x.startswith("GROUP")][0])\nassert len(seen) == 1, seen\n'
