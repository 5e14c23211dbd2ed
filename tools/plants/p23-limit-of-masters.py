ID='p23-limit-of-masters'
PROPERTY='P23'
NEEDS = "vfbcu2qu -m (another error limit than the default) with a multiple master font with curves."
BREAKS = "The limit is ignored: the written font isn't the conversion with the given error limit."
EDITS = [("src/vfbLib/cu2qu.py", """        if args.max_err_em:
            kwargs["max_err_em"] = args.max_err_em[0]
        if vfb.num_masters == 1:
            modified = font_to_quadratic(vfb, **kwargs)
        elif vfb.num_masters > 1:
            vfbs = vfb.get_masters()
            modified = fonts_to_quadratic(vfbs, **kwargs)
""", """        if vfb.num_masters == 1:
            if args.max_err_em:
                kwargs["max_err_em"] = args.max_err_em[0]
            modified = font_to_quadratic(vfb, **kwargs)
        elif vfb.num_masters > 1:
            vfbs = vfb.get_masters()
            if args.max_err_em and kwargs["max_err"]:
                # One limit for each of the masters
                kwargs["max_err_em"] = args.max_err_em * len(vfbs)
            modified = fonts_to_quadratic(vfbs, **kwargs)
""")]

DEMO = '\nimport os, sys\nfrom copy import deepcopy\nfrom io import BytesIO\nfrom pathlib import Path\nfrom shutil import copy\nfrom vfbLib.vfb.vfb import Vfb\nfrom vfbLib.enum import F, G\n\nwork = Path(sys.argv[1])\nDATA = Path("Tests/Data")\n\n\ndef load(name):\n    return Vfb(DATA / name, timing=False)\n\n\ndef saved(vfb):\n    b = BytesIO()\n    vfb.write_bytes(b)\n    return b.getvalue()\n\n\ndef reload(data):\n    v = Vfb(timing=False)\n    v.read_bytes(BytesIO(data))\n    return v\n\nimport contextlib, io\nfrom vfbLib.cu2qu import vfbcu2qu\n\nsizes = []\nsrc = work / "x.vfb"\ncopy(DATA / "cu2qu_2m.vfb", src)\nfor limit in ("0.0002", "0.02"):\n    sys.argv = ["vfbcu2qu", "-fo", "-m", limit, str(src)]\n    with contextlib.redirect_stdout(io.StringIO()):\n        vfbcu2qu()\n    q = Vfb(work / "x.qu.vfb", timing=False)\n    q.decompile()\n    n = 0\n    for e in q.entries:\n        if e.key == "Glyph":\n            n += sum(len(x["points"][0]) for x in e.data["nodes"])\n    sizes.append(n)\nassert sizes[0] > sizes[1], sizes\n'
