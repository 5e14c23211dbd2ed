#!/opt/venv/bin/python
"""
plant.py SPEC.py [--check P01,P02] [--keep]

Turns the description of a planted bug into /verif/seeded/<id>/ and tests it in a scratch
copy of /repo: it applies, the repository's tests pass, the demonstration passes without
and fails with it. Then runs the check of its property against the scratch copy.

SPEC.py defines: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (Python
source, run with cwd = the repository).
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# Run with cwd = the repository. Exit 0: the property holds in the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export TMPDIR="$work"
cd "$PWD" && /opt/venv/bin/python "$here/demo.py" "$work"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    spec = runpy.run_path(sys.argv[1])
    checks = [spec["PROPERTY"]]
    if "--check" in sys.argv:
        checks = sys.argv[sys.argv.index("--check") + 1].split(",")
    out = os.path.join(HERE, "seeded", spec["ID"])
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        for path, old, new in spec["EDITS"]:
            p = os.path.join(repo, path)
            s = open(p).read()
            if s.count(old) != 1:
                print(f"{path}: {s.count(old)} matches for {old!r:.80}")
                return 1
            open(p, "w").write(s.replace(old, new))
        patch = sh(f"git -C {repo} diff").stdout
        # Lines that the base commit has
        base = sh(f"git -C {repo} rev-list --max-parents=0 HEAD").stdout.split()[0]
        n = 0
        for path, old, new in spec["EDITS"]:
            orig = sh(f"git -C {repo} show {base}:{path}").stdout.splitlines()
            for line in sh(f"git -C {repo} diff -U0 -- {path}").stdout.splitlines():
                if line.startswith("-") and not line.startswith("---") and line[1:] in orig:
                    n += 1
        print("original lines changed:", n)
        env = dict(os.environ, PYTHONPATH=repo + "/src", PYTHONDONTWRITEBYTECODE="1",
                   PYTHONHASHSEED="0", PYTHONPYCACHEPREFIX=tmp + "/pyc")
        t = sh(f"{PY} -m pytest -q -x -p no:cacheprovider --timeout=300 --ignore=Tests/Data "
               "--ignore=Scripts 2>&1 | tail -4", cwd=repo, env=env)
        print(t.stdout.strip()[-600:])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        open(os.path.join(out, "demo.py"), "w").write(spec["DEMO"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"],
                   "what_it_breaks": spec["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        for name, cwd in (("unchanged", "/repo"), ("patched", repo)):
            d = sh(f"bash {out}/demo.sh", cwd=cwd, timeout=300)
            print(f"demo {name}: exit {d.returncode} {(d.stdout + d.stderr).strip()[-300:]}")
            if (d.returncode == 0) != (name == "unchanged"):
                print("BAD DEMO")
        for c in checks:
            k = sh(f"{PY} {HERE}/check.py {c} --no-evidence", cwd=HERE,
                   env=dict(os.environ, VFBSIM_SRC=repo + "/src", VERIF_SEED="1", VERIF_TIER="quick"))
            print(f"check {c}: exit {k.returncode} {k.stdout.strip()[-700:]} {k.stderr.strip()[-300:]}")
        return 0
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    sys.exit(main())
