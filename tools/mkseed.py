"""Plants a bug: confirms it in a scratch copy and stores it in seeded/<id>/.

A spec file is Python with ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old,
new)], DEMO (Python source), STUBS (bool: demo needs the stand-in modules).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
PYTHONPATH="$d/stubs:$PWD" exec /opt/venv/bin/python "$d/demo.py"
"""


def sh(cmd, cwd):
  return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def main(path):
  s = runpy.run_path(path)
  out = os.path.join(ROOT, "seeded", s["ID"])
  work = tempfile.mkdtemp(prefix="seed_")
  copy = work + "/repo"
  try:
    sh(f"git clone -q /repo {copy}", "/")
    for f, old, new in s["EDITS"]:
      p = f"{copy}/{f}"
      text = open(p).read()
      assert text.count(old) == 1, (f, text.count(old), old)
      open(p, "w").write(text.replace(old, new))
    diff = sh("git diff", copy).stdout
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(SH)
    open(out + "/demo.py", "w").write(s["DEMO"])
    json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"],
                   what_it_breaks=s["BREAKS"]),
              open(out + "/meta.json", "w"), indent=1)
    if s.get("STUBS"):
      shutil.copytree(ROOT + "/stubs", out + "/stubs",
                      ignore=shutil.ignore_patterns("__pycache__"))
    ok = True
    r = sh(f"bash {out}/demo.sh", "/repo")
    if r.returncode:
      ok = False
      print("demo fails on the unchanged tree\n", r.stdout[-800:], r.stderr[-1500:])
    r = sh(f"bash {out}/demo.sh", copy)
    if not r.returncode:
      ok = False
      print("demo passes with the patch")
    else:
      print("with patch:", (r.stderr or r.stdout).strip().splitlines()[-1][:200])
    r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -x"
           " --ignore=r_u_sure/decision_diagrams --ignore=r_u_sure/numba_helpers"
           " --ignore=r_u_sure/wrappers"
           " --ignore=r_u_sure/tree_structure/token_prob_align_test.py r_u_sure",
           copy)
    if r.returncode:
      ok = False
      print("tests fail\n", r.stdout[-1500:])
    if not ok:
      shutil.rmtree(out)
      print("REJECTED", s["ID"])
      return 1
    print("kept", s["ID"])
    return 0
  finally:
    shutil.rmtree(work)


if __name__ == "__main__":
  sys.exit(max(main(p) for p in sys.argv[1:]))
