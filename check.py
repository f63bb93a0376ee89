#!/usr/bin/env python3
"""Entry point: check.py <property id> [--replay file]."""
import glob
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main():
  want = sys.argv[1]
  env = dict(os.environ)
  if env.get("RV_CHILD") != "1":
    env.update(
        RV_CHILD="1",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPATH=":".join([HERE, os.path.join(HERE, "stubs"), "/repo"]),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
    )
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)
  if want == "--selfcheck":
    import numba, numpy, r_u_sure  # pylint: disable=g-import-not-at-top

    print("numpy", numpy.__version__, "stub", numba.__file__, "code",
          r_u_sure.__path__ if r_u_sure.__file__ is None else r_u_sure.__file__)
    return 0
  files = glob.glob(os.path.join(HERE, "rv", "props", want.lower() + "_*.py"))
  if len(files) != 1:
    print(f"unknown property {want}")
    return 2
  os.chdir(HERE)
  sys.setrecursionlimit(20000)
  from rv import common  # pylint: disable=g-import-not-at-top

  name = os.path.basename(files[0])[:-3]
  return common.main("rv.props." + name, sys.argv[2:])


if __name__ == "__main__":
  rc = main()
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(rc)
