"""P32: the same inputs give the same results, whatever ran before and where."""
import json
import os
import subprocess
import sys

from rv import replica

ID = "P32"
RULE = (
    "batches of pipeline cases (parsing, DAGs and their figures, whole tasks"
    " with baselines and displays) logged three times: with long-lived objects,"
    " again in another order with new objects (also within a case: other"
    " settings, contexts and languages for the same texts), and in another"
    " process with another hash seed; the logs compared entry by entry;"
    " nontrivial: distinct inputs"
)
QUICK = dict(cases=1500, budget=90)
THOROUGH = dict(cases=30000, budget=800)
MIN_EVENTS = {"entries": 3000, "replayed": 150, "other_process": 150,
              "show_edits": 60, "figure": 40, "assignments": 100, "tree": 50,
              "processes": 4}
CHILD = {}


def child(idx, mon):
  """A process that lives for a number of batches."""
  if CHILD.get("left", 0) <= 0:
    stop()
    env = dict(os.environ, PYTHONHASHSEED=str(1 + idx % 4000), RV_CHILD="1")
    CHILD["proc"] = subprocess.Popen(
        [sys.executable, "-m", "rv.replica"], stdin=subprocess.PIPE,
        stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
    CHILD["left"] = 12
    mon.event("processes")
  CHILD["left"] -= 1
  return CHILD["proc"]


def stop():
  p = CHILD.pop("proc", None)
  if p is not None:
    p.stdin.close()
    p.wait(30)


def setup():
  CHILD.clear()
  CHILD["objects"] = replica.Objects()


def compare(mon, a, b, how):
  mon.eq([x[0] for x in a], [x[0] for x in b], "steps differ " + how)
  for (stage, d1, s1), (_, d2, s2) in zip(a, b):
    if d1 is not None and d2 is not None:
      mon.check(d1 == d2, f"{stage} differs {how}", one=s1, other=s2)
      mon.event("entries")
      mon.event(stage)


def run_case(rng, mon, idx):
  names = [f"{idx}/{rng.random()}/{q}" for q in range(5)]
  proc = child(idx, mon)
  other = names[::-1]
  try:
    proc.stdin.write(json.dumps([other, 2]) + "\n")
    proc.stdin.flush()
    first = {n: replica.case(n, CHILD["objects"]) for n in names}
    order = list(names)
    rng.shuffle(order)
    fresh = replica.Objects()
    for n in order:
      mon.note(case=n, input=first[n][0][2])
      compare(mon, first[n], replica.case(n, fresh, 1), "the second time")
      mon.event("replayed")
      mon.key(first[n][0][2])
    line = proc.stdout.readline()
    if not line:
      raise RuntimeError("the other process died")
  except BaseException:
    CHILD["left"] = 0
    CHILD["proc"].kill()
    raise
  for n, log in zip(other, json.loads(line)):
    mon.note(case=n, input=first[n][0][2])
    compare(mon, first[n], [tuple(x) for x in log], "in another process")
    mon.event("other_process")
