"""Runner shared by all monitors.

A property module (rv/props/<name>.py) provides
  ID, RULE, ASSUMPTIONS
  QUICK / THOROUGH : dict(cases=<n>, budget=<seconds>)
  MIN_EVENTS       : {event kind: minimum total count} (else: inconclusive)
  run_case(rng, mon, idx) : drive the real code once and judge what it did
  setup()          : optional, once per worker process

Verdicts are three-valued: held (exit 0), violated (exit 1 and a VIOLATION
line), inconclusive (exit 2: a monitor observed too little, or the code under
test could not be imported).
"""

import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
import warnings
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
CASE_CPU_LIMIT_S = 90
HARD_S = 600


class Violation(Exception):
  """The monitored property does not hold on the observed execution."""


class CaseCpuLimit(BaseException):
  """A single case used absurdly much CPU time."""


class Stop(BaseException):
  """Wall-clock budget of the run is used up (not a verdict)."""


def short(x, limit=1500):
  s = x if isinstance(x, str) else repr(x)
  return s if len(s) <= limit else s[:limit] + f"...<{len(s)} chars>"


class Monitor:
  """Records what was observed, and turns failed conditions into violations."""

  def __init__(self):
    self.events = collections.Counter()
    self.keys = set()
    self.samples = []
    self.context = {}

  def event(self, kind, n=1):
    self.events[kind] += n

  def key(self, *parts):
    """Registers a distinct nontrivial observation."""
    self.keys.add(
        hashlib.blake2b(repr(parts).encode("utf8", "replace"),
                        digest_size=8).digest()
    )

  def sample(self, obj):
    if len(self.samples) < 3:
      self.samples.append(short(obj, 600))

  def note(self, **kw):
    """Attaches witness data to the current case (for the replay file)."""
    self.context.update(kw)

  def check(self, cond, message, **kw):
    if not cond:
      self.note(**kw)
      raise Violation(message)

  def eq(self, actual, expected, message, **kw):
    if not actual == expected:
      self.note(actual=actual, expected=expected, **kw)
      raise Violation(message)

  def close(self, actual, expected, message, tol=1e-6, **kw):
    if not close(actual, expected, tol):
      self.note(actual=actual, expected=expected, **kw)
      raise Violation(message)

  def raises(self, exc_types, fn, message, **kw):
    try:
      out = fn()
    except exc_types as e:
      return e
    self.note(returned=short(out), **kw)
    raise Violation(message)


def close(a, b, tol=1e-6):
  a = float(a)
  b = float(b)
  if a == b:
    return True
  if a != a or b != b or abs(a) == float("inf") or abs(b) == float("inf"):
    return False
  return abs(a - b) <= tol * (1.0 + max(abs(a), abs(b)))


def _on_cpu_limit(signum, frame):
  raise CaseCpuLimit()


def _on_alarm(signum, frame):
  raise Stop()


def case_rng(seed, prop, idx):
  return random.Random(f"{seed}/{prop}/{idx}")


def run_one(mod, seed, idx, mon):
  """Runs one case. Returns None or a failure record."""
  rng = case_rng(seed, mod.ID, idx)
  mon.context = {}
  signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT_S)
  try:
    mod.run_case(rng, mon, idx)
    if mon.context and len(mon.samples) < 2:
      mon.sample({"case": idx, **{k: short(v, 200)
                                  for k, v in mon.context.items()}})
    return None
  except Stop:
    raise
  except CaseCpuLimit:
    kind, msg = "cpu-limit", (
        f"case did not finish within {CASE_CPU_LIMIT_S} CPU seconds"
    )
    tb = traceback.format_exc()
  except Violation as e:
    kind, msg = "violation", str(e)
    tb = traceback.format_exc()
  except Exception as e:  # pylint: disable=broad-except
    kind, msg = "exception", f"{type(e).__name__}: {e}"
    tb = traceback.format_exc()
  finally:
    signal.setitimer(signal.ITIMER_PROF, 0)
  return dict(
      property=mod.ID,
      seed=seed,
      idx=idx,
      kind=kind,
      message=short(msg, 3000),
      witness={k: short(v) for k, v in mon.context.items()},
      traceback=tb[-6000:],
  )


def _worker(mod_name, seed, worker, nworkers, cases, deadline, conn, stopflag):
  try:
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    signal.signal(signal.SIGALRM, _on_alarm)
    warnings.simplefilter("ignore")
    mod = importlib.import_module(mod_name)
    if hasattr(mod, "setup"):
      mod.setup()
    mon = Monitor()
    failure = None
    done = 0
    # On a slow machine, go on (up to a hard limit) until this worker's share of
    # the events the verdict needs has been seen.
    hard = max(deadline, time.time() + HARD_S)
    share = {k: -(-n // nworkers)
             for k, n in getattr(mod, "MIN_EVENTS", {}).items()}
    # Leave cases that straddle the deadline unjudged rather than half-judged.
    signal.setitimer(signal.ITIMER_REAL, max(0.1, hard + 60 - time.time()))
    try:
      for idx in range(cases):
        # Dealt by hash, so that special cases at regular indices are shared out.
        if zlib.crc32(b"%d" % idx) % nworkers != worker:
          continue
        if stopflag.value:
          break
        now = time.time()
        if now > deadline and (now > hard or all(
            mon.events[k] >= n for k, n in share.items())):
          break
        failure = run_one(mod, seed, idx, mon)
        done += 1
        if failure is not None:
          stopflag.value = 1
          break
    except Stop:
      pass
    signal.setitimer(signal.ITIMER_REAL, 0)
    conn.send((done, dict(mon.events), mon.keys, mon.samples, failure))
  except BaseException:  # pylint: disable=broad-except
    conn.send(("crash", traceback.format_exc()))
  finally:
    conn.close()
  os._exit(0)


def write_json(path, obj):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  tmp = path + ".tmp"
  with open(tmp, "w") as f:
    json.dump(obj, f, indent=1, default=str)
    f.write("\n")
  os.replace(tmp, path)


def known_findings(prop):
  """Entries `finding: property=<id> key=<mechanism> <text>` for this id."""
  path = os.path.join(ROOT, "known", "KNOWN_FINDINGS.txt")
  out = []
  if os.path.exists(path):
    with open(path) as f:
      for line in f:
        line = line.strip()
        if line.startswith(f"finding: property={prop} "):
          out.append(line)
  return out


def main(mod_name, argv):
  t0 = time.time()
  tier = os.environ.get("VERIF_TIER", "quick")
  if tier not in ("quick", "thorough"):
    tier = "quick"
  seed = int(os.environ.get("VERIF_SEED", "1"))
  try:
    mod = importlib.import_module(mod_name)
  except Exception:  # pylint: disable=broad-except
    traceback.print_exc()
    print("INCONCLUSIVE: the code under test could not be imported")
    return 2

  if "--replay" in argv:
    with open(argv[argv.index("--replay") + 1]) as f:
      rec = json.load(f)
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    if hasattr(mod, "setup"):
      mod.setup()
    fail = run_one(mod, rec["seed"], rec["idx"], Monitor())
    print(json.dumps(fail, indent=1, default=str))
    return 1 if fail else 0

  cfg = mod.QUICK if tier == "quick" else mod.THOROUGH
  cases = cfg["cases"]
  scale = float(os.environ.get("VERIF_SCALE", "1"))
  cases = max(1, int(cases * scale))
  deadline = t0 + cfg["budget"]
  nworkers = min(
      int(os.environ.get("VERIF_WORKERS", "8")), cfg.get("workers", 8), cases
  )
  ctx = multiprocessing.get_context("fork")
  stopflag = ctx.Value("i", 0, lock=False)
  procs = []
  for w in range(nworkers):
    parent, child = ctx.Pipe(duplex=False)
    p = ctx.Process(
        target=_worker,
        args=(mod_name, seed, w, nworkers, cases, deadline, child, stopflag),
    )
    p.start()
    child.close()
    procs.append((p, parent))

  events = collections.Counter()
  keys = set()
  samples = []
  failures = []
  crashes = []
  evaluations = 0
  for p, conn in procs:
    try:
      msg = conn.recv()
    except EOFError:
      msg = ("crash", "worker died")
    if msg[0] == "crash":
      crashes.append(msg[1])
    else:
      done, ev, ks, sm, fail = msg
      evaluations += done
      events.update(ev)
      keys |= ks
      samples += sm
      if fail:
        failures.append(fail)
    p.join(30)
    if p.is_alive():
      p.kill()

  missing = {
      k: (events.get(k, 0), n)
      for k, n in getattr(mod, "MIN_EVENTS", {}).items()
      if events.get(k, 0) < n * min(1.0, scale)
  }
  evidence = dict(
      property=mod.ID,
      tier=tier,
      seed=seed,
      level="exploration",
      coverage=dict(
          evaluations=evaluations,
          distinct_nontrivial=len(keys),
          rule=mod.RULE,
          samples=samples[:6] or ["(no sample recorded)"],
          planned_cases=cases,
          events=dict(sorted(events.items())),
          workers=nworkers,
          exhaustive=False,
      ),
      wall_s=round(time.time() - t0, 2),
      violations=len(failures),
      assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
  )
  write_json(os.path.join(EVIDENCE, mod.ID + ".json"), evidence)

  for line in known_findings(mod.ID):
    print("KNOWN-FINDING: " + line[len("finding: "):])

  if failures:
    failures.sort(key=lambda r: r["idx"])
    replay = os.path.join(EVIDENCE, f"replay-{mod.ID}.json")
    write_json(replay, failures[0])
    print(f"{mod.ID}: {failures[0]['kind']}: {failures[0]['message']}")
    for k, v in failures[0]["witness"].items():
      print(f"  {k}: {v}")
    if failures[0]["kind"] != "violation":
      print(failures[0]["traceback"])
    print(f"VIOLATION property={mod.ID} replay={replay}")
    return 1
  if crashes:
    print(crashes[0])
    print("INCONCLUSIVE: a worker crashed")
    return 2
  if missing:
    print(f"INCONCLUSIVE: too few events observed (seen, needed): {missing}")
    return 2
  print(
      f"{mod.ID}: held on {evaluations} executions"
      f" ({len(keys)} distinct nontrivial), events: {dict(sorted(events.items()))}"
      f" [{time.time()-t0:.1f}s]"
  )
  return 0
