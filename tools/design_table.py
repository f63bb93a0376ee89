"""Prints the per-property section of DESIGN.md from spec and monitors."""
import glob, importlib, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools"), os.path.join(ROOT, "stubs"), "/repo"]
import spec
for pid, p in sorted(spec.PROPS.items()):
  fs = glob.glob(os.path.join(ROOT, "rv/props", pid.lower() + "_*.py"))
  if not fs:
    continue
  m = importlib.import_module("rv.props." + os.path.basename(fs[0])[:-3])
  print(f"### {pid} {p['title']}\n{p['statement']}\n")
  print(f"* decided by: {p['technique']}; {p['note']}")
  print(f"* workload: {m.RULE}")
  print(f"* watched events (minimum, else inconclusive): "
        + ", ".join(f"{k}>={v}" for k, v in m.MIN_EVENTS.items()))
  print(f"* bounds: quick {m.QUICK['cases']} cases (<= {m.QUICK['budget']} s), "
        f"thorough {m.THOROUGH['cases']} cases (<= {m.THOROUGH['budget']} s)")
  print(f"* why tests cannot: {p['why']}")
  print(f"* anchors: {', '.join(p['files'])}\n")
