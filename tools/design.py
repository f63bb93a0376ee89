"""Writes DESIGN.md: head, table of properties, findings, seeds."""
import glob, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(ROOT, "tools")
MISSED = {"b25", "b30", "b31", "b41", "b42"}
ALSO = json.load(open(os.path.join(T, "also.json")))
head = open(os.path.join(T, "design_head.md")).read()
tail = open(os.path.join(T, "design_tail.md")).read()
table = subprocess.run([sys.executable, os.path.join(T, "design_table.py")],
                       capture_output=True, text=True, check=True).stdout
finds = []
for l in open(os.path.join(ROOT, "known/KNOWN_FINDINGS.txt")):
  if l.startswith("fixed: property="):
    pid, commit, what = l[len("fixed: property="):].strip().split(" ", 2)
    finds.append(f"* {pid} ({commit}): {what}")
seeds = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
  d = json.load(open(f))
  b = os.path.basename(os.path.dirname(f))
  by = ", ".join([d["property"]] + ALSO.get(b[:3], []))
  if b[:3] in ALSO.get("_missed", []) or b[:3] in MISSED:
    by += " (first missed)"
  seeds.append(f"| {b} | {d['property']} | {d['needs']} | {d['what_it_breaks']} | {by} |")
tail = tail.replace("FINDINGS", "\n".join(finds)).replace("SEEDS", "\n".join(seeds))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(head + table + tail)
