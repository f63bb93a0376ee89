"""Writes properties.jsonl and MANIFEST.json from tools/spec.py."""
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import spec  # pylint: disable=wrong-import-position


def main():
  lines, checks = [], []
  for pid, p in sorted(spec.PROPS.items()):
    if not glob.glob(os.path.join(ROOT, "rv/props", pid.lower() + "_*.py")):
      print("no monitor for", pid)
      continue
    lines.append(json.dumps(dict(
        id=pid, title=p["title"], statement=p["statement"],
        quantifier=dict(over=p["over"], text=p["qtext"]),
        why_tests_cant=p["why"],
        anchors=dict(
            files=p["files"],
            mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
            hook_needed=None))))
    checks.append(dict(
        property=pid,
        quick_cmd=f"python3 check.py {pid}",
        thorough_cmd=f"VERIF_TIER=thorough python3 check.py {pid}",
        evidence_file=f"evidence/{pid}.json",
        technique=p["technique"],
        level="exploration",
        level_note=(
            "Real code run on generated workloads, every execution judged by an"
            f" oracle that does not share code with it: {p['note']}. Assurance"
            " is statistical, over the executions observed (counted in the"
            " evidence); compiled (JIT) code paths run as the same Python"
            " source, because the JIT compiler is not installed here.")))
  with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
  manifest = dict(
      version=1,
      setup_cmd="python3 check.py --selfcheck",
      checks=checks,
      not_applicable=spec.__dict__.get("NOT_APPLICABLE", []),
      notes=(
          "No hooks in /repo: monitors observe through public entry points and"
          " by wrapping functions in the checking process. Known/fixed defects:"
          " known/KNOWN_FINDINGS.txt."))
  with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
  print(len(checks), "checks")


main()
