"""Writes MANIFEST.json from the check modules and the list of properties."""

import importlib
import json
import os

from mc.core import ROOT


def main():
    checks, missing = [], []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        identifier = json.loads(line)["id"]
        path = os.path.join(ROOT, "mc", "checks", identifier.lower() + ".py")
        if not os.path.exists(path):
            missing.append({"property": identifier, "reason": "no check built yet"})
            continue
        check = importlib.import_module(f"mc.checks.{identifier.lower()}")
        command = f"/opt/venv/bin/python -B -m mc {identifier}"
        bounds = " ".join(check.__doc__.split())
        checks.append(
            {
                "property": identifier,
                "quick_cmd": command,
                "thorough_cmd": command + " thorough",
                "evidence_file": f"evidence/{identifier}.json",
                "technique": check.TECHNIQUE,
                "level": check.LEVEL,
                "level_note": bounds + " Assumes: " + "; ".join(check.ASSUMPTIONS) + ".",
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B -m mc --self-test",
        "checks": checks,
        "not_applicable": missing,
        "notes": "No hooks in /repo are needed: all checks drive the public interface. Every "
        "violation comes with a replay file: /opt/venv/bin/python -B -m mc --replay FILE.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as file:
        json.dump(manifest, file, indent=1)
        file.write("\n")


if __name__ == "__main__":
    main()
