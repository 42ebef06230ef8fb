#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered parts."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import parts
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p in sorted(parts.PROPS):
    tech, note = parts.NOTES.get(p, parts.NOTES["default"])
    checks.append({"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p,
                   "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                   "technique": tech, "level": parts.PROPS[p][0], "level_note": note})
na = [{"property": p, "reason": r} for p, r in sorted(parts.NOT_APPLICABLE.items())]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC and bound to the code by trace validation and behaviour replay; see DESIGN.md."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
