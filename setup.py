#!/usr/bin/env python3
"""Build every harness once (the checks rebuild what changed)."""
import json
import os
import sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import mk
conf = json.load(open(os.path.join(VERIF, "tools", "checks.json")))
sys.exit(mk.build(sorted(set(t for c in conf.values() for r in c["runs"] for t in r.get("targets", [])))))
