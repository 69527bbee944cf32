#!/usr/bin/env python3
"""Build the fact extractor and warm the dependency metadata (the checks do it themselves when this did not run)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
for cf in ("full", "none"):
    try:
        os.unlink(build.facts(cf))
    except build.BuildError as e:
        print("setup: %s" % e)
        sys.exit(1)
build.artifacts("full")
print("setup done")
