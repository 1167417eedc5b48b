#!/usr/bin/env python3
"""Nothing to build: checks compile /repo themselves.  Verifies the tools are there."""
import shutil, sys
missing = [t for t in ("cbmc", "goto-cc", "goto-instrument", "gcc", "ar") if not shutil.which(t)]
print("missing: " + " ".join(missing) if missing else "ok")
sys.exit(1 if missing else 0)
