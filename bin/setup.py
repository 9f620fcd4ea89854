#!/usr/bin/env python3
"""Nothing to build: check that the tools are there."""
import shutil, subprocess, sys
for t in ("cbmc", "goto-cc", "gcc"):
    if shutil.which(t) is None:
        sys.exit("missing " + t)
print(subprocess.run(["cbmc", "--version"], capture_output=True, text=True).stdout.strip())
