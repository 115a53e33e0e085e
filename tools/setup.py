#!/usr/bin/env python3
"""Nothing is prebuilt (checks build from /repo's current tree); only verifies that the toolchain is there."""
import shutil, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ok")
