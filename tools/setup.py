#!/usr/bin/env python3
"""Sanity check of the installed tools; nothing has to be built in advance (every check rebuilds from /repo)."""
import shutil, sys
missing = [t for t in ("cbmc", "goto-cc", "gcc", "clang-18") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
import z3
print("tools present; z3", z3.get_version_string())
