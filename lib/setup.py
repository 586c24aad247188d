#!/usr/bin/env python3
"""Checks that the installed tools the monitors need are there.  Every check
builds what it needs itself, from /repo's working tree."""
import shutil, sys
missing = [t for t in ("clang", "clang++", "pg_config") if not shutil.which(t)]
if missing:
    print("missing: " + ", ".join(missing)); sys.exit(1)
print("ok")
