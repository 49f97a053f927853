#!/usr/bin/env python3
"""setup_cmd: nothing is fetched; verifies the tools the checks use."""
import shutil, sys
miss = [t for t in ("clang", "clang++", "valgrind", "python3") if not shutil.which(t)]
if miss:
    print("missing tools: %s" % miss)
    sys.exit(1)
print("ok")
