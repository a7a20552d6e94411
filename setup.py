#!/usr/bin/env python3
"""Builds every check program once so that later runs only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, checks
res = vbuild.build([p for c in checks.C for p in checks.programs(c)])
bad = {k: v for k, v in res.items() if isinstance(v, vbuild.BuildError)}
for k, v in bad.items():
    print("not built: %s\n%s" % (k, str(v)[-1500:]))
print("built %d of %d check programs" % (len(res) - len(bad), len(res)))
# A check whose program cannot be built reports that itself.
sys.exit(0)
