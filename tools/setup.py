#!/usr/bin/env python3
"""Nothing to install: confirm that the tools the checks use are present."""
import os, shutil, sys
bad = [t for t in ("g++", "java") if not shutil.which(t)]
bad += [p for p in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar", "/usr/include/eigen3") if not os.path.exists(p)]
if bad:
    print("missing:", bad)
    sys.exit(1)
print("tools present")
