#!/usr/bin/env python3
"""Nothing is built: this only checks that the tools the checks need are there and the specs parse."""
import glob, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
jars = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
specs = sorted(os.path.basename(f) for f in glob.glob(os.path.join(here, "spec", "*.tla")))
p = subprocess.run(["java", "-cp", jars, "tla2sany.SANY"] + specs, cwd=os.path.join(here, "spec"),
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode or "*** Errors" in p.stdout:
    print(p.stdout[-3000:])
    sys.exit(1)
print("parsed %d specifications" % len(specs))
