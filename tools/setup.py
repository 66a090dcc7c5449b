"""Builds every driver once (the checks rebuild whatever changed)."""
import glob, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
for f in sorted(glob.glob(os.path.join(build.VERIF, "drivers", "*.cpp"))):
    n = os.path.basename(f)[:-4]
    print(build.build(n, main="LHFmain/main.cpp" if n == "cli" else None))
