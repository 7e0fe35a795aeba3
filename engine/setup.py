#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are present and builds the sanitized library once."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vtbuild
missing = [t for t in ("gcc", "g++", "ar", "python3-vt", "octave-cli", "mkoctfile") if not shutil.which(t)]
if missing: print("missing tools:", missing); sys.exit(1)
try:
    vtbuild.build_lib("asan")
except vtbuild.BuildError as e: print(e); sys.exit(1)
print("setup ok")
