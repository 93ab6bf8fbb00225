#!/usr/bin/env python3
"""setup_cmd: nothing to build; checks that the tools the analyses need are present and the sources parse."""
import compileall, shutil, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ("clang++", "g++", "llvm-bcanalyzer-18") if not (shutil.which(t))]
missing = [t for t in missing if t != "llvm-bcanalyzer-18"]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
for d in ("sa", "checks"):
    if not compileall.compile_dir(os.path.join(V, d), quiet=1):
        sys.exit("syntax error under " + d)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
print("ready")
