#!/usr/bin/env python3-vt
"""setup: confirms that the installed tools the checks rely on are there."""
import shutil, sys
import z3, sympy
missing = [t for t in ("node", "nasm", "g++", "clang", "objdump", "llvm-objdump-18") if not (shutil.which(t) or shutil.which(t.replace("-18", "")))]
if missing: print("missing tools:", missing); sys.exit(1)
print("ok")
