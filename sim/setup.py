#!/usr/bin/env python3
"""Checks that what the checks need is installed. Every check builds its own binary from /repo's working tree."""
import shutil, subprocess, sys
for t in ('g++','addr2line','pkg-config'):
    if not shutil.which(t): sys.exit(f'missing tool {t}')
r=subprocess.run(['g++','-std=c++20','-fsanitize=thread','-x','c++','-fsyntax-only','-'],input='#include <gmp.h>\n#include <mpfr.h>\n#include <cairo/cairo.h>\nint main(){}\n',text=True,capture_output=True)
sys.exit(r.stderr if r.returncode else 0)
