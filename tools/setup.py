#!/usr/bin/env python3-vt
"""Nothing is compiled ahead of time: checks that the tools the framework calls are present."""
import shutil, sys
import z3
missing = [t for t in ('clang', 'g++', 'cvc5') if not shutil.which(t)]
if missing:
    sys.exit('missing: %s' % missing)
print('z3', z3.get_version_string(), 'ok')
