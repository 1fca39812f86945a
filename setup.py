#!/usr/bin/env python3
"""nothing has to be built ahead of the checks; verifies that the tools are there"""
import shutil, sys
missing = [t for t in ('clang++', 'g++', 'opt', 'llvm-cxxfilt', 'python3-vt', 'z3', 'cvc5') if not shutil.which(t)]
print('tools missing: %s' % missing if missing else 'tools present')
sys.exit(1 if missing else 0)
