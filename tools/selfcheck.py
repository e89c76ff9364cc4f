#!/usr/bin/env python3
"""setup_cmd: make sure the tools the checks rely on are there (everything is built by the checks themselves)."""
import shutil, sys, os
miss = [t for t in ('g++', 'clang++', 'ld', 'objcopy', 'as') if not shutil.which(t)]
if miss: print('missing tools:', miss); sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build'), exist_ok=True)
print('ok')
