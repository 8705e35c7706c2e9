#!/usr/bin/env python3
"""builds the symbolic engine (every check rebuilds it if needed)"""
import os, sys
import check
os.makedirs(check.BUILD, exist_ok=True)
try:
    check.build_engine()
except check.NoVerdict as e:
    print(e); sys.exit(1)
print('engine', check.ENGINE)
