#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/kv/meta.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
sys.dont_write_bytecode = True
from kv.meta import META
checks = [dict(property=k, quick_cmd='python3-vt harness/check.py %s' % k,
               thorough_cmd='VERIF_TIER=thorough python3-vt harness/check.py %s thorough' % k,
               technique=m['technique'], level=m['level'], level_note='; '.join(m['assumptions']))
          for k, m in sorted(META.items())]
json.dump(dict(version=1, setup_cmd='python3-vt harness/selftest.py', checks=checks, not_applicable=[]),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
