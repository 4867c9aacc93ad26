#!/usr/bin/env python3
"""setup: nothing to build; checks that the tools the checks need are there"""
import shutil,sys
need=['goto-cc','goto-instrument','cbmc','gcc']
miss=[t for t in need if not shutil.which(t)]
print('missing: %s'%miss if miss else 'ok'); sys.exit(1 if miss else 0)
