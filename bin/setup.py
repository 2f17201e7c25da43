#!/usr/bin/env python3
"""nothing to build: verify that the tools the checks need are there"""
import shutil, sys
miss = [t for t in ('goto-cc', 'goto-instrument', 'cbmc', 'z3-new', 'cvc5', 'gcc', 'ar') if not shutil.which(t)]
print('missing: ' + ' '.join(miss) if miss else 'tools present')
sys.exit(1 if miss else 0)
