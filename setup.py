#!/usr/bin/env python3
"""Checks that the tools the checks use are present; nothing is installed."""
import shutil, sys
miss = [t for t in ("goto-cc", "goto-instrument", "cbmc", "z3", "z3-new", "cvc5", "gcc") if not shutil.which(t)]
if miss: print("missing: " + ", ".join(miss)); sys.exit(1)
print("ok")
