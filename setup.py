#!/usr/bin/env python3
"""Build the facts driver and the dependencies of the analysed units, so that the checks start warm (they rebuild whatever is missing)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
import core
core.driver()
for u in core.UNITS:
    if not os.path.isdir(os.path.join(core.VERIF, core.UNITS[u][0])): continue
    try: core.build_facts(u, lambda p: p)
    except core.BuildError as e: print(f"unit {u} does not type-check yet:\n{str(e)[-1500:]}")
print("ready")
