#!/usr/bin/env python3
"""check.py ID: decides one property from the current source of /repo.
check.py setup: builds the normaliser."""
import sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
if sys.argv[1] == "setup":
    from vlib.front import tool
    tool()
    sys.exit(0)
from vlib.driver import main
sys.exit(main(sys.argv[1]))
