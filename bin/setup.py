#!/usr/bin/env python3
"""Pre-builds what every check shares. Not required: each check builds what it needs."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checks
checks.core_libs()
checks.monitor()
print("setup done")
