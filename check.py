#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import driver
sys.modules["driver"] = driver
driver.main(sys.argv[1], os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick"))
