"""Builds lacsap and the runtimes from /repo once (each check rebuilds what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
b = core.build()
print("built", b.dir, "%.1fs" % b.build_s)
