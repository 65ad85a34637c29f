"""The preambles of the demonstrations of seeds_core and seeds_sched, without planting those."""
import os, re
D = os.path.dirname(os.path.abspath(__file__))
def text(f): return re.search(r"^H ?= ?'''(.*?)'''", open(D + '/' + f).read(), re.S | re.M)[1].replace("\\\\", "\\")
CORE, SCHED = text('seeds_core.py'), text('seeds_sched.py')
