#!/usr/bin/env python3
"""Nothing is built: checks that the analysis can read the source tree."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.core.frontend import Program  # noqa: E402

p = Program()
mods = p.all_modules()
print('read %d modules of %s' % (len(mods), p.repo))
sys.exit(0 if mods else 1)
