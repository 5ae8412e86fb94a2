"""Entry point of every check: run.py <property>."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import vlib  # noqa: E402

sys.exit(vlib.main(sys.argv[1]))
