#!/opt/venv/bin/python
"""setup_cmd: nothing to build; confirms the solvers load and the engine's soundness self-test passes."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cyvc import selftest
ok = selftest.run()
print("engine self-test:", ok)
sys.exit(0 if ok else 1)
