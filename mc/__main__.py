import os
import sys

from mc import core

if sys.argv[1] == "replay":
    code = core.replay(os.path.abspath(sys.argv[2]))
else:
    code = core.main(sys.argv[1:])
sys.stdout.flush()
sys.exit(code)
