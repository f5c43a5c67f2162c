import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(1, os.environ.get("VP_REPO", "/repo"))
sys.dont_write_bytecode = True
from vp import core
core.prepare()
rc = core.main(sys.argv[1:])
sys.stdout.flush()
os._exit(rc)
