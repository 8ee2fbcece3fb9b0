import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
# the script directory itself must not be importable (module names like "main")
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.dirname(os.path.abspath(__file__))]
from mc import core  # noqa
sys.modules.setdefault('core', core)
os._exit(core.main(sys.argv))
