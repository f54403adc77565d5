"""setup_cmd: nothing has to be built; make sure that the interpreter, pycid and hypothesis work together."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
code = (
    "import sys; sys.path.insert(0, %r)\n"
    "from vf import boot; boot.setup()\n"
    "import hypothesis, pycid\n"
    "print('pycid from', pycid.__file__, '- hypothesis', hypothesis.__version__)\n" % ROOT
)
sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", code], env=dict(os.environ, MPLBACKEND="Agg",
                                                                        PYTHONDONTWRITEBYTECODE="1")))
