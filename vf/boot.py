"""Import machinery: pycid from /repo's working tree, hypothesis from the tooling venv.

The checks run under /opt/venv/bin/python (which has pycid's dependencies, but no hypothesis).  Only the two
pure-python packages named below are taken from the tooling venv (or from the offline wheelhouse), so that they can
never shadow one of pycid's own dependencies.
"""
import glob
import importlib.machinery
import os
import sys
import tempfile
import warnings
import zipfile

ALLOWED = ("hypothesis", "_hypothesis_globals", "_hypothesis_pytestplugin", "_hypothesis_ftz_detector", "sortedcontainers")
TOOL_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"
REPO = os.environ.get("VERIF_REPO", "/repo")


class _ToolFinder:
    def __init__(self, path):
        self.path = [path]

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in ALLOWED:
            return None
        return importlib.machinery.PathFinder.find_spec(name, self.path if "." not in name else path, target)


def _tool_dir():
    if os.path.isdir(os.path.join(TOOL_SITE, "hypothesis")):
        return TOOL_SITE
    target = os.path.join(tempfile.gettempdir(), "verif_hypothesis_%d" % os.getuid())
    if not os.path.isdir(os.path.join(target, "hypothesis")):
        tmp = tempfile.mkdtemp()
        for pattern in ("hypothesis-*cp312*.whl", "sortedcontainers-*.whl"):
            with zipfile.ZipFile(sorted(glob.glob(os.path.join(WHEELS, pattern)))[-1]) as wheel:
                wheel.extractall(tmp)
        try:
            os.rename(tmp, target)
        except OSError:
            pass
    return target


def setup():
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.meta_path.append(_ToolFinder(_tool_dir()))
    import pycid

    assert os.path.realpath(pycid.__file__).startswith(os.path.realpath(REPO) + os.sep), pycid.__file__
    return pycid
