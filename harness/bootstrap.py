"""
Make the code under test (/repo's working tree) and Hypothesis importable.
"""
import importlib.machinery
import os
import sys
import types
import warnings

# VERIF_REPO exists for trying the checks on scratch copies; the registered
# commands never set it.
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class FromSource(importlib.machinery.SourceFileLoader):
    """
    Always compile the source in the working tree: a stale .pyc next to it
    (same size, same second) would hide a change.
    """
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


def repoHook(path):
    if path != REPO and not path.startswith(REPO + os.sep):
        raise ImportError(path)
    return importlib.machinery.FileFinder(path, (FromSource, [".py"]))


def setup():
    sys.path_hooks.insert(0, repoHook)
    warnings.simplefilter("ignore")
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)          # hypothesis; never shadows the venv
    sys.path.insert(0, REPO)
    # Generated by the build and not in git, so it may be missing here.
    if not os.path.exists(os.path.join(REPO, "epsilon", "_version.py")):
        stub = types.ModuleType("epsilon._version")
        stub.__version__ = stub.version = "0.8.0"
        sys.modules["epsilon._version"] = stub
    # The checks observe what is logged; nothing else needs to see it.
    from twisted.logger import globalLogBeginner
    globalLogBeginner.beginLoggingTo([lambda event: None],
                                     discardBuffer=True,
                                     redirectStandardIO=False)
