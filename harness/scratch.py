"""
Scratch directories, which the checks create and remove.
"""
import contextlib
import io
import os
import shutil
import sys
import tempfile


@contextlib.contextmanager
def directory(chdir=True):
    """
    Run the body in a new, empty directory.
    """
    old = os.getcwd()
    path = os.path.realpath(tempfile.mkdtemp(prefix="verif-scratch-"))
    try:
        if chdir:
            os.chdir(path)
        yield path
    finally:
        os.chdir(old)
        shutil.rmtree(path, ignore_errors=True)


class Encoded(io.TextIOWrapper):
    def __init__(self, encoding):
        io.TextIOWrapper.__init__(self, io.BytesIO(), encoding)

    def getvalue(self):
        self.flush()
        return self.buffer.getvalue().decode(self.encoding)


@contextlib.contextmanager
def quiet(encoding=None):
    """
    Capture what's printed. With an encoding, it's restricted to what can be
    encoded, as on a terminal.
    """
    old = sys.stdout, sys.stderr
    if encoding is None:
        out = sys.stdout = io.StringIO()
    else:
        out = sys.stdout = Encoded(encoding)
    sys.stderr = io.StringIO()
    try:
        yield out
    finally:
        sys.stdout, sys.stderr = old
