"""Scratch directories: everything simulated processes may touch on the real file system lies below one of them."""
import atexit, os, shutil, tempfile

_base = None


def base():
    """Created once by the process that runs the check, inherited by every fork, removed at its exit."""
    global _base
    if _base is None:
        _base = tempfile.mkdtemp(prefix="verif_sim_", dir="/tmp")
        me, path = os.getpid(), _base
        atexit.register(lambda: os.getpid() == me and shutil.rmtree(path, ignore_errors=True))
    return _base


class scratch:
    def __enter__(self):
        self.path = os.path.realpath(tempfile.mkdtemp(prefix="c", dir=base()))
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
