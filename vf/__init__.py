"""Model files are written here without file locks: a child process started meanwhile by another thread would hold the lock of a
file just written until its exec(), and the code under test could not open it.  The code under test keeps its locks."""
import os

_old = os.environ.get("HDF5_USE_FILE_LOCKING")
os.environ["HDF5_USE_FILE_LOCKING"] = "FALSE"
import h5py
h5py.File("warm-up", "w", driver="core", backing_store=False).close()      # reads the environment now
if _old is None:
    del os.environ["HDF5_USE_FILE_LOCKING"]
else:
    os.environ["HDF5_USE_FILE_LOCKING"] = _old
