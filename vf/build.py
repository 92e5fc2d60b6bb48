"""Builds the library, the command-line tools, the Python extension and the drivers from /repo's working tree.

Nothing is written in /repo.  Outputs go to /verif/_build/<hash of all inputs>, so that a build is reused only for
byte-identical sources.
"""
import concurrent.futures, fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "_build")
DRIVERS = os.path.join(VERIF, "drivers")

CXX = "g++"
CXXFLAGS = ["-g", "-O1", "-fPIC", "-std=gnu++14", "-w", "-DWITH_GDAL", "-DHAVE_CONFIG_H"]
INCLUDES = ["-I" + os.path.join(DRIVERS, "include"), "-I/usr/include/hdf5/serial"]
LIBS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lproj"]
GDALLIB = ["-lgdal"]


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout


def _gdal_cflags():
    try:
        return subprocess.run(["gdal-config", "--cflags"], stdout=subprocess.PIPE, text=True).stdout.split()
    except OSError:
        return ["-I/usr/include/gdal"]


def _inputs(parts):
    files = []
    for root in parts:
        for d, dirs, names in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", ".git"))
            for n in sorted(names):
                if n.endswith((".cc", ".hh", ".h", ".c", ".py", "portinfo")) or n == "geomodelgrids_create_model":
                    files.append(os.path.join(d, n))
    return files


def source_hash():
    h = hashlib.sha256()
    for f in _inputs([os.path.join(REPO, x) for x in ("libsrc", "modulesrc", "bin", "geomodelgrids")] + [DRIVERS]):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as s:
            h.update(hashlib.sha256(s.read()).digest())
    with open(os.path.abspath(__file__), "rb") as s:
        h.update(s.read())
    return h.hexdigest()[:20]


class Paths:
    pass


def _paths(out):
    p = Paths()
    p.out = out
    p.lib = os.path.join(out, "lib")
    p.bin = os.path.join(out, "bin")
    p.drv = os.path.join(out, "drv")
    p.stage = os.path.join(out, "stage")
    return p


def _prune(keep):
    try:
        olds = sorted((d for d in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(d) and os.path.basename(d) != keep),
                      key=os.path.getmtime)
    except OSError:
        return
    for d in olds[:-2]:
        if len(os.path.basename(d)) == 20:
            shutil.rmtree(d, ignore_errors=True)


def build(want=("lib", "drv"), quiet=True):
    """want: any of lib, drv, bin, py."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    tag = source_hash()
    out = os.path.join(BUILD, tag)
    p = _paths(out)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        os.makedirs(out, exist_ok=True)
        todo = [w for w in dict.fromkeys(("lib",) + tuple(want)) if not os.path.exists(os.path.join(out, "done." + w))]
        if todo:
            _build(p, todo)
        _prune(tag)
    p.seconds = time.time() - t0
    return p


def _build(p, todo):
    inc = INCLUDES + ["-I" + os.path.join(REPO, "libsrc")] + _gdal_cflags()
    obj = os.path.join(p.out, "obj")
    for d in (obj, p.lib, p.bin, p.drv):
        os.makedirs(d, exist_ok=True)
    jobs = []          # (source, object, extra flags)
    libobjs, binsrc, drvsrc, pyobjs = [], [], [], []

    def cc(src, extra=()):
        o = os.path.join(obj, src.replace("/", "_") + ".o")
        jobs.append((src, o, list(extra)))
        return o

    if "lib" in todo:
        for d in ("apps", "serial", "utils"):
            for s in sorted(glob.glob(os.path.join(REPO, "libsrc/geomodelgrids", d, "*.cc"))):
                libobjs.append(cc(s))
    if "bin" in todo:
        binsrc = [(s, cc(s)) for s in sorted(glob.glob(os.path.join(REPO, "bin/*.cc")))]
    if "drv" in todo:
        drvsrc = [(s, cc(s)) for s in sorted(glob.glob(os.path.join(DRIVERS, "*.cc")))]
    if "py" in todo:
        pyflags = ["-I/usr/include/python3.12", "-I/usr/lib/python3/dist-packages/pybind11/include", "-O0"]
        for s in sorted(glob.glob(os.path.join(REPO, "modulesrc/*.cc"))):
            pyobjs.append(cc(s, pyflags))
    failed_drv = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        futs = {ex.submit(_run, [CXX] + CXXFLAGS + inc + extra + ["-c", s, "-o", o]): (s, o) for s, o, extra in jobs}
        for f in concurrent.futures.as_completed(futs):
            try:
                f.result()
            except BuildError as e:
                s, o = futs[f]
                if s.startswith(DRIVERS):
                    failed_drv[s] = str(e)     # only the checks that need this driver are affected
                else:
                    raise
    so = os.path.join(p.lib, "libgeomodelgrids.so")
    if libobjs:
        _run([CXX, "-shared", "-o", so] + libobjs + LIBS + GDALLIB)
    links = []
    rp = ["-L" + p.lib, "-lgeomodelgrids", "-Wl,-rpath," + p.lib]
    for s, o in binsrc:
        links.append([CXX, "-o", os.path.join(p.bin, "geomodelgrids_" + os.path.basename(s)[:-3]), o] + rp + LIBS)
    for s, o in drvsrc:
        if s not in failed_drv:
            links.append([CXX, "-o", os.path.join(p.drv, os.path.basename(s)[:-3]), o] + rp + LIBS)
    if pyobjs:
        shutil.rmtree(p.stage, ignore_errors=True)
        shutil.copytree(os.path.join(REPO, "geomodelgrids"), os.path.join(p.stage, "geomodelgrids"),
                        ignore=shutil.ignore_patterns("__pycache__", "*.so"))
        shutil.copy(os.path.join(REPO, "bin/geomodelgrids_create_model"), p.bin)
        links.append([CXX, "-shared", "-o", os.path.join(p.stage, "geomodelgrids/_geomodelgrids.so")] + pyobjs + rp + LIBS)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(_run, links))
    for s, msg in failed_drv.items():
        with open(os.path.join(p.drv, os.path.basename(s)[:-3] + ".failed"), "w") as f:
            f.write(msg)
    shutil.rmtree(obj, ignore_errors=True)
    for w in todo:
        open(os.path.join(p.out, "done." + w), "w").close()


def driver(p, name):
    f = os.path.join(p.drv, name)
    if not os.path.exists(f):
        msg = ""
        if os.path.exists(f + ".failed"):
            msg = open(f + ".failed").read()
        raise BuildError("driver %s did not build\n%s" % (name, msg))
    return f


if __name__ == "__main__":
    q = build(tuple(sys.argv[1:]) or ("lib", "drv", "bin", "py"))
    print(q.out, "%.1fs" % q.seconds)
