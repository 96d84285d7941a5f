"""Builds NESO-Particles from /repo's working tree against the vsycl stand-in,
and the drivers of /verif/harness/drivers against that library.

Objects go to /verif/_build/<content hash> (git ignored). The hash covers every
file that is compiled, so a stale object cannot be used."""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NV_REPO", "/repo")
PETSC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real"
OMPI = "/usr/lib/x86_64-linux-gnu/openmpi/include"
CXX = "clang++-18"
OPT = os.environ.get("NV_OPT", "-O0")
FLAGS = [
    "-std=c++17", "-w", OPT, "-g0", "-fno-math-errno",
    "-ffp-contract=off", "-DNESO_PARTICLES_DEVICE_TYPE_CPU",
    "-DNESO_PARTICLES_VERSION_MAJOR=0", "-DNESO_PARTICLES_VERSION_MINOR=10",
    "-DNESO_PARTICLES_VERSION_PATCH=0", "-DRESTRICT=__restrict",
    "-DNESO_PARTICLES_HDF5",
    "-DNESO_PARTICLES_TEST_COMPILATION",
    "-I" + os.path.join(VERIF, "harness/vsycl"),
    "-I" + os.path.join(VERIF, "harness"),
    "-I" + os.path.join(REPO, "include"),
    "-isystem", OMPI, "-isystem", OMPI + "/openmpi",
    "-isystem", "/usr/include/hdf5/openmpi",
]
PETSC_FLAGS = ["-DNESO_PARTICLES_PETSC", "-isystem", PETSC + "/include"]
PETSC_LINK = ["-L" + PETSC + "/lib", "-lpetsc_real"]
LINK = [
    "-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi", "-lhdf5",
    "-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi", "-lmpi_cxx",
    "-lpthread",
]
JOBS = int(os.environ.get("NV_JOBS", os.cpu_count() or 8))
NCHUNK = 32
# measured compile seconds of the slow sources; only used to balance the chunks
WEIGHT = {
    "cartesian_trajectory_intersection.cpp": 13.2,
    "boundary_interaction_2d.cpp": 7.1,
    "dmplex_project_evaluate_barycentric.cpp": 5.1, "particle_group.cpp": 4.9,
    "cell_dat_compression.cpp": 4.6, "dmplex_project_evaluate_dg.cpp": 4.4,
    "quadrature_point_mapper.cpp": 4.1, "particle_group_partition.cpp": 3.8,
    "particle_io.cpp": 3.4, "collision_cell_partition.cpp": 3.2,
    "sub_group_selector_exclusive_scan.cpp": 2.7, "cell_dat_move.cpp": 2.7,
    "boundary_reflection.cpp": 2.3, "boundary_mesh_interface.cpp": 2.3,
    "unseen_value_extractor.cpp": 2.3,
}


def weight(f):
    return WEIGHT.get(os.path.basename(f),
                      0.5 + os.path.getsize(f) / 15000.0)




def walk(d):
    out = []
    for p, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            out.append(os.path.join(p, f))
    return out


def hash_files(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def run(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode != 0:
        with open(log, "w") as fh:
            fh.write(" ".join(cmd) + "\n" + r.stdout)
        raise BuildError("compile failed: %s\n%s" % (log, r.stdout[-3000:]))


def sources():
    return [f for f in walk(os.path.join(REPO, "src")) if f.endswith(".cpp")]


def build(drivers, petsc=False):
    """Builds one at a time: checks may run side by side."""
    base = os.path.join(VERIF, "_build")
    os.makedirs(base, exist_ok=True)
    with open(os.path.join(base, "lock"), "w") as fh:
        fcntl.flock(fh, fcntl.LOCK_EX)
        return build_locked(drivers, petsc)


def build_locked(drivers, petsc):
    """Returns {driver: executable}. Rebuilds what changed."""
    FLAGS = globals()["FLAGS"] + (PETSC_FLAGS if petsc else [])
    LINK = (PETSC_LINK if petsc else []) + globals()["LINK"]
    t0 = time.time()
    hdrs = walk(os.path.join(REPO, "include"))
    srcs = sources()
    vs = walk(os.path.join(VERIF, "harness/vsycl"))
    h = hash_files(hdrs + srcs + vs, " ".join(FLAGS) + str(NCHUNK))
    base = os.path.join(VERIF, "_build")
    d = os.path.join(base, h)
    # Only ever keep the newest few builds
    if os.path.isdir(base):
        olds = sorted((os.path.getmtime(os.path.join(base, x)), x)
                      for x in os.listdir(base)
                      if x != h and os.path.isdir(os.path.join(base, x)))
        for _, x in olds[:-1]:
            shutil.rmtree(os.path.join(base, x), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    pch_h = os.path.join(d, "pch.hpp")
    pch = pch_h + ".pch"
    if not os.path.exists(pch):
        with open(pch_h, "w") as fh:
            fh.write('#include <neso_particles.hpp>\n')
        run([CXX, *FLAGS, "-fpch-instantiate-templates", "-x", "c++-header",
             pch_h, "-o", pch + ".tmp"], os.path.join(d, "pch.log"))
        os.rename(pch + ".tmp", pch)
    tasks = []
    # library chunks, heaviest file first onto the lightest chunk
    chunks = [[0, []] for _ in range(NCHUNK)]
    for f in sorted(srcs, key=lambda f: (-weight(f), f)):
        c = min(chunks, key=lambda c: c[0])
        c[0] += weight(f)
        c[1].append(f)
    lib = os.path.join(d, "libneso.a")
    objs = []
    chunk_files = {}
    if not os.path.exists(lib):
        for i, (w, fs) in enumerate(chunks):
            src = os.path.join(d, "chunk%d.cpp" % i)
            with open(src, "w") as fh:
                for f in fs:
                    fh.write('#include "%s"\n' % f)
            o = os.path.join(d, "chunk%d.o" % i)
            objs.append(o)
            chunk_files[src] = fs
            tasks.append((w, src, o))
    exes = {}
    dobjs = {}
    for name in drivers:
        src = os.path.join(VERIF, "harness/drivers", name + ".cpp")
        deps = [src] + [f for f in walk(os.path.join(VERIF, "harness"))
                        if f.endswith(".hpp") and "vsycl" not in f]
        dh = hash_files(deps)
        o = os.path.join(d, "%s.%s.o" % (name, dh))
        exe = os.path.join(d, "%s.%s.exe" % (name, dh))
        exes[name] = exe
        if not os.path.exists(exe):
            dobjs[name] = o
            tasks.append((8.0, src, o))
    tasks.sort(key=lambda t: -t[0])

    def one(t):
        _, src, o = t
        if os.path.exists(o):
            return
        cc = [CXX, *FLAGS, "-include-pch", pch, "-c"]
        try:
            run(cc + [src, "-o", o + ".tmp"], o + ".log")
        except BuildError:
            # sources that do not compile as one translation unit (equal names
            # of file local functions): one by one
            fs = chunk_files.get(src, [])
            if len(fs) < 2:
                raise
            parts = []
            for k, f in enumerate(fs):
                parts.append("%s.%d.o" % (o, k))
                run(cc + [f, "-o", parts[-1]], o + ".log")
            run(["ld", "-r", *parts, "-o", o + ".tmp"], o + ".log")
        os.rename(o + ".tmp", o)

    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, tasks))
    if not os.path.exists(lib):
        run(["ar", "rcs", lib + ".tmp", *objs], lib + ".log")
        os.rename(lib + ".tmp", lib)
        for o in objs:
            os.remove(o)

    def link(name):
        run([CXX, dobjs[name], lib, *LINK, "-o", exes[name] + ".tmp"],
            exes[name] + ".log")
        os.rename(exes[name] + ".tmp", exes[name])

    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(link, dobjs))
    return exes, time.time() - t0


if __name__ == "__main__":
    try:
        e, t = build([a for a in sys.argv[1:] if a != "--petsc"],
                     "--petsc" in sys.argv)
    except BuildError as ex:
        print(ex)
        sys.exit(2)
    for k, v in e.items():
        print(k, v)
    print("build %.1fs" % t)
