"""Copy /repo/ccblade to a scratch directory and build its Fortran extension."""
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"


def env():
    e = dict(os.environ)
    e.update(PATH="/opt/venv/bin:" + e.get("PATH", "/usr/bin:/bin"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", OPENMDAO_REPORTS="0", OPENMDAO_USE_MPI="0",
             CC="gcc", FC="gfortran")
    e.pop("PYTHONPATH", None)
    return e


def scratch():
    return tempfile.mkdtemp(prefix="ccv_")


def copy_package(dst):
    src = os.path.join(REPO, "ccblade")
    out = os.path.join(dst, "ccblade")
    shutil.copytree(src, out, ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc"))
    return out


def build_ext(pkg, flags=("-O2",), fflags=()):
    """build ccblade/_bem next to the copied sources (as setup.py/meson does)"""
    e = env()
    src = os.path.join(pkg, "src", "bem.f90")
    bd = os.path.join(pkg, "_build")
    os.makedirs(bd, exist_ok=True)

    def run(cmd):
        p = subprocess.run(cmd, cwd=bd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
        return p.stdout
    run([VENV, "-m", "numpy.f2py", src, "-m", "_bem", "--lower", "--build-dir", bd])
    inc = run([VENV, "-c", "import numpy, numpy.f2py, sysconfig; print(numpy.get_include()); print(numpy.f2py.get_include()); print(sysconfig.get_paths()['include']); print(sysconfig.get_config_var('EXT_SUFFIX'))"]).split("\n")
    I = ["-I" + inc[0], "-I" + inc[1], "-I" + inc[2]]
    so = os.path.join(pkg, "_bem" + inc[3])
    cs = [os.path.join(bd, f) for f in os.listdir(bd) if f.endswith(".c")]
    fs = [os.path.join(bd, f) for f in os.listdir(bd) if f.endswith((".f", ".f90"))]
    procs = []
    objs = []
    jobs = [(["gcc", "-fPIC", "-w", "-O1", "-DNPY_NO_DEPRECATED_API=NPY_1_9_API_VERSION"] + I + ["-c", c], c) for c in cs]
    jobs.append((["gcc", "-fPIC", "-w", "-O1"] + I + ["-c", os.path.join(inc[1], "fortranobject.c")], "fobj.c"))
    jobs.append((["gfortran", "-fPIC", "-w"] + list(flags) + list(fflags) + ["-c", src], src))
    jobs += [(["gfortran", "-fPIC", "-w"] + list(flags) + ["-c", f], f) for f in fs]
    for k, (cmd, nm) in enumerate(jobs):
        o = os.path.join(bd, "o%d.o" % k)
        objs.append(o)
        procs.append((cmd, subprocess.Popen(cmd + ["-o", o], cwd=bd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for cmd, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), o[-3000:]))
    run(["gfortran", "-shared", "-o", so] + objs)
    shutil.rmtree(bd)
    return so


if __name__ == "__main__":
    d = scratch()
    p = copy_package(d)
    print(build_ext(p))
    print(d)
