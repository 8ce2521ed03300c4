"""Build the real extension from /repo's working tree into /verif/.build/<variant>.

Objects are cached by content: the preprocessed-relevant inputs of a translation
unit are its own text, every header of the tree, the flags and the monitor, so a
change anywhere in /repo is always seen.  A fresh sandbox simply has no cache.
"""
import hashlib
import os
import subprocess
import sys
import glob
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/macposts-venv/bin/python"
BUILD = os.path.join(VERIF, ".build")
CXX = "g++"

SAN = ("-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all "
       "-fno-omit-frame-pointer -g1")
STRICT = ("-DNDEBUG -DMACPOSTS_VERIFY -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR "
          "-Deigen_assert(x)=((x)?(void)0:__builtin_trap()) ")
# (general flags, flags of the two big multimodal units)
VARIANTS = {
    # hooks on; multimodal code at -O0 because nothing here runs it hot
    "rel": ("-O1 -DNDEBUG -DMACPOSTS_VERIFY", "-O0 -DNDEBUG -DMACPOSTS_VERIFY"),
    "asan": ("-O1 -DNDEBUG -DMACPOSTS_VERIFY " + SAN,
             "-O0 -DNDEBUG -DMACPOSTS_VERIFY"),
    # also the assertions of Eigen and the standard containers
    "asanx": ("-O1 " + STRICT + SAN, "-O0 " + STRICT + SAN),
    "asanmm": ("-O0 -DNDEBUG -DMACPOSTS_VERIFY " + SAN,
               "-O0 -DNDEBUG -DMACPOSTS_VERIFY " + SAN),
}
MM = {"multimodal.cpp", "mmdta.cpp"}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _pyinc():
    out = subprocess.run(
        [PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include']);"
         "print(sysconfig.get_config_var('EXT_SUFFIX'))"],
        capture_output=True, text=True, check=True).stdout.split()
    return out[0], out[1]


def _sources():
    """Translation units, as CMakeLists.txt lists them (fallback: all of them)."""
    txt = _read(os.path.join(REPO, "CMakeLists.txt")).decode()
    src = []
    for tok in txt.split():
        tok = tok.strip("()")
        if tok.endswith(".cpp"):
            p = os.path.join(REPO, tok)
            if os.path.exists(p):
                src.append(p)
    if len(src) < 10:
        src = (glob.glob(os.path.join(REPO, "src", "*.cpp"))
               + glob.glob(os.path.join(REPO, "macposts", "_ext", "*.cpp")))
    return sorted(set(src))


def build(variant="rel", verbose=False):
    """Return (directory holding the extension, monitor_ok)."""
    t0 = time.time()
    gen, mm = VARIANTS[variant]
    inc, suffix = _pyinc()
    base = ["-std=c++11", "-fPIC", "-fvisibility=hidden", "-w", "-pipe",
            "-I" + os.path.join(REPO, "src"), "-isystem", "/usr/include/eigen3",
            "-isystem", inc]
    sources = _sources()
    headers = sorted(glob.glob(os.path.join(REPO, "src", "*.h*"))
                     + glob.glob(os.path.join(REPO, "macposts", "_ext", "*.h*")))
    hh = hashlib.sha256()
    for h in headers:
        hh.update(os.path.basename(h).encode() + b"\0" + _read(h) + b"\0")
    hdr = hh.hexdigest()
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)

    jobs = []
    for s in sources + [os.path.join(VERIF, "mon", "vmon.cpp")]:
        name = os.path.basename(s)
        ext = "_ext" in s
        flags = (mm if name in MM else gen).split() + base
        if not ext:
            flags = [f for f in flags if f != "-fvisibility=hidden"]
        key = hashlib.sha256((hdr + "\0" + " ".join(flags)).encode()
                             + b"\0" + _read(s)).hexdigest()[:24]
        obj = os.path.join(objdir, "%s%s-%s.o" % ("x-" if ext else "", name[:-4], key))
        jobs.append((s, flags, obj))
    # the long ones first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))

    def run(job):
        s, flags, obj = job
        if os.path.exists(obj):
            return (s, 0, "")
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + flags + ["-c", s, "-o", tmp],
                           capture_output=True, text=True)
        if r.returncode == 0:
            os.replace(tmp, obj)
        return (s, r.returncode, r.stderr)

    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(run, jobs))
    mon_ok = True
    objs = []
    for (s, flags, obj), (_, rc, err) in zip(jobs, res):
        if rc == 0:
            objs.append(obj)
            continue
        if s.endswith("vmon.cpp"):
            # first without its multimodal part, then not at all
            lite = obj[:-2] + "-lite.o"
            r = subprocess.run([CXX] + flags + ["-DVMON_NO_MM", "-c", s, "-o", lite + ".tmp"],
                               capture_output=True, text=True)
            if r.returncode == 0:
                os.replace(lite + ".tmp", lite)
                objs.append(lite)
                sys.stderr.write("the multimodal monitor does not fit this tree:\n" + err[:1500] + "\n")
                continue
            # the tree's internals no longer fit the monitor: empty hook instead
            mon_ok = False
            stub = os.path.join(BUILD, "stub.cpp")
            with open(stub, "w") as f:
                f.write('class MNM_Dta; extern "C" void macposts_verify_interval'
                        "(MNM_Dta*, int) {}\n")
            so = os.path.join(objdir, "stub-%s.o" % variant)
            r = subprocess.run([CXX] + flags + ["-c", stub, "-o", so],
                               capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr[-3000:])
            objs.append(so)
            sys.stderr.write("monitor does not fit this tree:\n" + err[:1500] + "\n")
        else:
            raise BuildError("cannot compile %s\n%s" % (s, err[-3000:]))
    lk = hashlib.sha256("\0".join(sorted(objs)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, variant + "-" + lk)
    so = os.path.join(out, "_macposts_ext" + suffix)
    if not os.path.exists(so):
        os.makedirs(out, exist_ok=True)
        link = [CXX, "-shared", "-o", so + ".tmp"] + objs
        if "asan" in variant:
            link += SAN.split()
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("link: " + r.stderr[-3000:])
        os.replace(so + ".tmp", so)
    if verbose:
        sys.stderr.write("build %s: %.1f s\n" % (variant, time.time() - t0))
    return out, mon_ok


if __name__ == "__main__":
    for v in sys.argv[1:] or ["rel"]:
        print(build(v, True))
