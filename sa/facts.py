"""Lowers /repo's current sources to JSON facts (clang -> LLVM IR -> factgen).

Nothing here runs repository code: every file is compiled to IR, helper
functions are inlined into the functions the headers declare, and the
result is dumped.  Results are cached by content hash in /verif/build.
"""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FQL_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
CLANG = LLVM + "/bin/clang"
CLANGXX = LLVM + "/bin/clang++"
CACHE = os.environ.get("FQL_SA_CACHE", os.path.join(VERIF, "build"))


class AnalysisError(Exception):
    """The analysis cannot give an answer (exit status 2, never a violation)."""


def _sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisError("command failed: %s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
    return p.stdout


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def cache_dir():
    os.makedirs(CACHE, exist_ok=True)
    return CACHE


def factgen():
    src = os.path.join(VERIF, "tool", "factgen.cpp")
    out = os.path.join(cache_dir(), "factgen-" + _hash([src]))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        _sh([CLANGXX, "-O1", "-w", "-std=c++17", "-fno-rtti", "-I" + LLVM + "/include", src,
             "-o", tmp, "-L" + LLVM + "/lib", "-lLLVM-18"])
        os.rename(tmp, out)
    return out


def c_flags():
    r = REPO
    return ["-std=gnu17", "-O0", "-g", "-fno-builtin", "-fno-discard-value-names", "-Xclang", "-disable-O0-optnone", "-c",
            "-emit-llvm", "-w", "-DSCHEMA_DATADIR=/usr/local/share/fql/schema/",
            "-I" + VERIF + "/stubs", "-I" + r + "/lib", "-I" + r + "/lib/include",
            "-I" + r + "/util", "-I" + r]


def cxx_flags():
    r = REPO
    return ["-std=c++17", "-O0", "-g", "-fno-discard-value-names", "-Xclang", "-disable-O0-optnone", "-c", "-emit-llvm", "-w",
            "-I" + r + "/lib/antlr", "-I" + r + "/lib", "-I" + r + "/lib/include", "-I" + r + "/util",
            "-I" + r, "-I/usr/include/antlr4-runtime"]


UNITS = {
    # name -> (globs, compiler, flags)
    "engine": (["util/*.c", "lib/*.c"], CLANG, c_flags),
    "util": (["util/*.c"], CLANG, c_flags),
    "cli": (["src/fql.c"], CLANG, c_flags),
    "listener": (["lib/antlr/listenerinterface.cpp", "lib/antlr/antlr.cpp", "lib/antlr/treewalker.cpp", "lib/antlr/errorlistener.cpp"], CLANGXX, cxx_flags),
}


def _headers():
    hs = []
    for g in ("util/*.h", "lib/*.h", "lib/include/*.h", "lib/antlr/*.h", "config.h"):
        hs += glob.glob(os.path.join(REPO, g))
    hs += glob.glob(os.path.join(VERIF, "stubs", "*.h"))
    return hs


def unit_files(unit):
    fs = []
    for g in UNITS[unit][0]:
        fs += sorted(glob.glob(os.path.join(REPO, g)))
    if not fs:
        raise AnalysisError("no source files for unit " + unit)
    return fs


def load(unit="engine", keep="anchors", inline=True, pre=None, post=None):
    """JSON facts of one unit.  keep: 'anchors' (the frozen header list) or an
    iterable of function names to keep un-inlined in addition to recursion."""
    fg = factgen()
    files = unit_files(unit)
    _, cc, flags = UNITS[unit]
    fl = flags()
    anchors_file = os.path.join(VERIF, "sa", "anchors.txt")
    if keep == "anchors":
        keepset = None
    else:
        keepset = sorted(set(keep))
    key = _hash(files + _headers() + ([anchors_file] if keepset is None else []),
                json.dumps([os.path.basename(fg), unit, fl, keepset, inline, pre, post]))
    out = os.path.join(cache_dir(), "facts-%s-%s.json" % (unit, key))
    if not os.path.exists(out):
        bkey = _hash(files + _headers(), json.dumps([unit, fl]))
        bc = os.path.join(cache_dir(), "bc-%s-%s.bc" % (unit, bkey))
        if not os.path.exists(bc):
            tmp = tempfile.mkdtemp(prefix="fqlsa.")
            try:
                def one(f):
                    o = os.path.join(tmp, os.path.basename(f) + ".bc")
                    _sh([cc] + fl + [f, "-o", o])
                    return o
                with ThreadPoolExecutor(8) as ex:
                    objs = list(ex.map(one, files))
                linked = os.path.join(tmp, "all.bc")
                _sh([LLVM + "/bin/llvm-link"] + objs + ["-o", linked])
                shutil.copy(linked, bc + ".%d.tmp" % os.getpid())
                os.rename(bc + ".%d.tmp" % os.getpid(), bc)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        cmd = [fg, bc, out + ".%d.tmp" % os.getpid(), "--src", REPO.rstrip("/") + "/"]
        if keepset is None:
            cmd += ["--keep", anchors_file]
        else:
            kf = out + ".keep"
            with open(kf, "w") as f:
                f.write("\n".join(keepset) + "\n")
            cmd += ["--keep", kf]
        if not inline:
            cmd += ["--no-inline"]
        if pre:
            cmd += ["--pre", pre]
        if post:
            cmd += ["--post", post]
        _sh(cmd)
        os.rename(out + ".%d.tmp" % os.getpid(), out)
        _trim()
    with open(out) as f:
        return json.load(f), files


def _trim(limit=60):
    """Keep the cache directory small."""
    fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith(("facts-", "bc-"))]
    if len(fs) <= limit:
        return
    fs.sort(key=os.path.getmtime)
    for f in fs[:len(fs) - limit]:
        try:
            os.unlink(f)
        except OSError:
            pass
