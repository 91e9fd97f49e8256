#!/usr/bin/env python3
"""Incremental, content-addressed builds of /repo for the checks.

  build.py VARIANT [VARIANT...]      builds, prints the site directory of each

Objects are keyed by the hash of the *preprocessed* text (g++ -E -P, so comments, blank lines and
line numbers do not matter) + flags + compiler, and kept in /verif/.cache/obj.  Nothing is ever
written in /repo.  The Python package is assembled in /verif/.cache/site/<variant>-<hash>.
"""
import fcntl, functools, glob, hashlib, os, shutil, subprocess, sys, sysconfig, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("DBZ_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("DBZ_CACHE", os.path.join(VERIF, ".cache"))
PYINC = "/usr/include/python3.12"
INCS = ["-I" + REPO, "-I" + REPO + "/src", "-I" + PYINC]
GUARD = "DBZ_VERIF_HOOKS"
COMMON = ["-std=c++17", "-fPIC", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS=1",
          "-D_FILE_OFFSET_BITS=64", "-D" + GUARD + "=1", "-w"]
VARIANTS = {
    "plain": dict(cxx="g++", flags=["-O1"], link=[]),
    "asan": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=address,undefined",
                                   "-fno-sanitize=alignment,vptr,pointer-overflow,nonnull-attribute,null"],
                 link=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=thread"], link=["-fsanitize=thread"]),
    # release semantics: asserts and debug-only code compiled out, as shipped
    "release": dict(cxx="g++", flags=["-O1", "-DNDEBUG"], link=[]),
}


class BuildError(RuntimeError):
    pass


def _sh(argv, **kw):
    return subprocess.run(argv, capture_output=True, **kw)


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src", "dbzero")):
        out += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(out)


def _cxx_id(cxx):
    return _sh([cxx, "--version"]).stdout


def compile_one(cxx, flags, src, incs, verid):
    pre = _sh([cxx, "-E", "-P", *flags, *incs, src])
    if pre.returncode:
        raise BuildError(f"{src}: {pre.stderr.decode(errors='replace')[-3000:]}")
    h = hashlib.sha256()
    h.update(verid); h.update("\0".join(flags).encode()); h.update(pre.stdout)
    key = h.hexdigest()[:40]
    obj = os.path.join(CACHE, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = f"{obj}.{os.getpid()}.tmp"
        r = _sh([cxx, *flags, *incs, "-c", src, "-o", tmp])
        if r.returncode:
            raise BuildError(f"{src}: {r.stderr.decode(errors='replace')[-3000:]}")
        os.rename(tmp, obj)
    else:
        os.utime(obj)
    return obj


def compile_all(cxx, flags, srcs, incs):
    verid = _cxx_id(cxx)
    # the biggest translation units first
    big = ("FT_BaseIndex.cpp", "object_model/index/Index.cpp", "set/Set.cpp", "set/WeakSet.cpp", "dict/Dict.cpp")
    order = sorted(srcs, key=lambda s: not s.endswith(big))
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        objs = list(ex.map(lambda s: compile_one(cxx, flags, s, incs, verid), order))
    return sorted(objs)


def _lock():
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def ext(variant):
    """-> (site dir, path of the extension module)"""
    v = VARIANTS[variant]
    with _lock():
        flags = COMMON + v["flags"]
        objs = compile_all(v["cxx"], flags, sources(), INCS)
        pys = sorted(glob.glob(os.path.join(REPO, "dbzero", "dbzero", "*.py")))
        h = hashlib.sha256("\0".join([os.path.basename(o) for o in objs] + v["link"]).encode())
        for p in pys:
            h.update(os.path.basename(p).encode()); h.update(open(p, "rb").read())
        site = os.path.join(CACHE, "site", f"{variant}-{h.hexdigest()[:24]}")
        so = os.path.join(site, "dbzero", "dbzero" + sysconfig.get_config_var("EXT_SUFFIX"))
        if not os.path.exists(site):
            tmp = tempfile.mkdtemp(dir=_mk(os.path.join(CACHE, "site")))
            os.makedirs(tmp + "/dbzero")
            for p in pys:
                shutil.copy(p, tmp + "/dbzero")
            rsp = tmp + "/objs.rsp"
            open(rsp, "w").write("\n".join(objs))
            r = _sh([v["cxx"], "-shared", "-fuse-ld=gold", "-o", tmp + "/dbzero/" + os.path.basename(so), "@" + rsp,
                     *v["link"], "-lpthread", "-ldl"])
            if r.returncode:
                raise BuildError(r.stderr.decode(errors="replace")[-3000:])
            os.chmod(tmp, 0o755)
            os.rename(tmp, site)
            # drop all but the 6 youngest sites of this variant
            old = sorted(glob.glob(os.path.join(CACHE, "site", variant + "-*")), key=os.path.getmtime)[:-6]
            for o in old:
                shutil.rmtree(o, ignore_errors=True)
        else:
            os.utime(site)
        return site, so


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


_made = {}


def harness(name, variant, srcs, extra=()):
    k = (name, variant, tuple(srcs), tuple(extra))
    if k not in _made: _made[k] = _harness(name, variant, srcs, extra)
    return _made[k]


def _harness(name, variant, srcs, extra=()):
    """C++ harness executable linked with the extension's objects + libpython"""
    v = VARIANTS[variant]
    with _lock():
        flags = COMMON + v["flags"] + list(extra)
        incs = INCS + ["-I" + os.path.join(VERIF, "harness")]
        lib = [o for o in compile_all(v["cxx"], COMMON + v["flags"], sources(), INCS)]
        mine = compile_all(v["cxx"], flags, srcs, incs)
        h = hashlib.sha256("\0".join([os.path.basename(o) for o in lib + mine] + v["link"]).encode())
        exe = os.path.join(_mk(os.path.join(CACHE, "bin")), f"{name}-{variant}-{h.hexdigest()[:24]}")
        if not os.path.exists(exe):
            rsp = exe + ".rsp"
            open(rsp, "w").write("\n".join(mine + lib))
            r = _sh([v["cxx"], "-fuse-ld=gold", "-no-pie", "-o", exe + ".tmp", "@" + rsp, *v["link"],
                     "-lpython3.12", "-lpthread", "-ldl"])
            if r.returncode:
                raise BuildError(r.stderr.decode(errors="replace")[-3000:])
            os.rename(exe + ".tmp", exe)
            for o in sorted(glob.glob(os.path.join(CACHE, "bin", f"{name}-{variant}-*[0-9a-f]")), key=os.path.getmtime)[:-4]:
                os.unlink(o)
        return exe


def cshared(name, src, libs=()):
    """small C helper library (interposers)"""
    with _lock():
        h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:24]
        so = os.path.join(_mk(os.path.join(CACHE, "lib")), f"{name}-{h}.so")
        if not os.path.exists(so):
            r = _sh(["gcc", "-O1", "-g", "-fPIC", "-shared", "-o", so + ".tmp", src, "-ldl", "-lpthread", *libs])
            if r.returncode:
                raise BuildError(r.stderr.decode(errors="replace"))
            os.rename(so + ".tmp", so)
        return so


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        t = time.time()
        print(v, ext(v)[0], f"{time.time() - t:.1f}s")
