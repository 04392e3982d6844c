"""Build driver: compiles /repo's current library sources and a harness of /verif, in parallel.

Nothing is taken from /repo/_build: the sources, headers and source list (the Makemodule.am
files) are read from the working tree at each run.  Objects are kept in /verif/.build (ignored
by git), keyed by a hash of every header, the source and the flags, so that a second check in
the same sandbox reuses them; a changed source or header always gives another key.
"""
import concurrent.futures, fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CORE = os.path.join(REPO, "core")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

INCLUDES = ["-I" + VERIF + "/include", "-I" + CORE + "/include/bertini2", "-I" + CORE + "/include",
            "-I" + VERIF + "/harness", "-isystem", "/usr/include/eigen3"]
LIBS = ("-lboost_serialization -lboost_log -lboost_log_setup -lboost_filesystem -lboost_thread "
        "-lboost_system -lboost_program_options -lboost_chrono -lboost_regex -lmpc -lmpfr -lgmp "
        "-lpthread").split()
COMMON = ["-std=c++17", "-w", "-DBOOST_LOG_DYN_LINK", "-DBOOST_ALL_DYN_LINK", "-D_GLIBCXX_ASSERTIONS"]
FLAVOURS = {
    # plain monitors: asserts of the library, of Eigen and of libstdc++ are on
    "fast": ["-O1", "-g0"],
    # memory and undefined-behaviour monitors
    "san": ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
            "-fno-sanitize=function,vptr", "-fno-sanitize-recover=all", "-DVERIF_SAN"],
}
CXX = "clang++"


class BuildError(Exception):
    pass


def lib_sources():
    """The library's own list of sources, as its build system reads it."""
    out = []
    for am in sorted(glob.glob(CORE + "/src/*/Makemodule.am")):
        if os.path.basename(os.path.dirname(am)) in ("blackbox", "corelibrary"):
            continue
        for m in re.findall(r"(src/[\w/.\-]+\.cpp)", open(am).read()):
            p = os.path.join(CORE, m)
            if p not in out:
                out.append(p)
    return out


def _hash_tree(root):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode())
            try:
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                pass
    return h.hexdigest()


def _run(cmd, timeout=850):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd),
                         r.stdout.decode(errors="replace")[-6000:]))


def build(harness_names, flavour="fast", verbose=True):
    """Compile the library and the named harnesses; returns {name: path of the executable}."""
    t0 = time.time()
    flags = COMMON + FLAVOURS[flavour] + INCLUDES
    outdir = os.path.join(BUILD, flavour)
    os.makedirs(outdir, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock." + flavour), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    incl = _hash_tree(CORE + "/include") + _hash_tree(VERIF + "/include")
    base = hashlib.sha256((incl + repr(flags) + CXX).encode()).hexdigest()
    hhash = hashlib.sha256("".join(_hash_file(p) for p in sorted(glob.glob(VERIF + "/harness/*.hpp"))).encode()).hexdigest()

    pch_key = hashlib.sha256((base + "pch").encode()).hexdigest()[:20]
    pch = os.path.join(outdir, "pch-%s.pch" % pch_key)
    if not os.path.exists(pch):
        src = os.path.join(outdir, "verif_pch.hpp")
        with open(src, "w") as fh:
            fh.write('#include "bertini2/system.hpp"\n')
        tmp = pch + ".tmp%d" % os.getpid()
        _run([CXX] + flags + ["-x", "c++-header", "-Xclang", "-fno-pch-timestamp",
                              "-fpch-instantiate-templates", src, "-o", tmp])
        os.rename(tmp, pch)
    jobs, objs, hobj = [], [], {}
    srcs = lib_sources()
    if len(srcs) < 15:
        raise BuildError("found only %d library sources" % len(srcs))
    for s in srcs:
        # other .cpp/.hpp below src may be included by a source: hash what it includes from there
        key = hashlib.sha256((base + _hash_file(s) + s + _local_includes(s)).encode()).hexdigest()[:20]
        o = os.path.join(outdir, os.path.relpath(s, CORE).replace("/", "_") + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((_weight(s), s, o, pch, True))
    for n in harness_names:
        parts = sorted(glob.glob(VERIF + "/harness/%s.cpp" % n) + glob.glob(VERIF + "/harness/%s__*.cpp" % n))
        if not parts:
            raise BuildError("no harness " + n)
        hobj[n] = []
        for s in parts:
            key = hashlib.sha256((base + hhash + _hash_file(s)).encode()).hexdigest()[:20]
            o = os.path.join(outdir, os.path.basename(s) + "-" + key + ".o")
            hobj[n].append(o)
            if not os.path.exists(o):
                jobs.append((10**9, s, o, pch, True))
    jobs.sort(key=lambda j: -j[0])

    def compile_one(j):
        _, s, o, p, use = j
        tmp = o + ".tmp%d.o" % os.getpid()
        _run([CXX] + flags + ["-include-pch", p, "-c", s, "-o", tmp])
        os.rename(tmp, o)

    with concurrent.futures.ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        futs = [ex.submit(compile_one, j) for j in jobs]
        err = None
        for f in concurrent.futures.as_completed(futs):
            try:
                f.result()
            except Exception as e:      # report the first error, let the others end
                err = err or e
                for g in futs:
                    g.cancel()
        if err:
            raise err
    exes = {}
    for n in harness_names:
        all_o = hobj[n] + objs
        key = hashlib.sha256("".join(all_o).encode()).hexdigest()[:20]
        exe = os.path.join(outdir, "%s-%s" % (n, key))
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            _run([CXX] + FLAVOURS[flavour] + all_o + ["-o", tmp] + LIBS)
            os.rename(tmp, exe)
        exes[n] = exe
    _gc(outdir)
    lock.close()
    if verbose:
        print("build[%s]: %d sources compiled, %.1f s" % (flavour, len(jobs), time.time() - t0), flush=True)
    return exes


def _hash_file(p):
    with open(p, "rb") as fh:
        return hashlib.sha256(fh.read()).hexdigest()


def _local_includes(s):
    out = ""
    for inc in re.findall(r'#include\s+"([^"]+)"', open(s, errors="replace").read()):
        for d in (os.path.dirname(s), CORE):
            p = os.path.join(d, inc)
            if os.path.exists(p):
                out += _hash_file(p)
    return out


def _weight(s):
    b = os.path.relpath(s, CORE)
    for k, w in (("start/", 9e8), ("system.cpp", 8e8), ("straight_line", 7e8), ("node.cpp", 6e8), ("random", 5e8)):
        if k in b:
            return w
    return os.path.getsize(s)


def _gc(outdir, keep=6):
    groups = {}
    for p in glob.glob(outdir + "/*"):
        m = re.match(r"(.*)-[0-9a-f]{20}", os.path.basename(p))
        if m:
            groups.setdefault(m.group(1) + os.path.splitext(p)[1], []).append(p)
    for g in groups.values():
        g.sort(key=os.path.getmtime)
        for p in g[:-keep]:
            try:
                os.unlink(p)
            except OSError:
                pass


if __name__ == "__main__":
    fl = "fast"
    names = sys.argv[1:]
    if names and names[0] in FLAVOURS:
        fl, names = names[0], names[1:]
    print(build(names, fl))
