"""Builds libuima and the drivers from /repo's working tree into /verif/.build (ninja, incremental)."""
import os, re, subprocess, fcntl, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
JDK = "/usr/lib/jvm/java-17-openjdk-amd64/include"

class BuildError(Exception):
    pass

def lib_sources():
    mk = open(os.path.join(REPO, "src/framework/Makefile.am")).read().replace("\\\n", " ")
    out = []
    for tok in " ".join(re.findall(r"^libuima_la_SOURCES\s*\+?=(.*)$", mk, re.M)).split():
        tok = tok.replace("$(top_srcdir)", REPO).replace("$(srcdir)", os.path.join(REPO, "src/framework"))
        if not tok.endswith((".cpp", ".c", ".cc")):
            continue
        if not tok.startswith("/"):
            tok = os.path.join(REPO, "src/framework", tok)
        out.append(os.path.normpath(tok))
    return out

DRIVERS = {
    # name -> (sources, shared?)
    "casdrv": (["casdrv.cpp"], False),
    "engdrv": (["engdrv.cpp"], False),
    "tsdrv": (["tsdrv.cpp"], False),
    "strdrv": (["strdrv.cpp"], False),
    "logdrv": (["logdrv.cpp"], False),
    "errdrv": (["errdrv.cpp"], False),
    "traceann.so": (["traceann.cpp"], True),
    "memhandler.so": (["memhandler.cpp"], True),
}

def gen(bdir, san=False):
    opt = "-O1 -g0" if not san else "-O1 -g1 -fsanitize=address,undefined -fno-sanitize=alignment,vptr,function -fno-sanitize-recover=all -fno-omit-frame-pointer"
    lopt = "" if not san else "-fsanitize=address,undefined"
    L = []
    L.append("cxxflags = -std=c++17 %s -fPIC -DNDEBUG -DTRACEOFF -D_UIMA_LIBRARY_ -D_REENTRANT -D_GNU_SOURCE -D_LARGEFILE64_SOURCE "
             "-DUIMA_PREFIX=/x -DUIMA_VERSION=2.5.0 -DVERIF_HOOKS -I%s/src/framework -I%s/src/cas -I%s/src/jni "
             "-I/usr/include/xercesc -I/usr/include/apr-1.0 -I%s -I%s/linux -w" % (opt, REPO, REPO, REPO, JDK, JDK))
    L.append("dxxflags = -std=c++17 %s -fPIC -DNDEBUG -DTRACEOFF -D_REENTRANT -D_GNU_SOURCE -D_LARGEFILE64_SOURCE "
             "-DUIMA_PREFIX=/x -DVERIF_HOOKS -I%s/src/framework -I%s/src/cas -I%s/drv "
             "-I/usr/include/xercesc -I/usr/include/apr-1.0 -w" % (opt, REPO, REPO, VERIF))
    libs = "-lxerces-c -lapr-1 -laprutil-1 -licuuc -licui18n -licuio -licudata -ldl -lpthread"
    L.append("rule cxx\n  command = g++ $cxxflags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    L.append("rule dxx\n  command = g++ $dxxflags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    L.append("rule so\n  command = g++ -shared %s $in -o $out %s" % (lopt, libs))
    L.append("rule exe\n  command = g++ -rdynamic %s $in -o $out -L. -luima -Wl,-rpath,%s %s" % (lopt, bdir, libs))
    L.append("rule plug\n  command = g++ -shared %s $in -o $out -L. -luima -Wl,-rpath,%s %s" % (lopt, bdir, libs))
    objs = []
    for s in lib_sources():
        o = "lib/" + os.path.basename(s) + ".o"
        objs.append(o)
        L.append("build %s: cxx %s" % (o, s))
    L.append("build libuima.so: so " + " ".join(objs))
    for name, (srcs, shared) in DRIVERS.items():
        srcs = [s for s in srcs if os.path.exists(os.path.join(VERIF, "drv", s))]
        if not srcs:
            continue
        os_ = []
        for s in srcs:
            o = "drv/" + s + ".o"
            os_.append(o)
            L.append("build %s: dxx %s" % (o, os.path.join(VERIF, "drv", s)))
        L.append("build %s: %s %s | libuima.so" % (name, "plug" if shared else "exe", " ".join(os_)))
    return "\n".join(L) + "\n"

def build(targets=("casdrv",), san=False):
    bdir = os.path.join(BUILD, "san" if san else "opt")
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(bdir, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        txt = gen(bdir, san)
        p = os.path.join(bdir, "build.ninja")
        if not os.path.exists(p) or open(p).read() != txt:
            open(p, "w").write(txt)
        # the sources of a throwaway copy may carry older mtimes than the objects: ninja compares
        # against its log, so force a rebuild of whatever differs by content
        _touch_changed(bdir)
        r = subprocess.run(["ninja", "-C", bdir] + list(targets), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout[-4000:])
        _save_hashes(bdir)
    return bdir

import hashlib, json
def _tree():
    out = {}
    for base in ("src/framework", "src/cas", "src/jni"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            for f in fs:
                if f.endswith((".cpp", ".c", ".h", ".hpp", ".inl")):
                    p = os.path.join(d, f)
                    out[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out

def _touch_changed(bdir):
    """Content changed but mtime not newer (git checkout, cp -a): remove all objects."""
    hp = os.path.join(bdir, "hashes.json")
    if not os.path.exists(hp):
        return
    old = json.load(open(hp))
    new = _tree()
    stale = False
    logt = os.path.getmtime(hp)
    for p, h in new.items():
        if old.get(p) != h and os.path.getmtime(p) <= logt:
            stale = True
    if stale or set(old) - set(new):
        for d in ("lib",):
            dd = os.path.join(bdir, d)
            if os.path.isdir(dd):
                for f in os.listdir(dd):
                    if f.endswith(".o"):
                        os.unlink(os.path.join(dd, f))
        for f in ("libuima.so",):
            if os.path.exists(os.path.join(bdir, f)):
                os.unlink(os.path.join(bdir, f))
        dd = os.path.join(bdir, "drv")
        if os.path.isdir(dd):
            for f in os.listdir(dd):
                if f.endswith(".o"):
                    os.unlink(os.path.join(dd, f))

def _save_hashes(bdir):
    json.dump(_tree(), open(os.path.join(bdir, "hashes.json"), "w"))

if __name__ == "__main__":
    print(build(sys.argv[1:] or ("casdrv", "engdrv", "traceann.so")))
