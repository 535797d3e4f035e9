#!/usr/bin/env python3
"""Builds harness executables from the current /repo/src working tree.

Everything is compiled straight from /repo/src into a build folder outside the
repository (VERIF_BUILD or /verif/build); ninja with depfiles makes repeated
builds incremental, a fresh copy of the sandbox builds from scratch."""
import glob, os, subprocess, sys, re

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
LIB = "/usr/lib/x86_64-linux-gnu"
PETSC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-complex"

MODULES = {
    "parallel": ["parallel/*.cpp"],
    "timer": ["timer/*.cpp"],
    "environment": ["environment/*.cpp"],
    "configuration": ["configuration/*.cpp"],
    "component": ["component/base_component.cpp", "component/data_collection.cpp", "component/base_analytics_intfc.cpp"],
    "factory": ["factory/*.cpp"],
    "analysis": ["analysis/*.cpp"],
    "stream": ["stream/*.cpp"],
    "partition": ["partition/*.cpp", "partition/parmetis/*.cpp"],
    "parser": ["parser/*.cpp", "parser/block_parsers/*.cpp"],
    "math": ["math/implementation_visitor.cpp", "math/vector_implementation.cpp", "math/petsc/*.cpp"],
}
EXCLUDE = {"partition/simple_adjacency.cpp"}
# library link order: users first
ORDER = ["app_pf", "app_ca", "app_ds", "app_se", "app_comp", "math", "parser", "analysis", "factory", "partition", "configuration",
         "component", "stream", "environment", "parallel", "timer"]
EXTRA_MODULES = {}
BASE = ["parallel", "timer", "environment", "configuration", "component", "factory", "analysis", "stream", "partition", "parser"]

CXX = "-O1 -w -fno-omit-frame-pointer -g1 -ftrivial-auto-var-init=pattern"
INC = ("-I%s/src -I%s/src/partition -I%s/src/math -I%s/openmpi/include -I%s/openmpi/include/openmpi -isystem %s/include -I%s/vmpi -I%s/harness"
       % (REPO, REPO, REPO, LIB, LIB, PETSC, HERE, HERE))


def module_sources(m):
    pats = MODULES.get(m) or EXTRA_MODULES[m]
    out = []
    for p in pats:
        for f in sorted(glob.glob(os.path.join(REPO, "src", p))):
            rel = os.path.relpath(f, os.path.join(REPO, "src"))
            if rel in EXCLUDE:
                continue
            out.append(f)
    return out


def harness_meta(src):
    """first lines of a harness may hold  // USES: mod mod   // FLAGS: ..."""
    uses, flags, extra = list(BASE), "", []
    with open(src) as f:
        for line in f.read().split("\n")[:30]:
            m = re.match(r"//\s*USES:\s*(.*)", line)
            if m:
                uses = m.group(1).split()
            m = re.match(r"//\s*FLAGS:\s*(.*)", line)
            if m:
                flags = m.group(1).replace("$REPO", REPO)
            m = re.match(r"//\s*REPO_SRC:\s*(.*)", line)
            if m:
                for pat in m.group(1).split():
                    extra += sorted(glob.glob(os.path.join(REPO, "src", pat)))
    return uses, flags, extra


def generate(names, variant="std", real=False):
    bdir = os.path.join(BUILD, variant)
    os.makedirs(bdir, exist_ok=True)
    o = []
    san = "-fsanitize=address -fno-sanitize-recover=all" if variant == "asan" else ""
    o.append("cxxflags = %s %s" % (CXX, san))
    o.append("incs = %s" % INC)
    o.append("rule cxx\n  command = g++ $cxxflags $incs $extra -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out")
    o.append("rule ar\n  command = rm -f $out && ar rcs $out $in\n  description = AR $out")
    o.append("rule link\n  command = g++ $cxxflags $in -o $out $libs\n  description = LINK $out")
    done = {}

    def obj(src, extra="", tag=""):
        name = tag + src.replace(REPO + "/src/", "gp/").replace(HERE + "/", "").replace("/", "_") + ".o"
        key = (src, extra, tag)
        if key not in done:
            done[key] = name
            o.append("build %s: cxx %s\n  extra = %s" % (name, src, extra))
        return name

    vm = [obj(os.path.join(HERE, "vmpi", f)) for f in ("sched.cpp", "mpi.cpp", "ga.cpp", "common.cpp")]
    libs_done = {}

    def lib(m):
        if m not in libs_done:
            srcs = module_sources(m)
            objs = [obj(s) for s in srcs]
            libs_done[m] = "libgp_%s.a" % m
            o.append("build %s: ar %s" % (libs_done[m], " ".join(objs)))
        return libs_done[m]

    boost = "-lboost_mpi -lboost_serialization -lboost_filesystem -lboost_random -lboost_system"
    outs = []
    for n in names:
        src = os.path.join(HERE, "harness", n + ".cpp")
        uses, flags, extra = harness_meta(src)
        uses = [m for m in ORDER if m in uses] + [m for m in uses if m not in ORDER]
        hobj = obj(src, flags)
        eobjs = [obj(s, flags, n + "_") for s in extra]
        ls = [lib(m) for m in uses]
        petsc = "%s/lib/libpetsc_complex.so" % PETSC if "math" in uses else ""
        if petsc and not os.path.exists(petsc):
            petsc = LIB + "/libpetsc_complex.so"
        tail = "-L%s %s -l:libparmetis.a -lmetis %s -lmpi_cxx -lmpi -lm -ldl -lpthread" % (LIB, petsc, "-Wl,-Bstatic " + boost + " -Wl,-Bdynamic")
        tail = tail.replace("-l:libparmetis.a", "/usr/lib/libparmetis.a")
        o.append("build %s: link %s | %s\n  libs = -Wl,--start-group %s -Wl,--end-group %s" %
                 (n, " ".join([hobj] + eobjs + vm), " ".join(ls), " ".join(ls), tail))
        outs.append(n)
        if real:
            robj = obj(os.path.join(HERE, "vmpi", "real.cpp")) + " " + obj(os.path.join(HERE, "vmpi", "common.cpp"))
            rl = ("-Wl,--start-group %s -Wl,--end-group -L%s %s /usr/lib/libparmetis.a -lmetis -Wl,-Bstatic %s -Wl,-Bdynamic -lga++ -lga -larmci "
                  "-L%s/hdf5/openmpi -lscalapack-openmpi -llapack -lblas -lgfortran -lmpi_cxx -lmpi -lm -ldl -lpthread" % (" ".join(ls), LIB, petsc, boost, LIB))
            o.append("build %s.real: link %s | %s\n  libs = %s" % (n, " ".join([hobj, robj] + eobjs), " ".join(ls), rl))
            outs.append(n + ".real")
    path = os.path.join(bdir, "build_%s.ninja" % "_".join(names)[:80])
    text = "\n".join(o) + "\n"
    old = open(path).read() if os.path.exists(path) else None
    if old != text:
        with open(path, "w") as f:
            f.write(text)
    return bdir, path, outs


def build(names, variant="std", real=False, verbose=False):
    bdir, path, outs = generate(names, variant, real)
    cmd = ["ninja", "-C", bdir, "-f", path, "-j", str(max(2, os.cpu_count() or 2))] + outs
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if verbose or r.returncode:
        sys.stdout.write(r.stdout[-6000:])
    if r.returncode:
        raise SystemExit("build failed")
    return bdir


if __name__ == "__main__":
    if "--check-tools" in sys.argv:
        for t in ("g++", "ninja", "mpiexec"):
            assert subprocess.run(["which", t], stdout=subprocess.DEVNULL).returncode == 0, t
        os.makedirs(BUILD, exist_ok=True)
        sys.exit(0)
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    build(a, "asan" if "--asan" in sys.argv else "std", "--real" in sys.argv, True)
