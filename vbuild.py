#!/usr/bin/env python3
"""Build of /repo's working tree for the monitors (independent of /repo/_build).

variants:  asan  = gcc -O1 -g, AddressSanitizer + UndefinedBehaviorSanitizer, assertions on
           o1    = gcc -O1 -g, no sanitizer, for valgrind's memcheck
           plain = gcc -O2 -g, assertions on
           (plain also has the developers' HIOP_DEEPCHECKS; off by default in the project's build)
Both with MPI, EIGEN and KRON_REDUCTION, as the project's test build.
Output goes to /verif/.build/<variant> (ignored by git).
"""
import os, subprocess, sys, glob, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

EXCL = ("Cuda", "Hip", "Raja", "MA57", "MA86Z", "PARDISO", "STRUMPACK", "ReSolve", "Ginkgo", "CuSparse",
        "Magma", "KKTLinSysSparse", "test_", "Umpire", "Sidre")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,nonnull-attribute", "-fno-omit-frame-pointer"]
VAR = {
    "asan": dict(cflags=["-O1", "-g1"] + SAN, ld=SAN),
    "o1": dict(cflags=["-O1", "-g1", "-fno-omit-frame-pointer"], ld=[]),  # run under valgrind
    "plain": dict(cflags=["-O2", "-g1"], ld=[], deep=True),
}

DEFS = """#ifndef VERIF_HIOP_DEFS
#define VERIF_HIOP_DEFS
#define HIOP_USE_MPI
#define HIOP_USE_EIGEN
@DEEP@#define HIOP_VERSION "1.1.0"
#define HIOP_VERSION_MAJOR 1
#define HIOP_VERSION_MINOR 1
#define HIOP_VERSION_PATCH 0
#define HIOP_RELEASE_DATE "2026-01-01"
#include "hiop_types.h"
#endif
"""
FC = """#ifndef FC_HEADER_INCLUDED
#define FC_HEADER_INCLUDED
#define FC_GLOBAL(name,NAME) name##_
#define FC_GLOBAL_(name,NAME) name##_
#define FC_MODULE(mod_name,name, mod_NAME,NAME) __##mod_name##_MOD_##name
#define FC_MODULE_(mod_name,name, mod_NAME,NAME) __##mod_name##_MOD_##name
#endif
"""

def put(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)

def lib_sources():
    res = []
    for d in ("Interface", "LinAlg", "Optimization", "Utils", "ExecBackends"):
        for ext in ("cpp", "c"):
            for s in sorted(glob.glob(f"{REPO}/src/{d}/*.{ext}")):
                b = os.path.basename(s)
                if any(x in b for x in EXCL):
                    continue
                res.append(s)
    return res

def mpi_flags():
    inc = subprocess.run(["mpicxx", "--showme:compile"], capture_output=True, text=True).stdout.split()
    ld = subprocess.run(["mpicxx", "--showme:link"], capture_output=True, text=True).stdout.split()
    return inc, ld

def build(variant, targets, quiet=True):
    """targets: names of harnesses (harness/<name>.cpp).  Returns {name: path}"""
    v = VAR[variant]
    bd = os.path.join(OUT, variant)
    os.makedirs(bd, exist_ok=True)
    gen = os.path.join(bd, "gen")
    put(os.path.join(gen, "hiop_defs.hpp"), DEFS.replace("@DEEP@", "#define HIOP_DEEPCHECKS\n" if v.get("deep") else ""))
    put(os.path.join(gen, "FortranCInterface.hpp"), FC)
    mi, ml = mpi_flags()
    inc = [f"-I{gen}"] + [f"-I{REPO}/src/{d}" for d in
           ("Interface", "ExecBackends", "Optimization", "LinAlg", "Utils", "_Internals", "Drivers/Dense", "Drivers/MDS", "Drivers/PriDec")]
    inc += ["-isystem/usr/include/eigen3", "-isystem/usr/include/suitesparse", f"-I{VERIF}/harness"]
    cf = v["cflags"] + ["-fPIC", "-w"]
    lib = os.path.join(bd, "libhiop.a")
    L = []
    L.append("cxxflags = " + " ".join(["-std=gnu++14"] + cf + inc + mi))
    L.append("cflags = " + " ".join(cf + inc + mi))
    L.append("libs = " + " ".join(v["ld"] + ml + ["-lumfpack", "-lmetis", "-llapack", "-lblas", "-lgfortran", "-lpthread", "-lm", "-ldl"]))
    L.append("rule cxx\n  command = g++ $cxxflags $acc -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    L.append("rule cc\n  command = gcc $cflags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    L.append("rule ar\n  command = rm -f $out && ar rcs $out $in")
    L.append("rule link\n  command = g++ $in -o $out $libs")
    objs = []
    for s in lib_sources():
        o = os.path.join(bd, "obj", os.path.relpath(s, REPO).replace("/", "_") + ".o")
        L.append(f"build {o}: {'cc' if s.endswith('.c') else 'cxx'} {s}")
        objs.append(o)
    L.append(f"build {lib}: ar " + " ".join(objs))
    out = {}
    for s in sorted(glob.glob(f"{VERIF}/harness/*.cpp")):
        n = os.path.basename(s)[:-4]
        o = os.path.join(bd, "obj", "h_" + n + ".o")
        exe = os.path.join(bd, n)
        L.append(f"build {o}: cxx {s}\n  acc = -fno-access-control")
        L.append(f"build {exe}: link {o} {lib}")
        out[n] = exe
    put(os.path.join(bd, "build.ninja"), "\n".join(L) + "\n")
    cmd = ["ninja", "-C", bd, "-k", "0"] + [out[t] for t in targets]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:] + r.stderr[-2000:])
        raise SystemExit(3)
    if not quiet:
        sys.stderr.write(r.stdout[-500:])
    return {t: out[t] for t in targets}

if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:], quiet=False))
