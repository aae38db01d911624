#!/usr/bin/env python3
"""Write a build.ninja that builds the code under test from /repo's current working tree, and the
harnesses in /verif, into /verif/build (git-ignored). Usage: mk.py [target ...] builds the targets.

Variants of the code under test:
  race  accesses instrumented, run under the OpenMP runtime of lib/omp_fuzz.cpp
  opt   -O2, OpenMP, assertions on (as the repository's own RELEASE build)
  san   AddressSanitizer + UndefinedBehaviorSanitizer
"""
import glob
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

API_OPT = "-O2 -fPIC -fopenmp -std=c++14 -w"
SAN = ("-fsanitize=address,undefined -fno-sanitize=vptr,alignment,enum,bool -fno-sanitize-recover=all "
       "-fno-omit-frame-pointer")
API_SAN = "-O1 -g1 -fPIC -fopenmp -std=c++14 -w -D_GLIBCXX_ASSERTIONS " + SAN
API_RACE = "-O1 -g1 -fPIC -fopenmp -std=c++14 -w -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -fsanitize=thread"
HARN_RACE = "-O1 -fopenmp -std=c++17 -w -fsanitize=thread"
WRAP = "".join(" -Wl,--wrap=" + f for f in ["memcpy", "memmove", "memset", "free", "pthread_mutex_lock", "pthread_mutex_unlock",
                                            "__cxa_guard_acquire", "__cxa_guard_release"])
HARN = "-O1 -fopenmp -std=c++17 -w"
HARN_SAN = "-O1 -g1 -fopenmp -std=c++17 -w -D_GLIBCXX_ASSERTIONS " + SAN
CLIENT_LIBS = "-lnetcdf -lgsl -lgslcblas"
API_LIBS = "-larmadillo"


def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def obj(variant, src, root):
    rel = os.path.relpath(src, root).replace("/", "__")
    return "obj/%s/%s.o" % (variant, rel)


def generate():
    out = []
    w = out.append
    w("ninja_required_version = 1.5")
    w("builddir = .")
    w("rule cxx\n  command = g++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out")
    w("rule ar\n  command = rm -f $out && ar crs $out $in\n  description = AR $out")
    w("rule swig\n  command = SWIG_FEATURES=-flatstaticmethod swig -python -c++ -doxygen -interface _gridpp_swig -I%s/include -outdir py -MMD -MF $out.d -o $out $in > swig.log 2>&1 || (cat swig.log; false)\n  depfile = $out.d\n  deps = gcc\n  description = SWIG $out" % REPO)
    w("rule copy\n  command = cp $in $out\n  description = COPY $out")
    w("rule link\n  command = g++ $flags -o $out -Wl,--start-group $in -Wl,--end-group $libs\n  description = LINK $out")

    def compile(variant, src, root, flags):
        o = obj(variant, src, root)
        w("build %s: cxx %s\n  flags = %s" % (esc(o), esc(src), flags))
        return o

    inc_api = "-I%s/include" % REPO
    inc_h = "-I%s/include -I%s/lib" % (REPO, VERIF)
    api = sorted(glob.glob(REPO + "/src/api/*.cpp"))
    csrc = []
    for d in ["", "Calibrator/", "Downscaler/", "File/", "ParameterFile/"]:
        csrc += sorted(glob.glob(REPO + "/src/client/" + d + "*.cpp"))
    driver = [REPO + "/src/client/Driver/Gridpp.cpp"]
    libs = {}
    for variant, flags in [("opt", API_OPT), ("san", API_SAN)]:
        os_ = [compile("api_" + variant, s, REPO + "/src/api", flags + " " + inc_api) for s in api]
        w("build lib/libapi_%s.a: ar %s" % (variant, " ".join(map(esc, os_))))
        cs_ = [compile("client_" + variant, s, REPO + "/src/client", flags + " " + inc_api) for s in csrc]
        w("build lib/libclient_%s.a: ar %s" % (variant, " ".join(map(esc, cs_))))
        for s in driver:
            o = compile("driver_" + variant, s, REPO + "/src/client", flags + " " + inc_api)
            name = os.path.basename(s)[:-4].lower()
            w("build bin/%s_%s: link %s lib/libclient_%s.a lib/libapi_%s.a\n  flags = -fopenmp%s\n  libs = %s %s" % (
                name, variant, o, variant, variant, " " + SAN if variant == "san" else "", CLIENT_LIBS, API_LIBS))
    # Python module
    py = subprocess.run(["/usr/bin/python3", "-c", "import numpy, sysconfig; print(sysconfig.get_paths()['include']); print(numpy.get_include())"],
                        stdout=subprocess.PIPE, text=True).stdout.split()
    w("build py/gridpp_wrap.cxx | py/gridpp.py: swig %s/swig/gridpp.i" % REPO)
    for variant, flags in [("opt", API_OPT.replace("-O2", "-O1")), ("san", API_SAN.replace("-g1", ""))]:
        o = "obj/py_%s/wrap.o" % variant
        w("build %s: cxx py/gridpp_wrap.cxx\n  flags = %s %s %s" % (o, flags, inc_api, " ".join("-I" + x for x in py)))
        w("build py_%s/_gridpp_swig.so: link %s lib/libapi_%s.a\n  flags = -shared -fopenmp%s\n  libs = %s" % (variant, o, variant, " " + SAN if variant == "san" else "", API_LIBS))
        w("build py_%s/gridpp.py: copy py/gridpp.py" % variant)
    # engine
    for variant, flags in [("opt", HARN), ("san", HARN_SAN)]:
        compile("lib_" + variant, VERIF + "/lib/pbt_main.cpp", VERIF + "/lib", flags + " " + inc_h)
    # harnesses: props/<ID>.cpp (API) and props/C*.cpp (client)
    inc_c = inc_h + " -I%s/src/client" % REPO
    sanobjs = []
    for s in sorted(glob.glob(VERIF + "/props/*.cpp")):
        name = os.path.basename(s)[:-4]
        client = name.startswith("C")
        for variant, flags in [("opt", HARN), ("san", HARN_SAN)]:
            o = compile("props_" + variant, s, VERIF + "/props", flags + " " + (inc_c if client else inc_h))
            if variant == "san" and not client and name != "P23":
                sanobjs.append(o)
            deps = "lib/libapi_%s.a" % variant
            l = API_LIBS
            if client:
                deps = "lib/libclient_%s.a " % variant + deps
                l = CLIENT_LIBS + " " + l
            w("build bin/%s_%s: link %s obj/lib_%s/pbt_main.cpp.o %s\n  flags = -fopenmp%s\n  libs = %s" % (
                name, variant, o, variant, deps, " " + SAN if variant == "san" else "", l))
    # the OpenMP runtime of lib/omp_fuzz.cpp instead of libgomp, with instrumented memory accesses
    os_ = [compile("api_race", x, REPO + "/src/api", API_RACE + " " + inc_api) for x in api]
    os_.append(compile("race", VERIF + "/props/P23.cpp", VERIF + "/props", HARN_RACE + " " + inc_h))
    os_.append(compile("race", VERIF + "/lib/pbt_main.cpp", VERIF + "/lib", HARN_RACE + " " + inc_h))
    os_.append(compile("race_rt", VERIF + "/lib/omp_fuzz.cpp", VERIF + "/lib", "-O2 -std=c++17 -w " + inc_h))
    w("build bin/P23_race: link %s\n  flags = -rdynamic %s\n  libs = %s -lgomp -lpthread -ldl" % (" ".join(map(esc, os_)), WRAP, API_LIBS))
    w("build bin/all_san: link %s obj/lib_san/pbt_main.cpp.o lib/libapi_san.a\n  flags = -fopenmp %s\n  libs = %s" % (
        " ".join(map(esc, sanobjs)), SAN, API_LIBS))
    os.makedirs(BUILD, exist_ok=True)
    text = "\n".join(out) + "\n"
    path = os.path.join(BUILD, "build.ninja")
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def build(targets):
    generate()
    r = subprocess.run(["ninja", "-C", BUILD, "-k", "0"] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
    return r.returncode


if __name__ == "__main__":
    sys.exit(build(sys.argv[1:]))
