#!/usr/bin/env python3
"""Builds one property program from /repo's working tree:  build.py <program> [<program>...]

Everything goes to $VERIF_BUILD (default /verif/build), which git ignores. Sources are compiled directly
from /repo (never from its _build directory)."""
import glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
BACKENDS = ("asio", "thread", "ev", "fltk", "wx")

FLAVOURS = {
    # name: (compiler, flags, link flags)
    "asan": ("clang++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr,function "
                        "-fno-sanitize-recover=undefined", "-fsanitize=address,undefined"),
    "tsan": ("clang++", "-O1 -g1 -fsanitize=thread", "-fsanitize=thread"),
    "plain": ("clang++", "-O1 -g1", ""),
}
# program: (flavour, sources in /verif/src, backends, extra flags, extra link flags)
PROGRAMS = {}
for i in list(range(1, 19)) + [23, 24]:
    PROGRAMS["c%02d" % i] = ("asan", ["c%02d.cpp" % i, "sim.cpp", "engine.cpp"], [], "", "")
PROGRAMS["c19"] = ("asan", ["c19.cpp", "rt.cpp", "vt.cpp", "engine.cpp"], ["thread"], "", "")
PROGRAMS["c19t"] = ("tsan", ["c19t.cpp", "engine.cpp"], ["thread"], "", "")
PROGRAMS["c20t"] = ("tsan", ["c20t.cpp", "engine.cpp"], ["asio"], "", "")
PROGRAMS["c21t"] = ("tsan", ["c21t.cpp", "engine.cpp"], ["ev"], "", "-lev")
PROGRAMS["c20"] = ("asan", ["c20.cpp", "rt.cpp", "vt.cpp", "engine.cpp"], ["asio"], "", "")
PROGRAMS["c21"] = ("asan", ["c21.cpp", "rt.cpp", "vt.cpp", "engine.cpp"], ["ev"], "", "-lev")
PROGRAMS["c22f"] = ("asan", ["c22f.cpp", "rt.cpp", "vt.cpp", "engine.cpp"], ["fltk"], "", "-lfltk -lX11")
PROGRAMS["c22ft"] = ("tsan", ["c22ft.cpp", "engine.cpp"], ["fltk"], "", "-lfltk -lX11")
PROGRAMS["c22wt"] = ("tsan", ["c22wt.cpp", "engine.cpp"], ["wx"], "WX", "WX")
PROGRAMS["c22w"] = ("asan", ["c22w.cpp", "rt.cpp", "vt.cpp", "engine.cpp"], ["wx"], "WX", "WX")


def wx(arg):
    return subprocess.run(["wx-config", arg, "base"], capture_output=True, text=True).stdout.strip()


def export_headers():
    inc = os.path.join(OUT, "include", "rotor")
    for d, name in [("", "ROTOR")] + [(b, "ROTOR_" + b.upper()) for b in BACKENDS]:
        p = os.path.join(inc, d, "export.h")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        g = name + "_API_H"
        text = "#ifndef %s\n#define %s\n#define %s_API\n#define %s_NO_EXPORT\n#endif\n" % (g, g, name, name)
        if not os.path.exists(p) or open(p).read() != text:
            open(p, "w").write(text)


def build(progs, quiet=True):
    export_headers()
    core = sorted(f for f in glob.glob(REPO + "/src/rotor/**/*.cpp", recursive=True)
                  if os.path.relpath(f, REPO + "/src/rotor").split("/")[0] not in BACKENDS)
    n = ["ninja_required_version = 1.5", "builddir = " + OUT]
    done = set()
    for fl, (cxx, flags, _) in FLAVOURS.items():
        n.append("rule cxx_%s\n command = %s -std=c++17 -w %s $extra -DROTOR_STATIC_DEFINE -DBOOST_ALL_NO_LIB -I%s/include "
                 "-I%s/include -I%s/src -MMD -MF $out.d -c $in -o $out\n deps = gcc\n depfile = $out.d\n description = CXX $out"
                 % (fl, cxx, flags, OUT, REPO, VERIF))
        n.append("rule link_%s\n command = %s %s $in -o $out $libs -lpthread\n description = LINK $out" % (fl, cxx, FLAVOURS[fl][2]))

    def obj(src, fl, extra, sub):
        o = "%s/obj/%s/%s%s.o" % (OUT, fl, sub, os.path.relpath(src, REPO).replace("/", "_") if src.startswith(REPO + "/")
                                  else "v_" + os.path.basename(src))
        if o not in done:
            done.add(o)
            n.append("build %s: cxx_%s %s\n extra = %s" % (o, fl, src, extra))
        return o

    targets = []
    for p in progs:
        fl, srcs, backs, extra, libs = PROGRAMS[p]
        sub = ""
        if extra == "WX":
            extra, libs, sub = wx("--cxxflags"), wx("--libs"), "wx_"
        objs = [obj(f, fl, "", "") for f in core]
        for b in backs:
            objs += [obj(f, fl, extra, sub) for f in sorted(glob.glob(REPO + "/src/rotor/%s/*.cpp" % b))]
        objs += [obj(os.path.join(VERIF, "src", s), fl, extra, sub) for s in srcs]
        t = "%s/bin/%s" % (OUT, p)
        n.append("build %s: link_%s %s\n libs = %s" % (t, fl, " ".join(objs), libs))
        targets.append(t)
    f = os.path.join(OUT, "build-%s.ninja" % "-".join(progs)[:60])
    open(f, "w").write("\n".join(n) + "\n")
    r = subprocess.run(["ninja", "-f", f, "-j", os.environ.get("VERIF_JOBS", "8")] + targets, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:] + r.stderr[-2000:])
    return r.returncode == 0


if __name__ == "__main__":
    sys.exit(0 if build(sys.argv[1:]) else 1)
