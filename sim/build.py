#!/usr/bin/env python3
"""Builds the simulator against the current working tree of /repo.

usage: build.py asan|tsan  -> prints the path of the binary
Own build files (a generated build.ninja in /verif/build/<flavour>), own flags; nothing is written to /repo.
"""
import os, pathlib, subprocess, sys

REPO = pathlib.Path(os.environ.get("VP_REPO", "/repo"))
SIM = pathlib.Path(__file__).resolve().parent
WRAP = ("fopen fopen64 fdopen fclose fflush fileno read write writev lseek lseek64 fstat fstat64 ioctl poll "
        "open open64 close unlink rename fsync remove "
        "clock_gettime gettimeofday time nanosleep "
        "tcgetattr tcsetattr getchar getc fgetc signal").split()
WRAP_T = ("__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_mutex_lock pthread_mutex_unlock "
          "pthread_mutex_trylock pthread_once pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock "
          "pthread_cond_wait pthread_cond_signal pthread_cond_broadcast "
          "_Znwm _Znam _ZnwmRKSt9nothrow_t _ZnamRKSt9nothrow_t _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm _ZdlPvRKSt9nothrow_t _ZdaPvRKSt9nothrow_t").split()
FLAVOURS = {
    "asan": dict(cxx="clang++", common="-fsanitize=address", lib="", wrap=WRAP + ["__cxa_throw", "__cxa_rethrow"],
                 sources=["core.cpp", "alloc.cpp", "env.cpp", "gen.cpp", "parts.cpp", "model.cpp", "ops.cpp", "probes.cpp"], scenarios="scn_*.cpp"),
    "tsan": dict(cxx="clang++", common="-fsanitize=thread", lib="-fsanitize-coverage=trace-pc-guard", wrap=WRAP + WRAP_T,
                 sources=["core.cpp", "alloc.cpp", "env.cpp", "gen.cpp", "parts.cpp", "model.cpp", "ops.cpp", "probes.cpp", "baton.cpp"], scenarios="thr_*.cpp"),
}

def sources():
    files = sorted(str(p.relative_to(REPO)) for p in (REPO / "src").rglob("*.cpp"))
    return files

def main():
    flavour = sys.argv[1]
    f = FLAVOURS[flavour]
    out = pathlib.Path(os.environ.get("VP_BUILD", str(SIM.parent / "build"))) / flavour
    out.mkdir(parents=True, exist_ok=True)
    base = ("-std=c++17 -g1 -fno-omit-frame-pointer -fPIC -DFL_BACKTRACE -w "
            f"-I{REPO} -I{SIM} " + f["common"])
    lines = [f"cxx = {f['cxx']}",
             "rule cc", "  command = $cxx -MMD -MF $out.d $flags -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule ccmain", "  command = $cxx -MMD -MF $out.d $flags -c $in -o $out && objcopy --redefine-sym main=fuzzylite_main $out",
             "  depfile = $out.d", "  deps = gcc",
             "rule link", "  command = $cxx $flags @$out.rsp -o $out", "  rspfile = $out.rsp", "  rspfile_content = $in"]
    objs = []
    for s in sources():
        o = "lib/" + s.replace("/", "_") + ".o"
        extra = f["lib"] + " -O1"
        rule = "ccmain" if s == "src/main.cpp" else "cc"
        lines += [f"build {o}: {rule} {REPO / s}", f"  flags = {base} {extra}"]
        objs.append(o)
    harness = [SIM / s for s in f["sources"]] + sorted(SIM.glob(f["scenarios"]))
    for s in harness:
        o = "sim/" + s.name + ".o"
        h = base
        # the simulator itself is never instrumented for races or scheduling
        if s.name == "alloc.cpp":
            h = base.replace("-fsanitize=address", "")
        if flavour == "tsan" and s.name in ("core.cpp", "alloc.cpp", "env.cpp", "baton.cpp"):
            h = base.replace("-fsanitize=thread", "")
        lines += [f"build {o}: cc {s}", f"  flags = {h} -O1 -DFLAVOUR_{flavour.upper()}"]
        objs.append(o)
    wraps = " ".join(f"-Wl,--wrap={w}" for w in f["wrap"])
    lines += [f"build flsim: link {' '.join(objs)}",
              f"  flags = {f['common']} -g1 -static-libstdc++ -static-libgcc -rdynamic -pthread {wraps}"]
    (out / "build.ninja").write_text("\n".join(lines) + "\n")
    r = subprocess.run(["ninja", "--quiet", "-C", str(out), "flsim"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        sys.exit(2)
    print(out / "flsim")

main()
