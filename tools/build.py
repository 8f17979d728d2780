#!/usr/bin/env python3
"""Builds the simulators of /verif/sim against the sources of /repo's working tree (ninja, clang, ASan).

usage: build.py [target ...]     targets: simulator names (default: all)
"""
import glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

# executable -> world sources
SIMS = {
    "events": ["w_events"],
    "graph": ["w_graph"],
    "vars": ["w_vars"],
    "problem": ["w_problem", "w_subst"],
    "loop": ["w_loop"],
    "function": ["w_function"],
}
THREADS = "threads"


def sims():
    return {k: v for k, v in SIMS.items() if all(os.path.exists(f"{VERIF}/sim/{s}.cpp") for s in v)}


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)


def repo_sources():
    src = sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True))
    skip = lambda p: "/src/robot/" in p or p.endswith("/Robot.cpp") or p.endswith("/utils/sch.cpp")
    return [p for p in src if not skip(p)]


def generate():
    gen = f"{BUILD}/gen"
    sup = open(f"{REPO}/include/tvm/supported_solvers.in.h").read()
    for s in ("LSSOL", "QLD", "QUADPROG", "LEXLS"):
        sup = sup.replace(f"@TVM_USE_{s}@", f"#define TVM_USE_{s}")
    write_if_changed(f"{gen}/tvm/supported_solvers.h", sup)
    inc = (f"-I{gen} -I{VERIF}/sim/gen -I{VERIF}/sim/fakes -I{VERIF}/sim -I{REPO}/include "
           f"-I{REPO}/3rd-party/mpark -I{REPO}/3rd-party -isystem /usr/include/eigen3")
    common = f"-std=c++17 -w -g1 -fno-omit-frame-pointer -DTVM_EXPORTS -DEIGEN_RUNTIME_NO_MALLOC {inc}"
    asan = "-fsanitize=address -fno-pie"
    n = []
    n.append("ninja_required_version = 1.5")
    n.append(f"builddir = {BUILD}")
    n.append(f"""rule cxx
  command = clang++ {common} $flags -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CXX $out
rule ar
  command = rm -f $out && llvm-ar-18 rcs $out $in || ar rcs $out $in
rule link
  command = clang++ {asan} -no-pie -Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc $in -o $out -lpthread
""")
    objs = []

    def cxx(src, flags, tag):
        o = f"{BUILD}/obj/{tag}/" + src.strip("/").replace("/", "_") + ".o"
        n.append(f"build {o}: cxx {src}\n  flags = {flags}")
        return o

    lib = [cxx(s, f"-O1 {asan}", "asan") for s in repo_sources()]
    n.append(f"build {BUILD}/libtvm.a: ar " + " ".join(lib))
    eng = [cxx(f"{VERIF}/sim/{s}.cpp", f"-O1 {asan}", "asan") for s in ("runner",)]
    eng.append(cxx(f"{VERIF}/sim/heap.cpp", "-O2 -fno-pie -DSIM_ASAN", "plain"))
    eng.append(cxx(f"{VERIF}/sim/qp.cpp", "-O2 -fno-pie -DNDEBUG", "plain"))
    for name, ws in sims().items():
        w = [cxx(f"{VERIF}/sim/{s}.cpp", f"-O1 {asan}", "asan") for s in ws]
        n.append(f"build {BUILD}/{name}: link " + " ".join(w + eng) + f" {BUILD}/libtvm.a")
        n.append(f"build {name}: phony {BUILD}/{name}")
    if os.path.exists(f"{VERIF}/sim/interleave.cpp"):
        # real code instrumented by the compiler; the run-time interface of the instrumentation is interleave.cpp
        tsan = "-O1 -fsanitize=thread -fno-pie -mllvm -tsan-instrument-func-entry-exit=0"
        plain = "-O1 -fno-pie -DSIM_THREADS"
        t = [cxx(s, tsan, "thr") for s in thread_sources()]
        t += [cxx(f"{VERIF}/sim/{s}.cpp", plain, "thr") for s in ("interleave", "w_vars", "runner")]
        t += [cxx(f"{VERIF}/sim/heap.cpp", "-O2 -fno-pie", "thr"), eng[2]]
        wraps = ",".join("--wrap=" + x for x in (
            "malloc free realloc calloc pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock "
            "pthread_rwlock_wrlock pthread_rwlock_unlock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort").split())
        n.append(f"""rule linkthr
  command = clang++ -no-pie -Wl,{wraps} $in -o $out -lpthread""")
        n.append(f"build {BUILD}/{THREADS}: linkthr " + " ".join(t))
        n.append(f"build {THREADS}: phony {BUILD}/{THREADS}")
    write_if_changed(f"{BUILD}/build.ninja", "\n".join(n) + "\n")


def thread_sources():
    names = ("Variable", "VariableVector", "Space", "Range", "internal/VariableCountingVector", "internal/RangeCounting",
             "internal/ObjWithId", "ObjWithId", "internal/IdProvider")
    return [p for p in (f"{REPO}/src/{s}.cpp" for s in names) if os.path.exists(p)]


def main(targets):
    os.makedirs(BUILD, exist_ok=True)
    generate()
    r = subprocess.run(["ninja", "-C", BUILD, "-k", "0", "-f", f"{BUILD}/build.ninja"] + list(targets),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("BUILD FAILED")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
