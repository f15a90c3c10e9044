"""Per-check build configuration and wording used by run.py and tools/mkmanifest.py."""
COMMON_ASSUMPTIONS = [
    "x86-64, g++ -O2 (asserts and libstdc++ bounds assertions on), SSE single precision without FMA contraction, glibc libm; the harness is compiled from /repo's working tree on this run",
    "tolerances are a small multiple of the rounding error of the formula, so deviations below single-precision accuracy are not reported",
]
ASAN = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_SANITIZE_VECTOR=1"]
CHECKS = {}
from notes import NOTE
def check(pid, technique, **kw):
    CHECKS[pid] = dict(technique=technique, note=NOTE[pid], **kw)

X = "bounded exhaustive state enumeration of the implementation against a reference model"
check("C01", X)
check("C02", X)
check("C03", X)
check("C04", X)
check("C05", X)
check("C06", X)
check("C07", X)
check("C08", X)
check("C09", X)
check("C10", X)
check("C11", X)
check("C12", X)
check("C13", X)
check("C14", X)
check("C15", X)
check("C16", X)
check("C17", X)
check("C18", X, flags=ASAN)
check("C20", X)
check("C31", X)
check("C33", X)
import os as _os
_LIB = _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "lib")
check("C19", X)
check("C21", X, flags=["-O2", f'-DVERIF_LIB="{_LIB}"'])
check("C32", X)
check("C22", X, flags=ASAN)
check("C23", X)
check("C24", "explicit-state breadth-first search of a byte-file model, every transition replayed on the real class, plus unmerged operation sequences", flags=ASAN)
check("C25", X, flags=ASAN)
NOT_APPLICABLE = {}
def ops_build(flags, exe_flags, src, link_so=()):
    def b(ROOT, REPO, work, BASE):
        import subprocess
        so, exe = _os.path.join(work, "libops.so"), _os.path.join(work, "check")
        for cmd in (BASE + flags + ["-fPIC", "-c", _os.path.join(ROOT, "lib", "ops.cpp"), "-o", _os.path.join(work, "ops.o")],
                    ["g++", "-shared", _os.path.join(work, "ops.o"), "-o", so, "-Wl,-z,now"] + list(link_so),
                    BASE + exe_flags + [_os.path.join(ROOT, "checks", src), "-o", exe, so, f"-Wl,-rpath,{work}"]):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return False, r.stdout
        return True, ""
    return b
check("C26", "explicit-state exploration of call histories on the real library (state = its static and thread-local memory)", build=ops_build(["-O1"], ["-O2"], "c26.cpp"))
_WRAP = ["-Wl," + ",".join("--wrap=" + s for s in "memcpy memmove memset memcmp pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort".split())]
check("C27", "stateless model checking of two-thread interleavings under a controlled scheduler (preemption-bounded, happens-before race detection)",
      build=ops_build(["-O1", "-fsanitize=thread", "-fno-builtin"], ["-O2", "-rdynamic", "-pthread"], "c27.cpp", _WRAP))
check("C28", "explicit enumeration of all bounded walks of the conversion graph on the implementation against a reference model")
check("C29", X, flags=ASAN)
check("C30", "bounded exhaustive enumeration of values and of operation histories on the implementation against a pure model", flags=ASAN)
check("C34", "exhaustive exploration of the environment dimension (process locale, stream state) on the implementation, all bounded texts x all configurations", flags=["-O2", f'-DVERIF_LIB="{_LIB}"'])
check("C35", "bounded exhaustive enumeration of values, texts, pairs and operation histories on the implementation (64-bit integer configuration) against exact integers", flags=ASAN)
def _par(cmds):
    import subprocess
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda c: subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), cmds):
            if r.returncode: return False, r.stdout
    return True, ""
def life_build(ROOT, REPO, work, BASE):
    from itertools import permutations
    lib = lambda f: _os.path.join(ROOT, "lib", f)
    W = lambda f: _os.path.join(work, f)
    thorough = _os.environ.get("VERIF_TIER") == "thorough"
    lv = {"gccO2": ("g++", "-O2", 6), "gccO0": ("g++", "-O0", 6 if thorough else 2)}
    lv["clangO1"] = ("clang++", "-O1", 6 if thorough else 1)
    first = [BASE + ["-O1", "-c", lib("life.cpp"), "-o", W("life.o")], BASE + ["-O1", "-c", lib("ops.cpp"), "-o", W("ops.o")],
             BASE + ["-O2", "-c", _os.path.join(ROOT, "checks", "c36.cpp"), "-o", W("c36.o")]]
    links, names = [["g++", W("c36.o"), W("ops.o"), "-o", W("check")]], []
    for n, (cc, o, k) in lv.items():
        for i, u in enumerate("abc"):
            first.append([cc] + BASE[1:] + [o, f"-DOPS_NAME=ops_{u}", f"-DOPS_LIFE={i}", "-c", lib("ops.cpp"), "-o", W(f"{n}-{u}.o")])
        perm = list(permutations("abc"))
        perm = perm if k == 6 else [perm[0], perm[-1]][:k]
        for q, p in enumerate(perm):
            names.append(f"{n}-{''.join(p)}")
            objs = [W(f"{n}-{u}.o") for u in p]
            links.append(["g++"] + (objs + [W("life.o")] if q % 2 == 0 else [W("life.o")] + objs) + ["-o", W(names[-1])])
    ok, text = _par(first)
    if ok: ok, text = _par(links)
    if ok: open(W("probes.txt"), "w").write("\n".join(names) + "\n")
    return ok, text
check("C36", "exhaustive enumeration of program phases x calling translation units x link orders x operations, executed on probe programs built from the implementation", build=life_build)
# C37: (name, compiler, standard, flags); the first of each list is the reference and has to compile, others are left out if they do not
_BASIC = [("g++", "c++14", "-O1"), ("g++", "c++14", "-O0"), ("g++", "c++14", "-O2"), ("g++", "c++14", "-O3"), ("g++", "c++14", "-O2 -DNDEBUG"),
          ("g++", "c++17", "-O2"), ("g++", "c++20", "-O2"), ("g++", "c++23", "-O1 -DNDEBUG"), ("g++", "c++14", "-O1 -funsigned-char -D_GLIBCXX_DEBUG"),
          ("g++", "c++14", "-O1 -fsanitize=undefined -fno-sanitize-recover=all"), ("clang++", "c++14", "-O0"), ("clang++", "c++17", "-O2"), ("clang++", "c++20", "-O3 -DNDEBUG")]
_MORE = [("g++", "c++14", "-Os"), ("g++", "c++17", "-O3 -DNDEBUG"), ("g++", "c++14", "-O2 -fno-strict-aliasing"), ("clang++", "c++14", "-O2 -DNDEBUG"), ("clang++", "c++23", "-O1 -funsigned-char")]
_JSON = _BASIC + [("g++", "c++98", "-O2"), ("g++", "c++11", "-O2 -DNDEBUG"), ("clang++", "c++98", "-O1"), ("g++", "c++14", "-O1 -DPICOJSON_USE_LOCALE=0"), ("g++", "c++17", "-O2 -DPICOJSON_USE_RVALUE_REFERENCE=0")]
_INT = [(c, s, f + " -DPICOJSON_USE_INT64") for c, s, f in _JSON]
def config_build(ROOT, REPO, work, BASE):
    import subprocess
    from concurrent.futures import ThreadPoolExecutor
    more = _MORE if _os.environ.get("VERIF_TIER") == "thorough" else []
    jobs, lines, missing = [], [], []
    for kind, src, cfgs in (("ops", "ops.cpp", _BASIC + more), ("json", "jops.cpp", _JSON + more), ("int64", "jops.cpp", _INT)):
        for q, (cc, std, fl) in enumerate(cfgs):
            jobs.append((kind, q, [cc] + [a for a in BASE[1:] if not a.startswith("-std=") and not (std == "c++98" and a in ("-include", "cstdint", "cstring"))] + ["-std=" + std] + fl.split() +
                         ["-fPIC", "-shared", _os.path.join(ROOT, "lib", src), "-o", _os.path.join(work, f"{kind}{q}.so"), "-Wl,-Bsymbolic", "-Wl,-z,now"] + (["-fno-gnu-unique"] if cc == "g++" else []), f"{cc} -std={std} {fl}"))
    jobs.append(("check", 0, BASE + ["-O2", "-DTOL=1e-5", "-DABS=1e-2", _os.path.join(ROOT, "checks", "c37.cpp"), "-o", _os.path.join(work, "check"), "-ldl"], ""))
    with ThreadPoolExecutor(8) as ex:
        done = list(ex.map(lambda j: subprocess.run(j[2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), jobs))
    for (kind, q, cmd, name), r in zip(jobs, done):
        if r.returncode and (q == 0 or kind == "check"): return False, r.stdout
        if kind == "check": continue
        if r.returncode: missing.append(f"{kind}: {name}")
        else: lines.append(f"{kind} {kind}{q}.so {name}")
    open(_os.path.join(work, "configs.txt"), "w").write("\n".join(lines) + "\n")
    if missing: print("configurations that do not compile (left out): " + "; ".join(missing))
    return True, ""
check("C37", "exhaustive enumeration of build configurations x operations x argument sets and texts, executed on the implementation, results compared between configurations", build=config_build)
check("C38", "exhaustive enumeration of document trees x every event x every reaction of the context (continue, refuse, throw, skip, build) on the implementation against the event list of the model", flags=["-O1"])
check("C39", "exhaustive fault injection: every single and every pair of failing allocations of every operation, on the implementation, against old-or-new-state models", flags=ASAN)
check("C40", "exhaustive enumeration of value and token sequences: the model reads the text value by value in lock-step with the implementation, position and look-ahead compared after every step", flags=ASAN)
def ct_build(ROOT, REPO, work, BASE):
    import re, subprocess
    from concurrent.futures import ThreadPoolExecutor
    lib = _os.path.join(ROOT, "lib")
    ids = re.findall(r"^    X\((\d+),", open(_os.path.join(lib, "ct.hpp")).read(), re.M)
    most = "-DCT_MOST=" + ("60000" if _os.environ.get("VERIF_TIER") == "thorough" else "6000")
    B = [a for a in BASE if not a.startswith("-std=")]
    jobs = [(i, s, B + [f"-std={s}", most, "-fconstexpr-ops-limit=9000000000", "-fconstexpr-loop-limit=100000000", "-fconstexpr-depth=4000", f"-DCT_ONE={i}"] + (["-DCT_14"] if s == "c++14" else []) +
             ["-c", _os.path.join(lib, "ct.cpp"), "-o", _os.path.join(work, f"{s}-{i}.o")]) for s in ("c++17", "c++14") for i in ids]
    jobs.insert(0, ("check", "", BASE + ["-O1", most, "-c", _os.path.join(ROOT, "checks", "c41.cpp"), "-o", _os.path.join(work, "c41.o")]))
    with ThreadPoolExecutor(8) as ex:
        done = list(ex.map(lambda j: subprocess.run(j[2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), jobs))
    if done[0].returncode: return False, done[0].stdout
    objs = [_os.path.join(work, f"{j[1]}-{j[0]}.o") for j, r in zip(jobs[1:], done[1:]) if r.returncode == 0]
    miss = [f"{j[0]} ({j[1]})" for j, r in zip(jobs[1:], done[1:]) if r.returncode]
    if not objs: return False, done[1].stdout
    if miss: print("operations that are not constant expressions (left out): " + ", ".join(miss))
    r = subprocess.run(["g++", _os.path.join(work, "c41.o")] + objs + ["-o", _os.path.join(work, "check"), "-pthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout
check("C41", "exhaustive enumeration of argument combinations evaluated twice, by the compiler as constant expressions and by the program, tables compared entry by entry", build=ct_build)
