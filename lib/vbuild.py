"""Builds a harness against a rewritten copy of the library's current working tree."""
import os, re, shutil, subprocess, hashlib, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

NAMES = ["atomic_thread_fence", "atomic_flag", "atomic_bool", "atomic_int", "atomic_uint", "atomic_long", "atomic_size_t",
         "atomic_uint32_t", "atomic_uint64_t", "atomic_int64_t", "atomic_ptrdiff_t", "atomic", "recursive_mutex", "shared_mutex",
         "timed_mutex", "mutex", "condition_variable_any", "condition_variable", "thread", "jthread", "this_thread", "once_flag",
         "call_once", "counting_semaphore", "binary_semaphore"]
RX = re.compile(r"\bstd\s*::\s*(" + "|".join(NAMES) + r")\b(?!\s*/)")
RXC = re.compile(r"\bstd\s*::\s*chrono\s*::\s*(steady_clock|system_clock|high_resolution_clock)\b")

def rewrite(text):
    out = []
    for line in text.split("\n"):
        if line.lstrip().startswith("#"):
            out.append(line); continue
        line = RXC.sub(r"vx::\1", line)
        line = RX.sub(r"vx::\1", line)
        line = line.replace("std::atomic_signal_fence", "vx::atomic_thread_fence")
        out.append(line)
    return "\n".join(out)

def gen_tree(dst):
    shutil.rmtree(dst, ignore_errors=True)
    for sub in ("include", "src"):
        for root, _, files in os.walk(os.path.join(REPO, sub)):
            for f in files:
                if not f.endswith((".hpp", ".cpp", ".h", ".ipp")): continue
                p = os.path.join(root, f)
                rel = os.path.relpath(p, REPO)
                q = os.path.join(dst, rel)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(p, encoding="utf-8", errors="replace") as fh: t = fh.read()
                with open(q, "w") as fh: fh.write(rewrite(t))
    ex = os.path.join(dst, "include", "coro", "export.hpp")
    if not os.path.exists(ex):
        with open(ex, "w") as fh:
            fh.write("#pragma once\n#define CORO_EXPORT\n#define CORO_NO_EXPORT\n#define CORO_DEPRECATED\n")

TS = re.compile(r"^\s+(call|jmp)\s+__tsan_(unaligned_|volatile_)?(read|write|vptr|func)")
RACE = ["-fno-inline", "-fno-optimize-sibling-calls", "-fno-reorder-blocks-and-partition", "-fno-pie"]
def only_library(asm):
    """keeps the instrumentation of the library's own functions; that of the standard library's is decided at run time by who called them,
    for which a table of all functions is added (section vxkind: address, size, 1 library / 2 standard library / 0 ours)"""
    files, out, cur, home, sym, group, n = {}, [], "", None, "", None, 0
    kind = lambda f: 1 if "/gen/" in f else 0 if f.startswith(VERIF) else 2
    for l in asm.split("\n"):
        s = l.lstrip()
        if s.startswith(".loc "):
            cur = files.get(s.split()[1], "")
            if home is None: home = kind(cur)
        elif s.startswith(".file "):
            m = re.match(r'\.file\s+(\d+)\s+(.*)', s)
            if m: files[m.group(1)] = "/".join(re.findall(r'"([^"]*)"', m.group(2)))
        elif s.startswith(".section"):
            m = re.match(r'\.section\s+[^,]+,"[^"]*G[^"]*",@\w+,([^,]+),comdat', s)
            group = m.group(1) if m else None
        elif s.startswith(".text"): group = None
        elif l and not l[0].isspace() and not l.startswith(".L") and l.rstrip().endswith(":"):
            sym, home, cur = l.rstrip()[:-1], None, ""; n += 1
            out.append(l); l = ".Lvxs%d:" % n
        elif s.startswith(".size") and home is not None and s.split()[1].split(",")[0] == sym:
            out += [".Lvxe%d:" % n, '\t.section vxkind,"%s",@progbits%s' % (("aG", ",%s,comdat" % group) if group else ("a", "")),
                    "\t.quad .Lvxs%d, .Lvxe%d-.Lvxs%d, %d" % (n, n, n, home), "\t.previous"]
            home = None
        elif "__tsan_" in l and TS.match(l):
            if "_func_" in l or not home or kind(cur) == 0: l = "\tret" if s.startswith("jmp") else ""
            elif home == 2: l = l.replace("__tsan_", "__tsan_std_")
        out.append(l)
    return "\n".join(out)

def build(name, harness, sources, defines=(), extra=(), ldflags=(), asan=True, opt="-O1", race=False):
    """returns path of the binary; raises RuntimeError(log) when the tree does not build.  race: memory accesses of the library are
    checked for happens-before (vx/vxrace.cpp) instead of for validity (AddressSanitizer)"""
    d = os.path.join(BUILD, name)
    gen = os.path.join(d, "gen")
    os.makedirs(d, exist_ok=True)
    gen_tree(gen)
    if race:
        asan = False; extra = list(extra) + ["vx/vxrace.cpp"]
        ldflags = list(ldflags) + ["-no-pie", "-Wl,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_allocate_exception"]
    vxd = os.path.join(VERIF, "vx")
    flags = ["-std=c++20", opt, "-g1", "-fno-strict-aliasing", "-fno-omit-frame-pointer", "-w", "-I", vxd, "-I", os.path.join(gen, "include"),
             "-include", os.path.join(vxd, "vx.hpp")] + ["-D" + x for x in defines]
    cov = bool(os.environ.get("VX_COV"))   # tools/cov.py: which lines of the library do the programs reach
    if cov: flags += ["--coverage", "-fprofile-update=atomic"]; opt = "-O0"; ldflags = list(ldflags) + ["--coverage", "-Wl,-u,__gcov_dump"]
    if asan: flags += ["-fsanitize=address"]
    jobs = [(os.path.join(vxd, "vx.cpp"), "vx.o"), (os.path.join(vxd, "hx.cpp"), "hx.o"), (os.path.join(VERIF, "harness", harness), "harness.o")]
    for s in extra: jobs.append((os.path.join(VERIF, s), "x_" + os.path.basename(s) + ".o"))
    for s in sources:
        p = os.path.join(gen, "src", s)
        if os.path.exists(p): jobs.append((p, "l_" + s.replace("/", "_") + ".o"))
    def one(j):
        src, o = j
        if race and (src.startswith(gen) or o == "harness.o"):
            a = os.path.join(d, o[:-2] + ".s")
            r = subprocess.run(["g++"] + flags + RACE + ["-fsanitize=thread", "-S", src, "-o", a], capture_output=True, text=True)
            if r.returncode: return r.returncode, src, r.stderr
            with open(a) as fh: t = only_library(fh.read())
            with open(a, "w") as fh: fh.write(t)
            r = subprocess.run(["g++", "-c", a, "-o", os.path.join(d, o)], capture_output=True, text=True)
            return r.returncode, src, r.stderr
        r = subprocess.run(["g++"] + flags + ["-c", src, "-o", os.path.join(d, o)], capture_output=True, text=True)
        return r.returncode, src, r.stderr
    with cf.ThreadPoolExecutor(8) as ex:
        for rc, src, err in ex.map(one, jobs):
            if rc: raise RuntimeError("compile failed: %s\n%s" % (src, err[:6000]))
    out = os.path.join(d, "harness")
    def link(more=()):
        return subprocess.run(["g++"] + (["-fsanitize=address"] if asan else []) + [os.path.join(d, o) for _, o in jobs] + list(more) + ["-o", out] + list(ldflags), capture_output=True, text=True)
    r = link()
    if r.returncode:
        # code may have moved to another file: offer all the other sources as an archive
        rest = []
        for root, _, files in os.walk(os.path.join(gen, "src")):
            for f in sorted(files):
                p = os.path.join(root, f)
                if f.endswith(".cpp") and os.path.relpath(p, os.path.join(gen, "src")) not in sources: rest.append((p, "r_" + os.path.relpath(p, gen).replace("/", "_") + ".o"))
        with cf.ThreadPoolExecutor(8) as ex: ok = [j[1] for j, (rc, _, _) in zip(rest, ex.map(one, rest)) if rc == 0]
        lib = os.path.join(d, "librest.a")
        if os.path.exists(lib): os.remove(lib)
        if ok:
            subprocess.run(["ar", "rcs", lib] + [os.path.join(d, o) for o in ok], check=True, capture_output=True)
            r = link([lib])
    if r.returncode: raise RuntimeError("link failed\n" + r.stderr[:6000])
    return out
