"""Concurrency checks: scheduling points in the LLVM module, and a native build of that very module for replays."""
import os, re, subprocess, glob

POINT = re.compile(r"^\s+(%\S+ = )?(atomicrmw|cmpxchg|store atomic|load atomic(?! .* monotonic,))")


def instrument(src, dst):
    """insert scheduling points before atomic operations; -> number of points"""
    n, skip = 0, False
    cpuid = re.compile(r"= .*call (\{ i32, i32, i32, i32 \}) asm .*cpuid.*")  # the replay sees the engine's processor: no optional features
    dbg = re.compile(r",? !dbg !\d+")
    with open(src) as f, open(dst, "w") as o:
        for l in f:
            if "!dbg" in l:
                l = dbg.sub("", l)
            if l.startswith("define"):
                skip = "__sched" in l or "7harness5sched" in l or "7harness3sym" in l
            if not skip:
                if POINT.match(l):
                    o.write("  call void @__sched_point()\n")
                    n += 1
                elif "@syscall(" in l and " call " in l:
                    l = l.replace("@syscall(", "@__sched_syscall(")
                elif "cpuid" in l:
                    l = cpuid.sub(r"= freeze \1 zeroinitializer", l)
            o.write(l)
    return n


def native(ll, out, here, entries):
    """compile the instrumented module with the replay driver; -> error text or None"""
    llc = glob.glob("/root/.rustup/toolchains/stable-*/lib/rustlib/*/bin/llc") or ["llc"]
    obj = out + ".o"
    p = subprocess.run([llc[0], "-O0", "--relocation-model=pic", "-filetype=obj", ll, "-o", obj], capture_output=True, text=True)
    if p.returncode:
        return "llc: " + p.stderr[-800:]
    lib = glob.glob("/root/.rustup/toolchains/1.83.0-*/lib/rustlib/x86_64-unknown-linux-gnu/lib/libcompiler_builtins-*.rlib")
    p = subprocess.run(["gcc", "-O1", "-DENTRIES=" + "".join(f"X({e})" for e in entries), "-o", out, os.path.join(here, "hw", "threads.c"), obj, *lib, "-lpthread", "-lm", "-ldl", "-lgcc_eh", "-lc"], capture_output=True, text=True)
    return "link: " + p.stderr[-1500:] if p.returncode else None
