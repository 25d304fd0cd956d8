#!/usr/bin/env python3
# Builds one simulation binary per file of scn/ from /repo's working tree.
import os, sys, glob, subprocess
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))

WRAP = """malloc free realloc calloc strdup abort __assert_fail
pthread_create pthread_join pthread_self pthread_setname_np pthread_sigmask
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
sched_yield gettid getpid getuid clock_gettime gettimeofday time nanosleep usleep rand getrandom
mmap munmap mremap
open open64 close read write writev pread pread64 pwrite pwrite64 pwritev lseek lseek64 fsync fdatasync sync_file_range
ftruncate ftruncate64 lstat stat fstat access chmod unlink rename link symlink readlink mkdir rmdir flock
opendir readdir readdir64 closedir
eventfd epoll_create epoll_create1 epoll_ctl epoll_wait
socket bind listen accept connect getsockopt setsockopt getsockname getpeername fcntl ioctl isatty
getaddrinfo freeaddrinfo""".split()

DIRS = """runtime runtime/base runtime/os runtime/lib runtime/json runtime/runtime
server server/user server/auth server/http server/client server/server
db db/row db/transaction db/storage db/object db/tier db/heap db/index db/part db/catalog db/wal db/service db/db""".split()

# the whole system: db/service does not compile at this commit, scn/shim stands in for it
FULL = """sync sync/backup sync/repl vm vm/value vm/set vm/output vm/func vm/executor vm/vm
compiler compiler/parser compiler/plan compiler/compiler
system system/api system/backend system/frontend system/session system/system""".split()

def full_sources():
    r = []
    for top in ("sync", "vm", "compiler", "system"):
        for d in sorted(glob.glob(f"{R}/amelie/{top}/*/")):
            r += sorted(glob.glob(d + "*.c"))
    return r + sorted(glob.glob(f"{R}/amelie/db/db/*.c"))

def sources():
    r = []
    for top in ("runtime", "server", "db"):
        for d in sorted(glob.glob(f"{R}/amelie/{top}/*/")):
            name = os.path.basename(d.rstrip("/"))
            if top == "db" and name in ("service", "db"):
                continue      # does not compile at this commit
            r += sorted(glob.glob(d + "*.c"))
    return r

def generate(targets):
    os.makedirs(B, exist_ok=True)
    inc = " ".join(f"-I{R}/amelie/{d}" for d in DIRS)
    full = f"-I{V}/scn/shim " + inc.replace(f"-I{R}/amelie/db/service ", "") + " " + " ".join(f"-I{R}/amelie/{d}" for d in FULL)
    san = "-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0"
    n = []
    n.append(f"builddir = {B}")
    n.append("rule repo\n command = clang -std=gnu11 -O0 -g1 -w -fno-pie -fno-omit-frame-pointer -D_GNU_SOURCE $san $inc -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc")
    n.append(f"rule scn\n command = clang -std=gnu11 -O1 -g1 -Wall -Wno-unused-function -fno-pie -D_GNU_SOURCE $san -I{V}/sim -I{V}/scn $inc -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc")
    n.append("rule frepo\n command = clang -std=gnu11 -O0 -g1 -w -fno-pie -fno-omit-frame-pointer -D_GNU_SOURCE $san $full -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc")
    n.append(f"rule fscn\n command = clang -std=gnu11 -O1 -g1 -Wall -Wno-unused-function -fno-pie -D_GNU_SOURCE $san -I{V}/sim -I{V}/scn $full -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc")
    n.append("rule sim\n command = clang++ -std=gnu++17 -O2 -g1 -Wall -fno-pie -fno-exceptions -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc")
    n.append("rule link\n command = clang++ -no-pie @$out.rsp -o $out -lpthread -lssl -lcrypto -lpcre2-8 -lzstd -lm\n rspfile = $out.rsp\n rspfile_content = $in $wrap")
    n.append(f"san = {san}\ninc = {inc}\nfull = {full}")
    n.append("wrap = " + " ".join(f"-Wl,--wrap={w}" for w in WRAP))
    objs = []
    for s in sources():
        o = f"{B}/repo/" + os.path.relpath(s, R + "/amelie").replace("/", "_") + ".o"
        n.append(f"build {o}: repo {s}")
        objs.append(o)
    sims = []
    for s in ("core", "io", "run"):
        o = f"{B}/sim/{s}.o"
        n.append(f"build {o}: sim {V}/sim/{s}.cpp")
        sims.append(o)
    fobjs = []
    for s in full_sources():
        o = f"{B}/repo/" + os.path.relpath(s, R + "/amelie").replace("/", "_") + ".o"
        n.append(f"build {o}: frepo {s}")
        fobjs.append(o)
    n.append(f"build {B}/scn/shim_service.o: fscn {V}/scn/shim/service.c")
    fobjs.append(f"{B}/scn/shim_service.o")
    for s in sorted(glob.glob(f"{V}/scn/*.c")):
        b = os.path.basename(s)[:-2]
        if b.startswith("sys_"):
            n.append(f"build {B}/scn/{b}.o: fscn {s}")
            n.append(f"build {B}/{b}: link {B}/scn/{b}.o {' '.join(sims)} {' '.join(objs)} {' '.join(fobjs)}")
            continue
        n.append(f"build {B}/scn/{b}.o: scn {s}")
        n.append(f"build {B}/{b}: link {B}/scn/{b}.o {' '.join(sims)} {' '.join(objs)}")
    text = "\n".join(n) + "\n"
    path = f"{B}/build.ninja"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    return subprocess.run(["ninja", "-C", B, "-j8", "--quiet"] + [f"{B}/{t}" for t in targets]).returncode

if __name__ == "__main__":
    t = sys.argv[1:] or [os.path.basename(s)[:-2] for s in sorted(glob.glob(f"{V}/scn/*.c"))]
    sys.exit(generate(t))
