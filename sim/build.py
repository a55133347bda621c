#!/usr/bin/env python3
"""Incremental build of the simulator: lib/*.c, util/*.c and src/fql.c of the
repository are compiled with address sanitizing and load/store callbacks, their
calls to the operating system are redirected to the simulator (objcopy
--redefine-syms), the ANTLR front end is compiled as it is, and everything is
linked with the runtime, the workload generator, the reference model and the
runner.  Object files are cached under OUT/obj by content hash."""
import concurrent.futures as cf, fcntl, hashlib, os, subprocess, sys, glob, time

R, OUT = os.path.abspath(sys.argv[1]), os.path.abspath(sys.argv[2])
HERE = os.path.dirname(os.path.abspath(__file__))
OBJ = os.path.join(OUT, "obj")
os.makedirs(OBJ, exist_ok=True)
lock = open(os.path.join(OUT, "lock"), "w")
fcntl.flock(lock, fcntl.LOCK_EX)

SEAM = """pthread_create pthread_exit pthread_join pthread_tryjoin_np pthread_mutex_init
pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal
pthread_cond_broadcast sched_yield usleep nanosleep sysconf rand random srand time exit _exit abort
atexit sigaction signal raise malloc calloc realloc strdup strndup open fopen fdopen close
write read mkstemp rename remove unlink chmod truncate access stat fstat mmap munmap
realpath isatty fsync fdatasync ftruncate link symlink mkdir rmdir
pthread_cond_timedwait pthread_detach sem_init sem_destroy sem_wait sem_post opendir readdir closedir""".split()
REDEF = os.path.join(OUT, "redef.syms")

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f:
        return f.read()

def write_if(p, s):
    if not os.path.exists(p) or rd(p).decode() != s:
        with open(p, "w") as f:
            f.write(s)

redef = "".join("%s sim_%s\n" % (s, s) for s in SEAM)
# variants the headers may turn calls into
for a in ("open64", "fopen64", "mkstemp64", "stat64", "fstat64", "mmap64", "readdir64", "__strdup", "truncate64"):
    redef += "%s sim_%s\n" % (a, a)
write_if(REDEF, redef)

inc = ["-I" + R + "/lib", "-I" + R + "/lib/include", "-I" + R + "/util", "-I" + R, "-I" + R + "/lib/antlr",
       "-I" + R + "/lib/antlr/gen"]
CINC = ["-I" + HERE + "/csv"] + ["-I" + R + "/lib/include", "-I" + R, "-I" + R + "/util", "-I" + R + "/lib"]
CFLAGS = ["-std=gnu17", "-w", "-O1", "-g1", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer", "-fsanitize=address",
          "-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores", "-fno-builtin-fputs",
          "-DSCHEMA_DATADIR=/nonexistent/fql/schema/"] + CINC
AFLAGS = ["-std=c++17", "-O1", "-w", "-I/usr/include/antlr4-runtime", "-include", HERE + "/antlr_compat.h"] + inc
SFLAGS = ["-std=c++17", "-O2", "-g1", "-Wall", "-Wno-unused-function", "-I" + HERE, "-I" + R + "/lib/include"]

hdr_c = b"".join(rd(p) for p in sorted(glob.glob(R + "/lib/*.h") + glob.glob(R + "/util/*.h") +
                 glob.glob(R + "/lib/include/*.h") + glob.glob(R + "/lib/antlr/*.h") + glob.glob(HERE + "/csv/*.h")))
hdr_a = hdr_c + b"".join(rd(p) for p in sorted(glob.glob(R + "/lib/antlr/*.h*") + glob.glob(R + "/lib/antlr/gen/*.h")
                                               + [HERE + "/antlr_compat.h"]))
hdr_s = b"".join(rd(p) for p in sorted(glob.glob(HERE + "/*.h"))) + rd(R + "/lib/include/fql.h")
gen_h = b"".join(rd(p) for p in sorted(glob.glob(R + "/lib/antlr/gen/*.h"))) + rd(HERE + "/antlr_compat.h")

jobs = []  # (src, objpath, cmdlist, redefine)
def add(src, kind, name):
    if kind == "c":
        cmd, h, re_ = ["clang"] + CFLAGS, hdr_c, True
    elif kind == "main":
        cmd, h, re_ = ["clang"] + CFLAGS + ["-Dmain=fql_main"], hdr_c, True
    elif kind == "csv":
        cmd, h, re_ = ["clang", "-std=gnu17", "-O1", "-g1", "-U_FORTIFY_SOURCE", "-fsanitize=address"] + CINC, hdr_c, True
    elif kind == "gen":
        cmd, h, re_ = ["g++"] + AFLAGS + ["-O0"], gen_h, False
    elif kind == "a":
        cmd, h, re_ = ["g++"] + AFLAGS, hdr_a, False
    else:
        cmd, h, re_ = ["clang++"] + SFLAGS, hdr_s, False
    key = sha(src if kind not in ("gen",) else name, " ".join(cmd), h, rd(src), redef if re_ else "")
    jobs.append((src, os.path.join(OBJ, name + "-" + key + ".o"), cmd, re_))

for p in sorted(glob.glob(R + "/lib/antlr/gen/*.cpp")):
    add(p, "gen", "g_" + os.path.basename(p)[:-4])
for p in sorted(glob.glob(R + "/lib/antlr/*.cpp")):
    add(p, "a", "a_" + os.path.basename(p)[:-4])
for p in sorted(glob.glob(R + "/lib/*.c")) + sorted(glob.glob(R + "/util/*.c")):
    add(p, "c", "c_" + os.path.basename(p)[:-2])
add(R + "/src/fql.c", "main", "m_fql")
add(HERE + "/harness.c", "c", "h_harness")
add(HERE + "/csv/csvsim.c", "csv", "csvsim")
for p in sorted(glob.glob(HERE + "/*.cpp")):
    add(p, "s", "s_" + os.path.basename(p)[:-4])

def run(job):
    src, obj, cmd, re_ = job
    if os.path.exists(obj):
        os.utime(obj)
        return None
    tmp = obj + ".tmp.o"
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return "%s\n%s" % (src, r.stdout.decode(errors="replace")[-4000:])
    if re_:
        r = subprocess.run(["objcopy", "--redefine-syms=" + REDEF, tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return "%s\n%s" % (src, r.stdout.decode())
    os.rename(tmp, obj)
    return None

t0 = time.time()
big = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
    errs = [e for e in ex.map(run, big) if e]
if errs:
    sys.stderr.write("BUILD FAILED\n" + "\n".join(errs) + "\n")
    sys.exit(2)
key = sha(*[j[1] for j in jobs])
binp = os.path.join(OUT, "fqlsim-" + key)
if not os.path.exists(binp):
    tmp = binp + ".tmp"
    r = subprocess.run(["clang++", "-fsanitize=address", "-no-pie", "-o", tmp] + [j[1] for j in jobs] +
                       ["-lantlr4-runtime", "-lpcre2-8", "-lreadline", "-lpthread"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write("LINK FAILED\n" + r.stdout.decode(errors="replace")[-6000:] + "\n")
        sys.exit(2)
    os.rename(tmp, binp)
os.utime(binp)
# keep the cache small
def prune(pat, keep):
    fs = sorted(glob.glob(pat), key=os.path.getmtime)
    for f in fs[:-keep]:
        try:
            os.remove(f)
        except OSError:
            pass
prune(os.path.join(OUT, "fqlsim-*"), 6)
prune(os.path.join(OBJ, "*.o"), 600)
sys.stderr.write("built in %.1fs\n" % (time.time() - t0))
print(binp)
