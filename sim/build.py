#!/usr/bin/env python3
"""Builds the simulator host and the PE modules (OSHMPI objects) from /repo's working tree."""
import sys, os, re, subprocess, hashlib, shutil, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
NPE = 20
CC = "gcc"; CXX = "g++"

BASE_DEFS = """HAVE_ATEXIT=1 HAVE_ATOL=1 HAVE_FCNTL_H=1 HAVE_GCC_ATTRIBUTE=1 HAVE_INTTYPES_H=1 HAVE_MATH_H=1
HAVE_MEMCPY=1 HAVE_MEMSET=1 HAVE_MPI_H=1 HAVE_MPI_IALLGATHER=1 HAVE_MPI_IALLGATHERV=1 HAVE_MPI_IALLREDUCE=1
HAVE_MPI_IALLTOALL=1 HAVE_MPI_IBARRIER=1 HAVE_MPI_IBCAST=1 HAVE_RANDOM_R=1 HAVE_STDINT_H=1 HAVE_STDIO_H=1
HAVE_STDLIB_H=1 HAVE_STRING_H=1 HAVE_STRINGS_H=1 HAVE_STRTOF=1 HAVE_STRUCT_RANDOM_DATA=1 HAVE_SYS_MMAN_H=1
HAVE_SYS_STAT_H=1 HAVE_SYS_TIME_H=1 HAVE_SYS_TYPES_H=1 HAVE_UNISTD_H=1 HAVE_WCHAR_H=1
OSHMPI_HAVE_CXX=1 OSHMPI_MPI_PTRDIFF_T=MPI_INT64_T OSHMPI_MPI_SIZE_T=MPI_UINT64_T SIZEOF_INT16_T=2
SIZEOF_INT32_T=4 SIZEOF_INT64_T=8 SIZEOF_INT8_T=1 SIZEOF_PTRDIFF_T=8 SIZEOF_SIZE_T=8 SIZEOF_UINT16_T=2
SIZEOF_UINT32_T=4 SIZEOF_UINT64_T=8 SIZEOF_UINT8_T=1 OSHMPI_ENABLE_SYMM_ALLOC=1 USE_LINUX=1""".split()

# the configure-time variants (values independent of the repository's build files)
VARIANTS = {
    # what the test suite builds
    "ser":   ["OSHMPI_ENABLE_THREAD_SERIALIZED", "OSHMPI_DISABLE_AM_ASYNC_THREAD", "OSHMPI_ENABLE_OP_TRACKING",
              "OSHMPI_ENABLE_STRIDED_DTYPE_CACHE"],
    # --enable-threads=multiple, async thread decided at run time (default yes)
    "mt":    ["OSHMPI_ENABLE_THREAD_MULTIPLE", "OSHMPI_ENABLE_OP_TRACKING", "OSHMPI_ENABLE_STRIDED_DTYPE_CACHE",
              "OSHMPI_THREAD_CS_LOCK=OSHMPI_THREAD_CS_LOCK__PTHREAD_MUTEX"],
    # --enable-amo=am --enable-rma=am, no tracking, no cache
    "am":    ["OSHMPI_ENABLE_THREAD_FUNNELED", "OSHMPI_DISABLE_AM_ASYNC_THREAD", "OSHMPI_ENABLE_AM_AMO", "OSHMPI_ENABLE_AM_RMA"],
    # --enable-amo=direct --enable-rma=direct
    "direct": ["OSHMPI_ENABLE_THREAD_SERIALIZED", "OSHMPI_DISABLE_AM_ASYNC_THREAD", "OSHMPI_ENABLE_DIRECT_AMO", "OSHMPI_ENABLE_DIRECT_RMA"],
    # dynamic window, data segment and heap at equal addresses where possible
    "dyn":   ["OSHMPI_ENABLE_THREAD_SERIALIZED", "OSHMPI_DISABLE_AM_ASYNC_THREAD", "OSHMPI_ENABLE_DYNAMIC_WIN",
              "OSHMPI_ENABLE_OP_TRACKING", "OSHMPI_ENABLE_STRIDED_DTYPE_CACHE"],
    # --enable-fast, single threaded
    "fast":  ["OSHMPI_ENABLE_THREAD_SINGLE", "OSHMPI_DISABLE_AM_ASYNC_THREAD", "OSHMPI_DISABLE_DEBUG", "OSHMPI_FAST_OPTS=-O3"],
    # multiple threads with the async thread compiled in, no op tracking, dynamic window
    "mtdyn": ["OSHMPI_ENABLE_THREAD_MULTIPLE", "OSHMPI_ENABLE_AM_ASYNC_THREAD", "OSHMPI_ENABLE_DYNAMIC_WIN",
              "OSHMPI_THREAD_CS_LOCK=OSHMPI_THREAD_CS_LOCK__PTHREAD_MUTEX"],
}
SYMMDATA = {"dyn", "mtdyn"}

WRAP = """malloc calloc realloc free posix_memalign memalign aligned_alloc valloc reallocarray strdup strndup
mmap munmap mremap msync madvise mprotect sysconf getpagesize gettimeofday clock_gettime time usleep nanosleep sleep
sched_yield getenv secure_getenv setenv exit _exit abort atexit random srandom rand srand
pthread_attr_init pthread_attr_destroy pthread_attr_setdetachstate pthread_attr_setscope pthread_attr_setstacksize
pthread_create pthread_join pthread_detach pthread_self pthread_exit pthread_cancel pthread_kill pthread_yield
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal pthread_cond_broadcast
pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock
pthread_once getpid gethostname memcpy memmove
printf fprintf vfprintf puts fputs fputc putchar putc fwrite fflush perror
__assert_fail __printf_chk __fprintf_chk __vfprintf_chk""".split()

# symbols OSHMPI may take straight from libc/libm: deterministic and free of side effects
PURE_OK = re.compile(r"^(mem\w+|str\w+|sn?printf|vsnprintf|__\w*_chk|sprintf|ato\w+|isspace|tolower|toupper|qsort|bsearch|ceil\w*|floor\w*|pow\w*|fmod\w*|fabs\w*|sqrt\w*|log\w*|exp\w*|"
    r"abs|labs|llabs|div|ldiv|initstate_r|random_r|srandom_r|setstate_r|rand_r|stdout|stderr|stdin|__errno_location|__ctype\w+|__isoc\w+|"
    r"_ITM\w+|__gmon_start__|__cxa_finalize|__stack_chk_fail|__sanitizer_cov_trace_pc|__tls_get_addr|_GLOBAL_OFFSET_TABLE_|"
    r"pthread_\w*attr_\w+|creal\w*|cimag\w*|__mul[sdx]c3|__udivti3|__divti3|__umodti3|sim_\w+|MPI_\w+|frexp\w*|ldexp\w*|round\w*|lround\w*|trunc\w*)$")

# the shared object itself: "-lgcc_s" would also pull in libgcc.a, which defines __wrap_pthread_create (split stacks)
LIBGCC_S = subprocess.run(["gcc", "-print-file-name=libgcc_s.so.1"], stdout=subprocess.PIPE, text=True).stdout.strip() or "-lgcc_s"

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise SystemExit("BUILD-ERROR: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout

def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()[:20]

def repo_inputs():
    out = []
    for root in ("src", "include", "maint"):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            if "openpa" in d: continue
            for f in fs:
                if f.endswith((".c", ".h", ".tpl", ".pl", ".txt", ".mk", ".in")) and not f.endswith("~"):
                    out.append(os.path.join(d, f))
    out.append(os.path.join(REPO, "autogen.sh"))
    return out

def generate(gen):
    """Out-of-tree equivalent of autogen.sh's code generation, driven by autogen.sh itself."""
    shutil.rmtree(gen, ignore_errors=True)
    os.makedirs(gen + "/include"); 
    for d in ("include", "src"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(gen, d), dirs_exist_ok=True, symlinks=True,
            ignore=shutil.ignore_patterns("openpa", "*.o", "*.lo", ".deps", ".libs"))
    shutil.copytree(os.path.join(REPO, "maint"), gen + "/maint")
    text = open(os.path.join(REPO, "autogen.sh")).read().replace("\\\n", " ")
    # drop previously generated files: they must come from the templates
    for m in re.finditer(r"--outfile\s+(\S+)", text):
        p = os.path.join(gen, m.group(1))
        if os.path.exists(p): os.remove(p)
    shutil.copy(gen + "/include/shmem.h.in.tpl", gen + "/include/shmem.h.in")
    for line in text.splitlines():
        line = line.strip()
        m = re.match(r"(?:perl\s+)?(\./)?maint/(build_\w+_api\.pl)\s+(.*)", line)
        if m:
            run(["perl", "maint/" + m.group(2)] + m.group(3).split(), cwd=gen)
            continue
        m = re.match(r'insert_file_by_key\s+"([^"]+)"\s+(\S+)\s+(\S+)', line)
        if m:
            key, f, orig = m.groups()
            body = open(os.path.join(gen, f)).read()
            o = os.path.join(gen, orig)
            res = []
            for l in open(o):
                res.append(l)
                if key in l: res.append(body if body.endswith("\n") else body + "\n")
            open(o, "w").write("".join(res))
    sub = {"@OSHMPI_VERSION@": "2.1a1", "@OSHMPI_NUMVERSION@": "20100101", "@OSHMPI_RELEASE_DATE@": "unreleased",
           "@CONFIGURE_ARGS_CLEAN@": ""}
    for h in ("shmem.h", "shmemx.h"):
        t = open(gen + "/include/%s.in" % h).read()
        for k, v in sub.items(): t = t.replace(k, v)
        open(gen + "/include/" + h, "w").write(t)

def sources(gen):
    srcs = []
    for mk in glob.glob(gen + "/src/**/Makefile.mk", recursive=True) + glob.glob(gen + "/src/Makefile.mk"):
        t = open(mk).read().replace("\\\n", " ")
        for m in re.finditer(r"liboshmpi_la_SOURCES\s*\+?=\s*(.*)", t):
            srcs += m.group(1).split()
    srcs = sorted(set(s for s in srcs if s.endswith(".c") and not s.endswith("gpu/ze.c")))
    return [s for s in srcs if os.path.exists(os.path.join(gen, s))]

G11_TYPES = """float double longdouble char schar short int long longlong uchar ushort uint ulong ulonglong int8 int16 int32 int64
uint8 uint16 uint32 uint64 size ptrdiff complexd complexf""".split()

def generic_wrappers(gen):
    """One function g11__F per typed function F, which calls the C11 type-generic macro of the built shmem.h
    with the argument types of F, so that the simulated application can use that interface as well."""
    t = re.sub(r"/\*.*?\*/", "", open(gen + "/include/shmem.h").read(), flags=re.S)
    macros = set(re.findall(r"#\s*define\s+(shmem_\w+)\s*\(\.\.\.\)", t))
    t = re.sub(r"(?m)^\s*#.*$", "", t.replace("\\\n", ""))
    out = []
    rx = re.compile(r"shmem_(ctx_)?(%s)_(\w+)$" % "|".join(sorted(G11_TYPES, key=len, reverse=True)))
    for m in re.finditer(r"([A-Za-z_][\w\s\*]*?)\b(shmem_\w+)\s*\(([^()]*)\)\s*;", t):
        ret, name, args = [x.strip() for x in m.groups()]
        mm = rx.match(name)
        if not mm or "shmem_" + mm.group(3) not in macros: continue
        an = [re.search(r"(\w+)\s*(\[\w*\])?\s*$", a) for a in args.split(",")]
        if not all(an): continue
        args = " ".join(re.sub(r"\bconst\b", "", args).split())
        out.append((name, "%s g11__%s(%s) { %sshmem_%s(%s); }" % (ret, name, args, "" if ret == "void" else "return ", mm.group(3), ", ".join(a.group(1) for a in an))))
    c, o = gen + "/g11.c", gen + "/g11.o"
    for attempt in range(3):
        with open(c, "w") as f: f.write("#include <stddef.h>\n#include <stdint.h>\n#include <shmem.h>\n" + "\n".join(x for _, x in out) + "\n")
        p = subprocess.run([CC, "-std=gnu11", "-O1", "-fPIC", "-w", "-fcf-protection=none", "-fno-stack-protector", "-I" + gen + "/include", "-I" + HERE + "/inc", "-c", c, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0: return o
        # a combination the header does not support: the plain function is called instead
        lines = set(int(x) - 4 for x in re.findall(r"g11\.c:(\d+):", p.stdout))
        out = [x for i, x in enumerate(out) if i not in lines]
    return None

def build_variant(gen, out, name, pool, g11=None):
    d = os.path.join(out, name); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    defs = dict()
    for x in BASE_DEFS + VARIANTS[name]:
        k, _, v = x.partition("="); defs[k] = v or "1"
    with open(d + "/oshmpiconf.h", "w") as f:
        f.write("#ifndef SIM_CONF_H\n#define SIM_CONF_H\n" + "".join("#define %s %s\n" % kv for kv in defs.items()) + "#endif\n")
    flags = ["-O1", "-fPIC", "-w", "-fno-strict-aliasing", "-fno-builtin-malloc", "-fno-common", "-fsanitize-coverage=trace-pc",
             "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-stack-protector", "-fcf-protection=none", "-DOSHMPI_STATIC_INLINE_PREFIX=static inline", "-DHAVE_CONFIG_H", "-DONLY_MSPACES=1", "-D__data_start=sim_data_start", "-D_end=sim_data_end",
             "-I" + d, "-I" + gen + "/src/include", "-I" + gen + "/src/internal", "-I" + gen + "/src/internal/util", "-I" + gen + "/src/internal/util/gpu",
             "-I" + gen + "/include", "-I" + HERE + "/inc", "-fmacro-prefix-map=%s/=" % gen]
    if name != "fast": flags.append("-g1")
    jobs = []
    objs = []
    def comp(s):
        o = d + "/" + s.replace("/", "_")[:-2] + ".o"
        run([CC, "-c", os.path.join(gen, s), "-o", o] + flags)
        return o
    futs = [pool.submit(comp, s) for s in sorted(sources(gen), key=lambda s: -os.path.getsize(os.path.join(gen, s)))]
    def link():
        objs = [f.result() for f in futs]
        w = g11.result() if g11 else None
        so = d + "/pe.so"
        ex = []
        if name not in SYMMDATA:
            o = d + "/simdata.o"
            run([CC, "-c", HERE + "/mod/simdata.S", "-o", o]); ex.append(o)
        run([CC, "-shared", "-o", so] + objs + ([w] if w else []) + ex + ["-Wl,-Bsymbolic", "-Wl,--build-id=none", "-nostdlib"] +
            ["-Wl,--wrap=" + w for w in WRAP] + [LIBGCC_S, "-lm", "-lc"])
        und = [l.split()[-1].split("@")[0] for l in run(["nm", "-D", "--undefined-only", so]).splitlines() if l.split()]
        bad = [u for u in und if not PURE_OK.match(u) and not u.startswith("__wrap_")]
        with open(d + "/unwrapped.txt", "w") as f: f.write("\n".join(bad))
        for i in range(NPE): shutil.copy(so, d + "/pe%d.so" % i)
        for o in objs: os.remove(o)
        os.remove(so)
        return bad
    return link

HOST_SRC = ["sched.cpp", "mpi.cpp", "libc.cpp", "types.cpp", "work.cpp", "gen.cpp", "lin.cpp", "main.cpp"]

def build_host(pool):
    srcs = [f for f in HOST_SRC if os.path.exists(HERE + "/" + f)]
    deps = [HERE + "/" + f for f in os.listdir(HERE) if f.endswith((".cpp", ".h", ".S", ".inc"))] + glob.glob(HERE + "/inc/*") + glob.glob(HERE + "/mod/*")
    h = tree_hash(deps)
    exe = os.path.join(BUILD, "host-" + h, "simhost")
    if os.path.exists(exe): return lambda: exe
    d = os.path.dirname(exe); os.makedirs(d, exist_ok=True)
    def comp(s):
        o = d + "/" + s[:-4] + ".o"
        run([CXX, "-std=gnu++17", "-O1", "-g1", "-fno-strict-aliasing", "-fno-pie", "-fno-exceptions", "-Wall", "-Wno-misleading-indentation", "-Wno-unused", "-I" + HERE + "/inc", "-c", HERE + "/" + s, "-o", o])
        return o
    futs = [pool.submit(comp, s) for s in srcs]
    def link():
        objs = [f.result() for f in futs]
        run([CC, "-c", HERE + "/mod/hostdata.S", "-o", d + "/hostdata.o"])
        run([CXX, "-no-pie", "-rdynamic", "-o", exe + ".tmp"] + objs + [d + "/hostdata.o", "-ldl", "-lm"])
        os.rename(exe + ".tmp", exe)
        for o in objs: os.remove(o)
        return exe
    return link

def build(variants):
    os.makedirs(BUILD, exist_ok=True)
    inputs = repo_inputs()
    key = tree_hash(inputs, tree_hash([HERE + "/build.py", HERE + "/inc/mpi.h", HERE + "/inc/opa_primitives.h"] + glob.glob(HERE + "/mod/*")))
    out = os.path.join(BUILD, "mod-" + key)
    with ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        hostl = build_host(pool)
        need = [v for v in variants if not os.path.exists(os.path.join(out, v, "ok"))]
        links = []
        if need:
            gen = os.path.join(out, "gen.%d" % os.getpid())
            os.makedirs(out, exist_ok=True)
            generate(gen)
            g11 = pool.submit(generic_wrappers, gen)
            links = [(v, build_variant(gen, out, v, pool, g11)) for v in need]
        host = hostl()
        for v, l in links:
            l(); open(os.path.join(out, v, "ok"), "w").close()
        if need: shutil.rmtree(gen, ignore_errors=True)
    return host, out

def prune(keep):
    """Old module builds are dropped so that the build directory stays small."""
    for d in glob.glob(BUILD + "/mod-*"):
        if os.path.abspath(d) != os.path.abspath(keep):
            shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    import time; t = time.time()
    vs = sys.argv[1:] or list(VARIANTS)
    print(build(vs), "%.1fs" % (time.time() - t))
