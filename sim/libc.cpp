// What OSHMPI sees of libc: allocator, mappings, clock, threads, environment. All simulated, per PE.
#include "sim.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <stdlib.h>
#include <dlfcn.h>
#include <errno.h>
#include <time.h>
#include <stdarg.h>
#include <pthread.h>
#include <set>

extern "C" char sim_data_start[], sim_data_end[];
char *static_base[MAXPE];
static const uintptr_t ARENA0 = 0x100000000000ull; static const size_t ARENA_SZ = 1ull << 30, ARENA_STEP = 64ull << 30, FAR_SZ = 40ull << 30; static size_t arena_lim = ARENA_SZ;
static const uintptr_t ALIAS0 = 0x200000000000ull;
static const size_t RZ = 32;
struct Blk { size_t sz; bool live; uintptr_t id; };
struct PeMem {
    char *arena; size_t top = 0; std::map<uintptr_t, Blk> blks; std::vector<std::pair<size_t, uintptr_t>> freed;
    std::map<std::string, char *> envcopy; std::vector<void (*)(void)> atexits; uint32_t rnd = 1;
    std::map<uintptr_t, size_t> maps; size_t mapnext = 0;
};
static PeMem pm[MAXPE];
struct SymReg { uintptr_t va; size_t sz; bool used[MAXPE]; char *alias[MAXPE]; int fd[MAXPE]; int mapped = -1; };
static std::vector<SymReg *> symregs;
static void *mods[MAXPE]; static std::unordered_map<std::string, void *> symcache[MAXPE];
static int reuse_addr = 0;

static int cpe() { return cur ? cur->pe : 0; }
char *P(int pe, const void *a)
{
    uintptr_t x = (uintptr_t) a;
    for (auto r : symregs) if (x >= r->va && x < r->va + r->sz) {
        if (r->used[pe]) return r->alias[pe] + (x - r->va);
        return (char *) a;
    }
    return (char *) a;
}
void mem_switch(int pe)
{
    for (auto r : symregs) {
        if (r->mapped == pe || !r->used[pe]) continue;
        if (mmap((void *) r->va, r->sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, r->fd[pe], 0) == MAP_FAILED) infra("remap");
        r->mapped = pe;
    }
}
void map_symm(int pe, void *va, size_t sz)
{
    SymReg *r = nullptr;
    for (auto x : symregs) if (x->va == (uintptr_t) va && x->sz == sz) r = x;
    if (!r) {
        r = new SymReg; r->va = (uintptr_t) va; r->sz = sz;
        for (int i = 0; i < MAXPE; i++) { r->used[i] = false; r->fd[i] = -1; r->alias[i] = nullptr; }
        symregs.push_back(r);
    }
    if (r->used[pe]) return;
    int fd = memfd_create("symm", 0); if (fd < 0 || ftruncate(fd, (off_t) sz)) infra("memfd");
    static uintptr_t nexta = ALIAS0;
    char *al = (char *) mmap((void *) nexta, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
    if (al == MAP_FAILED) infra("alias map");
    nexta += (sz + 0x10000) & ~0xffffull;
    r->fd[pe] = fd; r->alias[pe] = al; r->used[pe] = true;
    if (cur && cur->pe == pe) mem_switch(pe);
}
void mem_init()
{
    for (int i = 0; i < MAXPE; i++) {
        pm[i].arena = (char *) mmap((void *) (ARENA0 + (uintptr_t) i * ARENA_STEP), ARENA_SZ, PROT_READ | PROT_WRITE,
            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        if (pm[i].arena == MAP_FAILED) { perror("arena"); exit(2); }
    }
}
// runs with a heap of gigabytes: address space only, memory is used where it is touched
void mem_far() { for (int i = 0; i < NPES; i++) if (mmap(pm[i].arena + ARENA_SZ, FAR_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) infra("far arena"); arena_lim = ARENA_SZ + FAR_SZ; }
static size_t pagesz() { return (size_t) PRM("pagesz", 4096); }
static Blk *findblk(int pe, uintptr_t a) { auto i = pm[pe].blks.find(a); return i == pm[pe].blks.end() ? nullptr : &i->second; }
static void check_blk(int pe, uintptr_t a, Blk & b, const char *when)
{
    for (size_t i = 0; i < RZ; i++)
        if (((unsigned char *) a)[-(long) i - 1] != 0xB1 || ((unsigned char *) a)[b.sz + i] != 0xB2)
            violation("memory", "pe%d: memory around a %zu-byte internal buffer was overwritten (%s)", pe, b.sz, when);
}
// New memory holds anything: a pattern, zeros, or small numbers (run parameter mfill)
static void fill(int pe, void *a, size_t sz)
{
    static uint32_t r = 12345; uint64_t how = PRM("mfill");
    if (how < 2) { memset(a, how ? 0 : 0xA5, sz); return; }
    uint32_t *w = (uint32_t *) a; static const uint32_t v[8] = { 0, 1, 2, 3, 0, 1, 0xffffffffu, 4 };
    for (size_t i = 0; i < sz / 4; i++) { r = r * 1664525u + 1013904223u + (uint32_t) pe; w[i] = v[(r >> 24) & 7]; }
    memset((char *) a + sz / 4 * 4, 1, sz % 4);
}
static void *arena_alloc(int pe, size_t sz, size_t align)
{
    PeMem & m = pm[pe];
    reuse_addr = (int) PRM("reuse");
    if (reuse_addr && align <= 16)
        for (size_t i = m.freed.size(); i-- > 0;)
            if (m.freed[i].first == sz) {
                uintptr_t a = m.freed[i].second; m.freed.erase(m.freed.begin() + (long) i);
                m.blks[a].live = true; m.blks[a].id = 0; probe(P_ADDRREUSE);
                if (sz <= (1 << 20)) fill(pe, (void *) a, sz);
                return (void *) a;
            }
    uintptr_t a = (uintptr_t) m.arena + m.top + RZ + 16;
    if (align < 16) align = 16;
    a = (a + align - 1) / align * align;
    m.top = a + sz + RZ - (uintptr_t) m.arena;
    if (m.top > arena_lim) infra("arena exhausted");
    memset((char *) a - RZ, 0xB1, RZ); memset((char *) a + sz, 0xB2, RZ);
    if (sz <= (1 << 20)) fill(pe, (void *) a, sz);
    m.blks[a] = { sz, true, 0 };
    return (void *) a;
}
void *pe_alloc(int pe, size_t sz, size_t align) { return arena_alloc(pe, sz, align); }
void pe_skew(int pe, size_t n) { pm[pe].top += n; }
void *pe_malloc(int pe, size_t sz) { return arena_alloc(pe, sz, 16); }
void pe_free(int pe, void *p)
{
    if (!p) return;
    Blk *b = findblk(pe, (uintptr_t) p);
    if (!b) violation("memory", "pe%d: free of an address that was never allocated", pe);
    if (!b->live) violation("memory", "pe%d: double free of a %zu-byte buffer", pe, b->sz);
    check_blk(pe, (uintptr_t) p, *b, "at free");
    b->live = false;
    if (b->sz <= (1 << 20)) memset(p, 0xDD, b->sz);
    pm[pe].freed.push_back({ b->sz, (uintptr_t) p });
}
void mem_check(const char *when)
{
    for (int p = 0; p < NPES; p++) for (auto & kv : pm[p].blks) {
        if (kv.second.live) check_blk(p, kv.first, kv.second, when);
        else if (kv.second.sz <= 4096)
            for (size_t i = 0; i < kv.second.sz; i++) if (((unsigned char *) kv.first)[i] != 0xDD)
                violation("memory", "pe%d: a %zu-byte internal buffer was written after it was freed (%s)", p, kv.second.sz, when);
    }
}
long mem_live(int pe) { long n = 0; for (auto & kv : pm[pe].blks) if (kv.second.live && !kv.second.id) n++; return n; }
void *user_malloc(size_t sz) { void *r = arena_alloc(cpe(), sz, 16); pm[cpe()].blks[(uintptr_t) r].id = 1; return r; }
void user_free(void *p) { pe_free(cpe(), p); }

void load_modules(const std::string & dir)
{
    for (int i = 0; i < MAXPE; i++) {
        std::string f = dir + "/pe" + std::to_string(i) + ".so";
        mods[i] = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!mods[i]) { fprintf(stderr, "INFRA: dlopen %s: %s\n", f.c_str(), dlerror()); exit(2); }
        char *b = (char *) dlsym(mods[i], "sim_data_start");
        static_base[i] = b ? b : sim_data_start;
    }
}
void *pe_sym(int pe, const std::string & n, bool must)
{
    auto i = symcache[pe].find(n);
    if (i != symcache[pe].end()) return i->second;
    void *p = PRM("c11") ? dlsym(mods[pe], ("g11__" + n).c_str()) : nullptr;      // the call goes through the C11 type-generic macro
    if (!p) p = dlsym(mods[pe], n.c_str());
    if (!p && must) infra("no symbol %s", n.c_str());
    symcache[pe][n] = p;
    return p;
}
void run_atexit(int pe) { while (!pm[pe].atexits.empty()) { auto f = pm[pe].atexits.back(); pm[pe].atexits.pop_back(); f(); } }

#define W(ret, name) extern "C" ret __wrap_##name
void huge_copy(void *d, const void *s, size_t n);
W(void *, memcpy) (void *d, const void *s, size_t n) { if (n >= (32u << 20) && ((char *) d + n <= (char *) s || (char *) s + n <= (char *) d)) { huge_copy(d, s, n); return d; } return memmove(d, s, n); }
W(void *, memmove) (void *d, const void *s, size_t n) { if (n >= (32u << 20) && ((char *) d + n <= (char *) s || (char *) s + n <= (char *) d)) { huge_copy(d, s, n); return d; } return memmove(d, s, n); }
W(void *, malloc) (size_t n) { return arena_alloc(cpe(), n, 16); }
W(void *, calloc) (size_t a, size_t b) { void *p = arena_alloc(cpe(), a * b, 16); memset(p, 0, a * b); return p; }
W(void *, realloc) (void *p, size_t n)
{
    if (!p) return arena_alloc(cpe(), n, 16);
    if (!n) { pe_free(cpe(), p); return nullptr; }
    Blk *b = findblk(cpe(), (uintptr_t) p); if (!b || !b->live) violation("memory", "realloc of an address that is not allocated");
    size_t o = b->sz; void *q = arena_alloc(cpe(), n, 16); memcpy(q, p, o < n ? o : n); pe_free(cpe(), p); return q;
}
W(void *, reallocarray) (void *p, size_t a, size_t b) { return __wrap_realloc(p, a * b); }
W(void, free) (void *p) { pe_free(cpe(), p); }
W(int, posix_memalign) (void **pp, size_t al, size_t n) { *pp = arena_alloc(cpe(), n, al); return 0; }
W(void *, memalign) (size_t al, size_t n) { return arena_alloc(cpe(), n, al); }
W(void *, aligned_alloc) (size_t al, size_t n) { return arena_alloc(cpe(), n, al); }
W(void *, valloc) (size_t n) { return arena_alloc(cpe(), n, pagesz()); }
W(char *, strdup) (const char *s) { size_t n = strlen(s) + 1; char *p = (char *) arena_alloc(cpe(), n, 16); memcpy(p, s, n); return p; }
W(char *, strndup) (const char *s, size_t k) { size_t n = strnlen(s, k); char *p = (char *) arena_alloc(cpe(), n + 1, 16); memcpy(p, s, n); p[n] = 0; return p; }

// ---- mappings: the interesting ones are fixed-address requests for the symmetric heap
static bool overlaps(int pe, uintptr_t a, size_t n) { for (auto & kv : pm[pe].maps) if (a < kv.first + kv.second && kv.first < a + n) return true; return false; }
W(void *, mmap) (void *va, size_t n, int prot, int flags, int fd, off_t off)
{
    int pe = cpe();
    if (flip(PRM("mapfail"), K_MAPFAIL)) { probe(P_MAPFAIL); errno = ENOMEM; LOG("mmap fails"); return MAP_FAILED; }
    if (n == 0) { errno = EINVAL; return MAP_FAILED; }
    if (va && (flags & MAP_FIXED)) {
        if ((uintptr_t) va & (pagesz() - 1)) { errno = EINVAL; return MAP_FAILED; }
        if ((uintptr_t) va + n > 0x7fffffffffffull || (uintptr_t) va > 0x7fffffffffffull) { errno = ENOMEM; return MAP_FAILED; }
        map_symm(pe, va, n);
        memset(P(pe, va), 0, 0);
        pm[pe].maps[(uintptr_t) va] = n;
        return va;
    }
    void *p = arena_alloc(pe, n, pagesz()); if (n <= ARENA_SZ) memset(p, 0, n); pm[pe].maps[(uintptr_t) p] = n; return p;
}
W(int, munmap) (void *va, size_t n)
{
    if ((uintptr_t) va & (pagesz() - 1)) { errno = EINVAL; return -1; }
    pm[cpe()].maps.erase((uintptr_t) va);
    return 0;
}
W(void *, mremap) (void *, size_t, size_t, int, ...) { errno = ENOMEM; return MAP_FAILED; }
W(int, msync) (void *va, size_t n, int)
{
    // "is anything mapped there?": real neighbours are unknown to the library, so an address may be taken on some PE only
    if (overlaps(cpe(), (uintptr_t) va, n)) return 0;
    static std::map<uintptr_t, int> dec[MAXPE];
    uintptr_t key = (uintptr_t) va >> 24;
    auto & d = dec[cpe()];
    if (!d.count(key)) d[key] = flip(PRM("addrtaken"), K_ADDR) ? (probe(P_MAPFAIL), 1) : 0;
    if (d[key]) return 0;
    errno = ENOMEM; return -1;
}
W(int, madvise) (void *, size_t, int) { return 0; }
W(int, mprotect) (void *, size_t, int) { return 0; }
W(long, sysconf) (int n) { if (n == _SC_PAGESIZE) return (long) pagesz(); if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return 8; return sysconf(n); }
W(int, getpagesize) (void) { return (int) pagesz(); }

// ---- clock
static uint64_t pe_now() { return now_ns + (uint64_t) PRM("skew") * (uint64_t) cpe() * 1000; }
W(int, gettimeofday) (struct timeval *tv, void *) { uint64_t t = pe_now() + 1700000000ull * 1000000000ull + 1000 * choose(1000000, K_CLOCK); tv->tv_sec = (time_t) (t / 1000000000ull); tv->tv_usec = (suseconds_t) (t % 1000000000ull / 1000); return 0; }
W(int, clock_gettime) (clockid_t, struct timespec *ts) { uint64_t t = pe_now(); ts->tv_sec = (time_t) (t / 1000000000ull); ts->tv_nsec = (long) (t % 1000000000ull); return 0; }
W(time_t, time) (time_t *p) { time_t t = (time_t) (1700000000 + pe_now() / 1000000000ull); if (p) *p = t; return t; }
static void sim_sleep(uint64_t ns) { if (!cur) return; bool *done = new bool(false); after(ns, [done] { *done = true; }); block_until("sleep", [done] { return *done; }); delete done; }
W(int, usleep) (useconds_t us) { sim_sleep((uint64_t) us * 1000); return 0; }
W(int, nanosleep) (const struct timespec *t, struct timespec *) { sim_sleep((uint64_t) t->tv_sec * 1000000000ull + (uint64_t) t->tv_nsec); return 0; }
W(unsigned, sleep) (unsigned s) { sim_sleep(s * 1000000000ull); return 0; }
W(int, sched_yield) (void) { idle_yield(); return 0; }
W(int, pthread_yield) (void) { idle_yield(); return 0; }

// ---- environment
W(char *, getenv) (const char *n)
{
    auto i = SIMENV.find(n); if (i == SIMENV.end()) return nullptr;
    auto & c = pm[cpe()].envcopy[n];
    if (!c) { c = (char *) arena_alloc(cpe(), i->second.size() + 1, 16); strcpy(c, i->second.c_str()); }
    return c;
}
W(char *, secure_getenv) (const char *n) { return __wrap_getenv(n); }
W(int, setenv) (const char *, const char *, int) { return 0; }
W(int, getpid) (void) { return 1000 + cpe(); }
W(int, gethostname) (char *b, size_t n) { snprintf(b, n, "node%d", cpe()); return 0; }
W(long, random) (void) { auto & r = pm[cpe()].rnd; r = r * 1103515245u + 12345u; return r >> 1; }
W(void, srandom) (unsigned s) { pm[cpe()].rnd = s; }
W(int, rand) (void) { return (int) __wrap_random(); }
W(void, srand) (unsigned s) { pm[cpe()].rnd = s; }
W(int, atexit) (void (*f)(void)) { pm[cpe()].atexits.push_back(f); return 0; }
W(void, exit) (int c) { violation("exit", "pe%d: the library called exit(%d)", cpe(), c); }
W(void, _exit) (int c) { violation("exit", "pe%d: the library called _exit(%d)", cpe(), c); }
W(void, abort) (void) { violation("abort", "pe%d: the library called abort()%s%s", cpe(), SH->where[0] ? ": " : "", SH->where); }
W(void, __assert_fail) (const char *e, const char *f, unsigned l, const char *) { violation("abort", "pe%d: assertion %s failed at %s:%u", cpe(), e, f, l); }

// ---- output: kept off the real streams; the last error text is reported with a violation
static void cap(const char *s) { LOG("out: %s", s); if (strstr(s, "fail") || strstr(s, "abort") || strstr(s, "rror")) snprintf(SH->where, sizeof SH->where, "%s", s); }
W(int, vfprintf) (FILE *, const char *f, va_list ap) { char b[600]; vsnprintf(b, sizeof b, f, ap); cap(b); return (int) strlen(b); }
W(int, fprintf) (FILE *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vfprintf(s, f, ap); va_end(ap); return r; }
W(int, printf) (const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vfprintf(stdout, f, ap); va_end(ap); return r; }
W(int, __printf_chk) (int, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vfprintf(stdout, f, ap); va_end(ap); return r; }
W(int, __fprintf_chk) (FILE *s, int, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vfprintf(s, f, ap); va_end(ap); return r; }
W(int, __vfprintf_chk) (FILE *s, int, const char *f, va_list ap) { return __wrap_vfprintf(s, f, ap); }
W(int, puts) (const char *s) { cap(s); return 0; }
W(int, fputs) (const char *s, FILE *) { cap(s); return 0; }
W(int, fputc) (int c, FILE *) { return c; }
W(int, putc) (int c, FILE *) { return c; }
W(int, putchar) (int c) { return c; }
W(size_t, fwrite) (const void *p, size_t s, size_t n, FILE *) { std::string t((const char *) p, s * n); cap(t.c_str()); return n; }
W(int, fflush) (FILE *) { return 0; }
W(void, perror) (const char *s) { cap(s); }

// ---- threads
struct SimMutex { uint32_t magic; int owner; int rec; int type; };       // laid over pthread_mutex_t
static const uint32_t MX = 0x51A1C0DE;
static SimMutex *mx(pthread_mutex_t * m)
{
    SimMutex *s = (SimMutex *) m;
    if (s->magic != MX) {
        pthread_mutex_t z = PTHREAD_MUTEX_INITIALIZER;
        if (memcmp(m, &z, sizeof z)) violation("thread", "pe%d: use of a mutex that is not initialized", cpe());
        s->magic = MX; s->owner = -1; s->rec = 0; s->type = 0;
    }
    return s;
}
W(int, pthread_mutex_init) (pthread_mutex_t * m, const pthread_mutexattr_t *) { memset((void *) m, 0, sizeof *m); SimMutex *s = (SimMutex *) m; s->magic = MX; s->owner = -1; return 0; }
W(int, pthread_mutex_destroy) (pthread_mutex_t * m) { SimMutex *s = mx(m); if (s->owner >= 0) violation("thread", "pe%d: a locked mutex is destroyed", cpe()); s->magic = 0xDEADDEAD; return 0; }
W(int, pthread_mutex_lock) (pthread_mutex_t * m)
{
    SimMutex *s = mx(m); yield_now();
    if (s->owner == cur->id) violation("thread", "pe%d: a thread locks a mutex it already holds (%s)", cpe(), cur->oshmem);
    if (s->owner >= 0) { probe(P_MUTEXWAIT); SimMutex *h = (SimMutex *) P(cpe(), m); block_until("mutex", [h] { return h->owner < 0; }); }
    s->owner = cur->id; return 0;

}
W(int, pthread_mutex_trylock) (pthread_mutex_t * m) { SimMutex *s = mx(m); yield_now(); if (s->owner >= 0) return EBUSY; s->owner = cur->id; return 0; }
W(int, pthread_mutex_unlock) (pthread_mutex_t * m) { SimMutex *s = mx(m); if (s->owner != cur->id) violation("thread", "pe%d: a thread unlocks a mutex it does not hold (%s)", cpe(), cur->oshmem); s->owner = -1; note_progress(); yield_now(); return 0; }
W(int, pthread_spin_init) (pthread_spinlock_t * l, int) { *l = 0; return 0; }
W(int, pthread_spin_destroy) (pthread_spinlock_t *) { return 0; }
W(int, pthread_spin_lock) (pthread_spinlock_t * l) { yield_now(); int *h = (int *) P(cpe(), (void *) l); block_until("spinlock", [h] { return *h == 0; }); *l = cur->id + 1; return 0; }
W(int, pthread_spin_trylock) (pthread_spinlock_t * l) { yield_now(); if (*l) return EBUSY; *l = cur->id + 1; return 0; }
W(int, pthread_spin_unlock) (pthread_spinlock_t * l) { *l = 0; note_progress(); yield_now(); return 0; }
static std::map<void *, uint64_t> condseq; static std::set<void *> deadcond;
static void *ck(pthread_cond_t * c) { return P(cpe(), c); }       // the PEs use the same addresses
static void chkcond(pthread_cond_t * c, const char *what) { if (deadcond.count(ck(c))) violation("thread", "pe%d: %s on a condition variable that was destroyed", cpe(), what); }
W(int, pthread_cond_init) (pthread_cond_t * c, const pthread_condattr_t *) { deadcond.erase(ck(c)); return 0; }
W(int, pthread_cond_destroy) (pthread_cond_t * c) { chkcond(c, "destroy"); deadcond.insert(ck(c)); return 0; }
W(int, pthread_cond_wait) (pthread_cond_t * c, pthread_mutex_t * m)
{
    chkcond(c, "wait"); void *k = ck(c); uint64_t s = condseq[k]; SimMutex *hx = (SimMutex *) P(cpe(), m); SimMutex *x = mx(m);
    if (x->owner != cur->id) violation("thread", "pe%d: waits with a mutex it does not hold", cpe());
    x->owner = -1; note_progress();
    if (PRM("spurious") && flip(PRM("spurious"), K_SPURIOUS)) { probe(P_SPURIOUS); yield_now(); }
    else block_until("cond", [k, s] { return condseq[k] != s; });
    block_until("mutex", [hx] { return hx->owner < 0; }); x->owner = cur->id; return 0;
}
W(int, pthread_cond_signal) (pthread_cond_t * c) { yield_now(); chkcond(c, "signal"); condseq[ck(c)]++; note_progress(); return 0; }
W(int, pthread_cond_broadcast) (pthread_cond_t * c) { yield_now(); chkcond(c, "broadcast"); condseq[ck(c)]++; note_progress(); return 0; }
W(int, pthread_once) (pthread_once_t * o, void (*f)(void)) { if (*(int *) o == 0) { *(int *) o = 1; f(); } return 0; }
W(int, pthread_attr_init) (pthread_attr_t *) { return 0; }
W(int, pthread_attr_destroy) (pthread_attr_t *) { return 0; }
W(int, pthread_attr_setdetachstate) (pthread_attr_t *, int) { return 0; }
W(int, pthread_attr_setscope) (pthread_attr_t *, int) { return 0; }
W(int, pthread_attr_setstacksize) (pthread_attr_t *, size_t) { return 0; }
static int libthreads;
W(int, pthread_create) (pthread_t * t, const pthread_attr_t *, void *(*fn) (void *), void *arg)
{
    int pe = cpe();
    Fiber *f = spawn(pe, 100 + libthreads++, nullptr);
    f->lib = true; f->body = [f, fn, arg] { f->ret = fn(arg); };
    f->oshmem = "progress thread";
    *t = (pthread_t) (f->id + 1);
    yield_now();
    return 0;
}
W(int, pthread_join) (pthread_t t, void **r)
{
    Fiber *f = fibers[(size_t) t - 1];
    block_until("pthread_join", [f] { return f->st == Fiber::DONE; });
    if (r) *r = f->ret;
    return 0;
}
W(int, pthread_detach) (pthread_t) { return 0; }
W(pthread_t, pthread_self) (void) { return (pthread_t) (cur->id + 1); }
W(void, pthread_exit) (void *r) { cur->ret = r; fiber_exit(); }
W(int, pthread_cancel) (pthread_t) { return 0; }
W(int, pthread_kill) (pthread_t, int) { return 0; }
