// Core of the simulator: one seed decides every interleaving, delay and fault.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <deque>
#include <functional>
#include <queue>
#include <algorithm>

enum { MAXPE = 20 };

struct Rng {                                    // splitmix64
    uint64_t s = 0;
    void seed(uint64_t x) { s = x * 0x9E3779B97F4A7C15ull + 0x1234567; next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint32_t below(uint32_t n) { return n <= 1 ? 0 : (uint32_t) ((next() >> 32) * (uint64_t) n >> 32); }
    int range(int a, int b) { return a + (int) below((uint32_t) (b - a + 1)); }
    bool chance(int num, int den) { return (int) below(den) < num; }
    template <class V> auto &pick(V & v) { return v[below((uint32_t) v.size())]; }
};

// ---- kinds of choices; value 0 is always the benign one --------------------------------------
enum Kind { K_SCHED, K_PREEMPT, K_DELAY, K_CAPTURE, K_TORN, K_EAGER, K_SPURIOUS, K_STALL, K_ORDER, K_MAPFAIL, K_ADDR,
    K_SLOWLINK, K_COMPLETE, K_CLOCK, K_MEM, K_MISC, K_NKIND };
extern const char *kind_name[K_NKIND];

// ---- counters in shared memory ---------------------------------------------------------------
enum Status { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_INFRA = 3, ST_NOTAPPLICABLE = 4, ST_CUT = 5 };
enum Probe { P_EAGER, P_RENDEZVOUS, P_UNEXPECTED, P_TORN, P_LATECAPTURE, P_REORDER_RMA, P_SPURIOUS, P_STALL, P_SOFTQ, P_JUMP, P_DRAIN,
    P_SLOWMSG, P_PREEMPT, P_OOO_COMPLETE, P_MAPFAIL, P_ASYMADDR, P_LOWTHREAD, P_COLLEARLY, P_MUTEXWAIT, P_STARVE, P_RMA, P_MSG, P_COLL, P_AMO,
    P_NONATOMIC, P_TAGWRAP, P_OOM, P_OPS, P_CHECKS, P_BYTES, P_LINCHK, P_FENCEWATCH, P_ADDRREUSE, P_NPROBE };
extern const char *probe_name[P_NPROBE];
struct ChoiceRec { uint32_t kind_idx; uint32_t val; };  // kind<<26 | per-kind index
struct Shared {
    volatile int status; char cls[64]; char msg[2000];
    uint64_t digest; uint64_t hash, mpihash, steps, simtime, switches, ops, programhash; int nsteps_prog;
    uint64_t probes[P_NPROBE]; uint64_t kinds[K_NKIND];
    uint32_t nchoices; uint32_t choices_overflow;
    char where[400];
    enum { MAXCH = 400000 };
    ChoiceRec choices[MAXCH];
};
extern Shared *SH;
inline void probe(Probe p) { SH->probes[p]++; }

// ---- run parameters (swarm: drawn per run from the seed, recorded in the replay file) -----------
struct Params {
    std::map<std::string, long> m;
    long operator()(const char *k, long d = 0) const { auto i = m.find(k); return i == m.end() ? d : i->second; }
    void set(const std::string & k, long v) { m[k] = v; }
};
extern Params PRM;
extern std::map<std::string, std::string> SIMENV;      // simulated environment of the job
extern std::string VARIANT;

// ---- choices --------------------------------------------------------------------------------------
uint32_t choose(uint32_t n, Kind k);            // uniform in [0,n) in random mode
bool flip(long permille, Kind k);               // true with probability permille/1000
uint32_t choose_geo(uint32_t mean, uint32_t cap, Kind k);       // >=0, roughly geometric
struct ChoiceMode { bool replay = false; std::unordered_map<uint32_t, uint32_t> rec; uint64_t seed = 1; uint32_t disabled = 0; };
void choices_init(const ChoiceMode & m);

// ---- fibers --------------------------------------------------------------------------------------------
struct Fiber {
    int id, pe, tid;            // tid: 0 main, 1.. user threads, 100.. library threads
    bool lib = false;
    void *sp = nullptr; char *stk = nullptr; size_t stksz = 0;
    enum St { FREE, READY, BLOCKED, DONE } st = FREE;
    std::function<bool()> pred; const char *why = "";
    std::function<void()> body;
    uint64_t idle_epoch = ~0ull; int inmpi = 0; const char *mpi = ""; int err = 0;
    void *ret = nullptr; uint64_t prio = 0;
    const char *oshmem = "";    // OpenSHMEM routine being executed
};
extern Fiber *cur;
extern std::vector<Fiber *> fibers;
extern uint64_t now_ns, sched_steps, prog_epoch, done_ops;
extern long backlog;
extern bool draining;
extern int NPES;
Fiber *spawn(int pe, int tid, std::function<void()> body);
void yield_now();
[[noreturn]] void fiber_exit();
void block_until(const char *why, std::function<bool()> pred);
void leave_mpi(); extern bool multi_thread;
void idle_yield();              // a poll that found nothing
void after(uint64_t delay_ns, std::function<void()> fn);       // schedule a simulated event
void run_scheduler();           // returns when every non-library fiber finished
uint64_t net_delay(int from, int to);
extern std::vector<std::function<void()>> monitors;    // evaluated at every scheduling step
extern bool monitors_on;
void note_progress();

// ---- outcome ----------------------------------------------------------------------------------------------
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void cutrun(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void infra(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void hash_event(uint64_t a, uint64_t b = 0, uint64_t c = 0);
void mpi_hash(uint64_t a, uint64_t b = 0);
extern int verbose;
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define LOG(...) do { if (verbose) logf(__VA_ARGS__); } while (0)

// ---- per-PE memory --------------------------------------------------------------------------------------------
char *P(int pe, const void *addr);      // host-accessible location of a PE's address
void mem_init(); void mem_far();
void mem_check(const char *when);
void map_symm(int pe, void *va, size_t sz);
void mem_switch(int pe);
void pe_skew(int pe, size_t n);
void *pe_alloc(int pe, size_t sz, size_t align);       // storage owned by the simulated system
void *pe_malloc(int pe, size_t sz); void pe_free(int pe, void *p);
void *user_malloc(size_t sz); void user_free(void *p); // application-private memory of the current PE
void load_modules(const std::string & dir);
void *pe_sym(int pe, const std::string & name, bool must = true);
void run_atexit(int pe);
extern char *static_base[MAXPE]; // start of the simulated data segment
struct ExitException { int pe; };
std::vector<uintptr_t> mpi_edges(int pe); void mpi_live(int pe, long v[5]); long mem_live(int pe);
void mpi_init_world(); void mpi_final_checks(bool clean);
bool mpi_in_call(int pe);
extern bool expect_abort; extern std::function<void(int)> on_abort;
void symm_va_reset();
