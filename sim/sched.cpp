#include "sim.h"
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
#include <errno.h>

const char *kind_name[K_NKIND] = { "sched", "preempt", "delay", "capture", "torn", "eager", "spurious", "stall", "order", "mapfail", "addr",
    "slowlink", "complete", "clock", "mem", "misc" };
const char *probe_name[P_NPROBE] = { "eager_sends", "rendezvous_sends", "unexpected_msgs", "torn_transfers", "late_captured_buffers", "reordered_rma",
    "spurious_negative_polls", "pe_stalls", "rma_held_until_target_enters_mpi", "clock_jumps", "drains", "slow_messages", "preemptions_inside_code",
    "out_of_order_completions", "map_failures", "asymmetric_addresses", "lower_thread_level", "early_collective_exits", "mutex_waits", "thread_starvations",
    "rma_ops", "messages", "collectives", "mpi_atomics", "split_atomics", "tag_values_exhausted", "allocation_failures", "openshmem_calls", "oracle_checks",
    "bytes_compared", "linearizability_checks", "fence_pairs_watched", "address_reuses" };
Shared *SH;
Params PRM;
std::map<std::string, std::string> SIMENV;
std::string VARIANT;
int verbose = 0;
Fiber *cur = nullptr;
std::vector<Fiber *> fibers;
uint64_t now_ns = 0, sched_steps = 0, prog_epoch = 0, done_ops = 0; long backlog = 0;
bool draining = false;
int NPES = 2;
std::vector<std::function<void()>> monitors;
bool monitors_on = false;

// ------------------------------------------------------------------------------------------ outcome
static void finish(int st) { SH->hash ^= 0; SH->steps = sched_steps; SH->simtime = now_ns; SH->ops = done_ops; SH->status = st; fflush(stdout); _exit(st); }
void violation(const char *cls, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    snprintf(SH->cls, sizeof SH->cls, "%s", cls);
    vsnprintf(SH->msg, sizeof SH->msg, fmt, ap);
    va_end(ap);
    LOG("VIOLATION %s: %s", cls, SH->msg);
    finish(ST_VIOLATION);
    abort();
}
void infra(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    snprintf(SH->cls, sizeof SH->cls, "infra");
    vsnprintf(SH->msg, sizeof SH->msg, fmt, ap);
    va_end(ap);
    LOG("INFRA: %s", SH->msg);
    finish(ST_INFRA);
    abort();
}
void cutrun(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    snprintf(SH->cls, sizeof SH->cls, "cut");
    vsnprintf(SH->msg, sizeof SH->msg, fmt, ap);
    va_end(ap);
    LOG("CUT: %s", SH->msg);
    finish(ST_CUT);
    abort();
}
void hash_event(uint64_t a, uint64_t b, uint64_t c)
{
    uint64_t h = SH->hash;
    h = (h ^ a) * 0x100000001b3ull; h ^= h >> 29; h = (h ^ b) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; h = (h ^ c) * 0x100000001b3ull;
    SH->hash = h;
}
void mpi_hash(uint64_t a, uint64_t b)
{
    uint64_t h = SH->mpihash; h = (h ^ a) * 0x100000001b3ull; h ^= h >> 29; h = (h ^ b) * 0x9E3779B97F4A7C15ull; SH->mpihash = h;
    hash_event(a, b);
}
void logf(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    char b[1200]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (cur) fprintf(stderr, "[%8lu %6lu pe%d.%d] %s\n", (unsigned long) now_ns, (unsigned long) sched_steps, cur->pe, cur->tid, b);
    else fprintf(stderr, "[%8lu %6lu sched ] %s\n", (unsigned long) now_ns, (unsigned long) sched_steps, b);
}

// ------------------------------------------------------------------------------------------ choices
static ChoiceMode CM; static Rng crng; static uint32_t kidx[K_NKIND];
void choices_init(const ChoiceMode & m) { CM = m; crng.seed(m.seed); memset(kidx, 0, sizeof kidx); }
static uint32_t decide(Kind k, uint32_t drawn)
{
    uint32_t id = (uint32_t) k << 26 | (kidx[k]++ & 0x3ffffff);
    uint32_t v = drawn;
    if (CM.replay) { auto i = CM.rec.find(id); v = i == CM.rec.end() ? 0 : i->second; }
    if (draining || (CM.disabled >> k & 1)) v = 0;
    if (v) {
        SH->kinds[k]++;
        if (SH->nchoices < Shared::MAXCH) { SH->choices[SH->nchoices++] = { id, v }; } else SH->choices_overflow = 1;
    }
    hash_event(id, v);
    return v;
}
uint32_t choose(uint32_t n, Kind k)
{
    if (n <= 1) return 0;
    uint32_t v = decide(k, CM.replay ? 0 : crng.below(n));
    return v % n;
}
bool flip(long permille, Kind k)
{
    if (permille <= 0) return false;
    return decide(k, CM.replay ? 0 : (crng.below(1000) < (uint32_t) permille ? 1 : 0)) != 0;
}
uint32_t choose_geo(uint32_t mean, uint32_t cap, Kind k)
{
    uint32_t d = 0;
    if (!CM.replay) {
        // geometric-like with heavy tail: mean * -ln(u), in integers
        uint64_t r = crng.next();
        int lz = __builtin_clzll(r | 1);        // P(lz>=i)=2^-i
        uint64_t base = (uint64_t) mean * (2 * lz + 1) / 2;
        d = (uint32_t) (base + crng.below(mean + 1));
        if (d > cap) d = cap;
    }
    return decide(k, d);
}

// ------------------------------------------------------------------------------------------ context switch
extern "C" void sim_switch(void **save, void *to);
asm(".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "subq $8,%rsp\nstmxcsr (%rsp)\nfnstcw 4(%rsp)\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "ldmxcsr (%rsp)\nfldcw 4(%rsp)\naddq $8,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n.size sim_switch,.-sim_switch\n");
static void *sched_sp; static void in_pe_off();
static void fiber_entry()
{
    Fiber *f = cur;
    f->body();
    in_pe_off(); f->st = Fiber::DONE; note_progress();
    sim_switch(&f->sp, sched_sp);
    abort();
}
void fiber_exit() { Fiber *f = cur; in_pe_off(); f->st = Fiber::DONE; note_progress(); sim_switch(&f->sp, sched_sp); abort(); }
static const size_t STK = 512 * 1024;
static std::vector<char *> stkpool;
Fiber *spawn(int pe, int tid, std::function<void()> body)
{
    Fiber *f = new Fiber; f->id = (int) fibers.size(); f->pe = pe; f->tid = tid; f->body = std::move(body);
    f->stk = (char *) mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(f->stk, 4096, PROT_NONE);
    f->stksz = STK;
    uint64_t *t = (uint64_t *) (f->stk + STK - 64);
    *--t = 0; *--t = (uint64_t) fiber_entry;
    for (int i = 0; i < 6; i++) *--t = 0;
    --t; uint32_t mx; uint16_t cw; asm volatile("stmxcsr %0":"=m"(mx)); asm volatile("fnstcw %0":"=m"(cw));
    *t = 0; memcpy(t, &mx, 4); memcpy((char *) t + 4, &cw, 2);
    f->sp = t; f->st = Fiber::READY;
    fibers.push_back(f);
    note_progress();
    return f;
}

// ------------------------------------------------------------------------------------------ events
struct Ev { uint64_t at, seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev & a, const Ev & b) const { return a.at != b.at ? a.at > b.at : a.seq > b.seq; } };
static std::vector<Ev> evq; static uint64_t evseq;
void after(uint64_t d, std::function<void()> fn)
{
    if (draining && d > 200) d = 200;
    evq.push_back({ now_ns + d, evseq++, std::move(fn) });
    std::push_heap(evq.begin(), evq.end(), EvCmp());
}
void note_progress() { prog_epoch++; }
static void run_monitors() { if (monitors_on) for (auto & m : monitors) m(); }
static bool pop_event()
{
    if (evq.empty()) return false;
    std::pop_heap(evq.begin(), evq.end(), EvCmp());
    Ev e = std::move(evq.back()); evq.pop_back();
    if (e.at > now_ns) now_ns = e.at;
    hash_event(0xE0, e.seq);
    e.fn(); note_progress(); run_monitors();
    return true;
}
static uint32_t slow_link[MAXPE][MAXPE];
uint64_t net_delay(int from, int to)
{
    static long mode = -1, scale; if (mode < 0) { mode = PRM("netmode"); scale = PRM("netscale", 400); }
    uint64_t base = from == to ? 60 : 150;
    if (mode == 0) return base;
    uint64_t d = base + choose_geo((uint32_t) scale, 60000, K_DELAY);
    if (PRM("slowlink") && flip(PRM("slowlink"), K_SLOWLINK)) { d += 3000 + 100 * choose(400, K_SLOWLINK); probe(P_SLOWMSG); }
    return d;
}

// ------------------------------------------------------------------------------------------ preemption inside OSHMPI code
static long tick_left = 1 << 30, tick_mode, ticks_total; static bool in_pe = false;
static const long TICK_MAX = 60000; bool multi_thread = false;
static void arm_ticks()
{
    if (tick_mode <= 0 || draining) { tick_left = TICK_MAX; return; }
    uint32_t v = choose_geo((uint32_t) tick_mode, 4000, K_PREEMPT);
    tick_left = v == 0 ? TICK_MAX : (long) v;
}
void leave_mpi() { if (tick_mode <= 0 || !cur || cur->inmpi) return; arm_ticks(); if (multi_thread && flip(150, K_PREEMPT)) tick_left = 1 + (long) choose(8, K_PREEMPT); }      // the code after an MPI call can be preempted, too
static uint64_t spin_total;
extern "C" void __sanitizer_cov_trace_pc()
{
    if (__builtin_expect(--tick_left > 0, 1)) return;
    if (!in_pe) { tick_left = TICK_MAX; return; }
    if (cur->inmpi) { tick_left = 100; return; }
    probe(P_PREEMPT);
    yield_now();
}
extern "C" void sim_yield_point(void)
{
    if (!in_pe || !cur) return;
    tick_left -= 20;
    if (tick_left <= 0) __sanitizer_cov_trace_pc();
}

static void in_pe_off() { in_pe = false; }
static void to_sched()
{
    Fiber *f = cur; in_pe = false;
    int e = errno;
    sim_switch(&f->sp, sched_sp);
    errno = e;
}
void yield_now() { cur->st = Fiber::READY; to_sched(); }
void idle_yield() { cur->idle_epoch = prog_epoch; cur->st = Fiber::READY; to_sched(); }
void block_until(const char *why, std::function<bool()> pred)
{
    if (pred()) return;
    Fiber *f = cur;
    f->why = why; f->pred = std::move(pred);
    do { f->st = Fiber::BLOCKED; to_sched(); } while (!f->pred());
    f->pred = nullptr; f->why = "";
}

static void dump_state(char *buf, size_t n)
{
    size_t o = 0; buf[0] = 0;
    for (auto f : fibers) {
        if (f->st == Fiber::DONE || f->st == Fiber::FREE) continue;
        o += snprintf(buf + o, n - o, " pe%d.%d:%s%s%s%s", f->pe, f->tid, f->oshmem, f->inmpi ? " in " : "", f->inmpi ? f->mpi : "", f->st == Fiber::BLOCKED ? f->why : "");
        if (o >= n) break;
    }
}

static uint64_t stall_until[MAXPE];
static uint64_t drain_start, last_ops_step; static uint64_t last_ops;
void start_drain(const char *) ;

void run_scheduler()
{
    int pol = (int) PRM("policy"); long pswitch = PRM("pswitch", 300);
    tick_mode = PRM("ticks"); uint64_t budget = (uint64_t) PRM("budget", 60000), dbudget = (uint64_t) PRM("dbudget", 200000);
    long stallp = PRM("stall"), starve = PRM("starve"); uint64_t starve_until = 0; uint64_t idle_rounds = 0;
    Rng prng; prng.seed((uint64_t) PRM("prioseed", 7));
    std::vector<Fiber *> run, act; Fiber *last = nullptr;
    last_ops = done_ops; last_ops_step = 0;
    uint64_t hard = (uint64_t) PRM("maxsteps", 3000000), calm = hard / (VARIANT == "dyn" || VARIANT == "mtdyn" ? 15 : 4);      // a long run ends without further faults
    while (true) {
        bool alldone = true;
        for (auto f : fibers) if (!f->lib && f->st != Fiber::DONE) { alldone = false; break; }
        if (alldone) return;
        sched_steps++;
        if (done_ops != last_ops) {
            last_ops = done_ops; last_ops_step = sched_steps;
            if (draining) { if (sched_steps < calm) draining = false; else drain_start = sched_steps; }
        }
        if (!draining && (sched_steps - last_ops_step > budget || sched_steps > calm)) {
            draining = true; drain_start = sched_steps; probe(P_DRAIN);
            LOG("drain mode");
            for (auto & e : evq) if (e.at > now_ns + 200) e.at = now_ns + 200;
            std::make_heap(evq.begin(), evq.end(), EvCmp());
        }
        if (draining && sched_steps - drain_start > dbudget) {
            char b[900]; dump_state(b, sizeof b);
            violation("livelock", "no call completed although no fault or delay was injected any more for %lu steps:%s", (unsigned long) dbudget, b);
        }
        if (sched_steps > hard) { char b[900]; dump_state(b, sizeof b); cutrun("step limit, draining %d, last completed call at step %lu:%s", draining, (unsigned long) last_ops_step, b); }
        while (!evq.empty() && evq.front().at <= now_ns) pop_event();
        run.clear(); act.clear();
        for (auto f : fibers) {
            if (f->st == Fiber::BLOCKED && f->pred && f->pred()) { f->st = Fiber::READY; note_progress(); }
            if (f->st == Fiber::READY) run.push_back(f);
        }
        if (run.empty()) {
            if (evq.empty()) { char b[900]; dump_state(b, sizeof b); violation("deadlock", "every PE is blocked and nothing is in flight:%s", b); }
            pop_event(); probe(P_JUMP); continue;
        }
        // stalls and starvation narrow the runnable set as long as somebody else can run
        if (!draining && (stallp || starve)) {
            if (stallp && flip(stallp, K_STALL)) {
                int pe = (int) choose((uint32_t) NPES, K_STALL);
                stall_until[pe] = now_ns + 500 + 20 * choose(1000, K_STALL); probe(P_STALL);
            }
            if (starve && now_ns >= starve_until && flip(starve, K_STALL)) { starve_until = now_ns + 500 + 50 * choose(1000, K_STALL); probe(P_STARVE); }
            std::vector<Fiber *> r2;
            for (auto f : run) if (stall_until[f->pe] <= now_ns && !(f->lib && starve_until > now_ns)) r2.push_back(f);
            if (!r2.empty()) run.swap(r2);
            else if (!evq.empty()) { pop_event(); continue; }
            else now_ns += 1000;
        }
        for (auto f : run) if (f->idle_epoch != prog_epoch) act.push_back(f);
        if (act.empty()) {
            // everybody polled in vain since the last event
            if (!evq.empty() && !(idle_rounds % 3 == 2)) { idle_rounds++; pop_event(); probe(P_JUMP); continue; }
            idle_rounds++;
            if (evq.empty()) {
                bool any = false; for (int i = 0; i < NPES; i++) if (stall_until[i] > now_ns) any = true;
                if (any || starve_until > now_ns) { now_ns += 2000; }
                else if (idle_rounds > 4000) { char b[900]; dump_state(b, sizeof b); violation("livelock", "every PE polls in vain and nothing is in flight:%s", b); }
            }
        } else idle_rounds = 0;
        Fiber *f;
        bool fair = act.empty() || draining || sched_steps % 16 == 0;   // plain rotation: nobody is starved for ever
        auto & cand = fair ? run : act;
        // rotation: candidates after the last one in id order
        size_t start = 0;
        if (last) for (size_t i = 0; i < cand.size(); i++) if (cand[i]->id > last->id) { start = i; break; }
        bool lastok = false; if (last && !fair) for (auto c : cand) if (c == last) lastok = true;
        uint32_t c = 0;
        if (cand.size() > 1 && !fair) {
            if (pol == 1) {             // priorities with change points
                Fiber *best = nullptr; uint32_t bi = 0;
                for (size_t i = 0; i < cand.size(); i++) {
                    Fiber *x = cand[i]; if (!x->prio) x->prio = 1 + (prng.next() >> 8);
                    if (!best || x->prio > best->prio) { best = x; bi = (uint32_t) i; }
                }
                if (flip(PRM("pchange", 8), K_SCHED)) best->prio = 1 + (prng.next() >> (8 + choose(40, K_SCHED)));
                c = bi + 1;
                hash_event(0x51, c);
            } else if (flip(pswitch, K_SCHED)) c = 1 + choose((uint32_t) cand.size(), K_SCHED);
        }
        if (c) f = cand[c - 1];
        else if (lastok) f = last;
        else f = cand[start];
        last = f; cur = f;
        now_ns += 40;
        SH->switches++;
        hash_event(0x5C, (uint64_t) f->id);
        mem_switch(f->pe);
        if (!f->inmpi) arm_ticks(); else tick_left = TICK_MAX;
        errno = f->err; in_pe = true;
        sim_switch(&sched_sp, f->sp);
        in_pe = false; cur = nullptr;
        run_monitors();
    }
}
