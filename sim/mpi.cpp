// Simulated MPI library: adversarial but standard-conforming.
#include "sim.h"
#include "simmpi.h"
#include <math.h>
#include <stdlib.h>
#include <complex.h>
#include <sys/mman.h>
#include <memory>
#include <set>
#undef I

// Buffers of gigabytes (transfers beyond the range of an int) only take the memory of the pages that are not zero
static const size_t HUGE_SZ = 32 << 20;
class Bytes {
    uint8_t *d = nullptr; size_t n = 0, cap = 0;
    static uint8_t *get(size_t c) { if (!c) return nullptr; void *p = c >= HUGE_SZ ? mmap(nullptr, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) : calloc(c, 1); if (!p || p == MAP_FAILED) infra("no memory for a message of %zu bytes", c); return (uint8_t *) p; }
    static void put(uint8_t * p, size_t c) { if (c >= HUGE_SZ) munmap(p, c); else free(p); }
public:
    Bytes() { } explicit Bytes(size_t c) : d(get(c)), n(c), cap(c) { } Bytes(const Bytes & o) { *this = o; } Bytes(Bytes && o) { swap(o); } ~Bytes() { put(d, cap); }
    void swap(Bytes & o) { std::swap(d, o.d); std::swap(n, o.n); std::swap(cap, o.cap); }
    Bytes & operator=(Bytes && o) { swap(o); return *this; }
    Bytes & operator=(const Bytes & o);
    size_t size() const { return n; } bool empty() const { return !n; } uint8_t & operator[](size_t i) { return d[i]; } const uint8_t & operator[](size_t i) const { return d[i]; }
    uint8_t *begin() { return d; } uint8_t *end() { return d + n; } const uint8_t *begin() const { return d; } const uint8_t *end() const { return d + n; }
    Bytes(const uint8_t * f, const uint8_t * t) { append(f, t); } uint8_t *data() { return d; } void shrink_to_fit() { if (!n) { put(d, cap); d = nullptr; cap = 0; } } void clear() { n = 0; }
    void resize(size_t c) { if (c > cap) { Bytes b(std::max(c, n ? 2 * n : 0)); if (n) memcpy(b.d, d, n); swap(b); } else if (c > n) memset(d + n, 0, c - n); n = c; }
    void append(const uint8_t * f, const uint8_t * t) { size_t o = n, k = (size_t) (t - f); if (!k) return; resize(n + k); if (k >= HUGE_SZ) huge_copy(d + o, f, k); else memcpy(d + o, f, k); }
    bool operator==(const Bytes & o) const { return n == o.n && (!n || !memcmp(d, o.d, n)); } bool operator!=(const Bytes & o) const { return !(*this == o); }
};
static void for_present(const void *a, size_t n, std::function<void(size_t, size_t)> f)
{   // the byte ranges [from, to) of a[0..n) whose pages exist; all others are zero
    uintptr_t b = (uintptr_t) a, lo = b & ~4095ul, hi = (b + n + 4095) & ~4095ul; static unsigned char vec[65536];
    for (uintptr_t x = lo; x < hi; ) {
        size_t len = std::min<size_t>(hi - x, sizeof vec * 4096ul); if (mincore((void *) x, len, vec)) violation("mpi-misuse", "pe%d: a message buffer of %zu bytes is not in mapped memory", cur ? cur->pe : 0, n);
        size_t np = len / 4096;
        for (size_t i = 0; i < np; ) { if (!(vec[i] & 1)) { i++; continue; } size_t j = i; while (j < np && (vec[j] & 1)) j++; uintptr_t f0 = std::max(b, x + i * 4096), t0 = std::min(b + n, x + j * 4096); if (f0 < t0) f(f0 - b, t0 - b); i = j; }
        x += len;
    }
}
void huge_zero(void *d, size_t n) { for_present(d, n, [d](size_t f, size_t t) { memset((char *) d + f, 0, t - f); }); }
void huge_copy(void *d, const void *s, size_t n)
{
    huge_zero(d, n);
    for_present(s, n, [d, s](size_t f, size_t t) { for (size_t i = f; i < t; ) { size_t e = std::min(t, i + 4096); bool z = true; for (size_t j = i; z && j < e; j++) z = !((const char *) s)[j]; if (!z) memcpy((char *) d + i, (const char *) s + i, e - i); i = e; } });
}
Bytes & Bytes::operator=(const Bytes & o) { if (this == &o) return *this; Bytes b(o.n); if (o.n >= HUGE_SZ) huge_copy(b.d, o.d, o.n); else if (o.n) memcpy(b.d, o.d, o.n); swap(b); return *this; }
// ---------------------------------------------------------------------------------------------- objects
struct Comm { int idx; std::vector<int> pes; bool freed[MAXPE]; uint64_t cseq[MAXPE]; int rank(int pe) const { for (size_t i = 0; i < pes.size(); i++) if (pes[i] == pe) return (int) i; return -1; } };
struct Group { std::vector<int> pes; bool freed = false; int owner; };
struct Seg { long off; int basic; };
struct DT { std::vector<Seg> segs; long lb = 0, extent = 0, size = 0; bool committed = false, freed = false; int owner = -1; };
struct Info { std::map<std::string, std::string> kv; bool freed = false; int owner = cur ? cur->pe : -1; };
struct Msg; struct Coll;
struct Req { int kind; int pe; bool done = false, freed = false, cancelled = false; Msg *msg = nullptr; Coll *coll = nullptr; int crank = 0;
    Comm *comm = nullptr; int src = 0, tag = 0; void *buf = nullptr; int count = 0; int dt = 0; MPI_Status st; };
enum { RQ_SEND, RQ_RECV, RQ_COLL, RQ_RMA };
struct Msg { Comm *comm; int src, dst, tag; const void *sbuf; int count, dt; Bytes data; bool captured = false, eager = true, matched = false, delivered = false; Req *sreq = nullptr; uint64_t seq; size_t bytes; };
struct Region { uintptr_t base; size_t size; };
struct Rma;
struct Win { int idx; Comm *comm; int flavor; uintptr_t base[MAXPE]; size_t size[MAXPE]; int unit[MAXPE]; std::vector<Region> att[MAXPE]; bool epoch[MAXPE]; bool freed[MAXPE]; void *mem[MAXPE];
    std::vector<Rma *> out[MAXPE]; std::map<std::string, std::string> info; uint64_t lastacc[MAXPE][MAXPE]; bool ordered = true; bool sameop = false; };
enum { R_PUT, R_GET, R_ACC, R_GACC, R_CAS };
struct Rma { Win *w; int kind, o, t, op = 0; uintptr_t taddr = 0; int tcount = 0, tdt = 0; const void *obuf = nullptr; int ocount = 0, odt = 0; void *rbuf = nullptr; int rcount = 0, rdt = 0;
    Bytes data, cmp, res; bool captured = false, acked = false; int parts = 1, applied = 0; bool started = false; uint64_t seq = 0; Req *req = nullptr; };

static std::vector<Comm *> comms; static Comm *selfcomm[MAXPE];
static std::vector<Group *> groups; static std::vector<DT *> dts; static std::map<int, DT *> predef;
static std::vector<Info *> infos; static std::vector<Win *> wins; static std::vector<Req *> reqs;
static std::deque<Msg *> unexpected[MAXPE]; static std::deque<Req *> posted[MAXPE];
static std::map<std::tuple<int, int, int>, uint64_t> chan_time;
static std::vector<std::function<void()>> softq[MAXPE];
static uint64_t mseq, rseq;
static bool inited[MAXPE], finalized[MAXPE], tinit[MAXPE]; static int provided_lvl[MAXPE]; static int main_tid[MAXPE];
static int node_of[MAXPE];
bool expect_abort = false; std::function<void(int)> on_abort;
std::function<bool(int, uintptr_t)> rma_exempt;

int mpi_provided(int pe) { return provided_lvl[pe]; }
bool mpi_is_init(int pe) { return inited[pe]; }
bool mpi_is_final(int pe) { return finalized[pe]; }
int mpi_node(int pe) { return node_of[pe]; }
bool mpi_in_call(int pe) { for (auto f : fibers) if (f->pe == pe && f->inmpi && f->st != Fiber::DONE) return true; return false; }
#define MISUSE(...) violation("mpi-misuse", __VA_ARGS__)
static int me() { return cur->pe; }

struct Enter {
    const char *sv; bool top;
    Enter(const char *n, bool pre = false) {
        int pe = me();
        if (!pre && !inited[pe]) MISUSE("pe%d: %s before MPI is initialized", pe, n);
        if (!pre && finalized[pe]) MISUSE("pe%d: %s after MPI_Finalize", pe, n);
        sv = cur->mpi; cur->mpi = n; top = cur->inmpi == 0;
        if (top && inited[pe] && !finalized[pe] && provided_lvl[pe] < MPI_THREAD_MULTIPLE) {
            for (auto f : fibers) if (f != cur && f->pe == pe && f->inmpi && f->st != Fiber::DONE)
                violation("thread-level", "pe%d: %s called while another thread is inside %s, but MPI granted only thread level %d", pe, n, f->mpi, provided_lvl[pe]);
            if (provided_lvl[pe] < MPI_THREAD_SERIALIZED && cur->tid != main_tid[pe])
                violation("thread-level", "pe%d: %s called from thread %d, but MPI granted only thread level %d", pe, n, cur->tid, provided_lvl[pe]);
        }
        cur->inmpi++;
        if (top) { if (verbose > 1) LOG("%s", n); yield_now(); drain_soft(pe); }
    }
    static void drain_soft(int pe) { while (!softq[pe].empty()) { auto q = std::move(softq[pe]); softq[pe].clear(); for (auto & f : q) f(); note_progress(); } }
    ~Enter() { cur->inmpi--; cur->mpi = sv; if (top) leave_mpi(); }
};

struct Local { ~Local() { leave_mpi(); } };      // a call without communication: the code after it can be preempted
static Comm *getcomm(int h, const char *fn)
{
    if (h == MPI_COMM_SELF) return selfcomm[me()];
    int i = h - MPI_COMM_WORLD;
    if ((h & 0x7f000000) != 0x44000000 || i < 0 || i >= (int) comms.size()) MISUSE("pe%d: %s on an invalid communicator", me(), fn);
    Comm *c = comms[(size_t) i];
    if (c->rank(me()) < 0 || c->freed[me()]) MISUSE("pe%d: %s on a communicator it is not part of or has freed", me(), fn);
    return c;
}
static Comm *newcomm(const std::vector<int> & pes) { Comm *c = new Comm; c->idx = (int) comms.size(); c->pes = pes; memset(c->freed, 0, sizeof c->freed); memset(c->cseq, 0, sizeof c->cseq); comms.push_back(c); return c; }
static int newgroup(const std::vector<int> & p) { Group *g = new Group; g->pes = p; g->owner = me(); groups.push_back(g); return 0x48000001 + (int) groups.size() - 1; }
static std::vector<int> getgroup(int h, const char *fn)
{
    if (h == MPI_GROUP_EMPTY) return {};
    int i = h - 0x48000001; if (i < 0 || i >= (int) groups.size() || groups[(size_t) i]->freed) MISUSE("pe%d: %s on an invalid group", me(), fn);
    return groups[(size_t) i]->pes;
}
static DT *getdt(int h, const char *fn, bool needcommit = true)
{
    if ((h & 0x7f000000) == 0x4c000000 && (h & 0xff0000) == 0) {
        auto & d = predef[h];
        if (!d) { int sz = h >> 8 & 0xff; if (sz == 0 || sz > 32) MISUSE("pe%d: %s with an invalid datatype", me(), fn); d = new DT; d->segs = { { 0, h } }; d->extent = d->size = sz; d->committed = true; }
        return d;
    }
    int i = h - 0x4d000000; if (i < 0 || i >= (int) dts.size()) MISUSE("pe%d: %s with an invalid datatype 0x%x", me(), fn, h);
    DT *d = dts[(size_t) i];
    if (d->freed) MISUSE("pe%d: %s with a freed datatype", me(), fn);
    if (d->owner != me()) MISUSE("pe%d: %s with a foreign datatype", me(), fn);
    if (needcommit && !d->committed) MISUSE("pe%d: %s with an uncommitted datatype", me(), fn);
    return d;
}
static int bsize(int basic) { return basic >> 8 & 0xff; }
static int newdt(DT *d) { d->owner = me(); dts.push_back(d); return 0x4d000000 + (int) dts.size() - 1; }
static Req *getreq(int h, const char *fn) { int i = h - 0x6c000000; if (i < 0 || i >= (int) reqs.size() || reqs[(size_t) i]->freed || reqs[(size_t) i]->pe != me()) MISUSE("pe%d: %s on an invalid request", me(), fn); return reqs[(size_t) i]; }
static Req *newreq(int kind, int *h) { Req *r = new Req; r->kind = kind; r->pe = me(); memset(&r->st, 0, sizeof r->st); reqs.push_back(r); if (h) *h = 0x6c000000 + (int) reqs.size() - 1; return r; }
static Info *getinfo(int h) { int i = h - 0x5c100000; if (i < 0 || i >= (int) infos.size() || infos[(size_t) i]->freed) MISUSE("pe%d: invalid info object", me()); return infos[(size_t) i]; }
static Win *getwin(int h, const char *fn) { int i = h - 0x60000000; if (i < 0 || i >= (int) wins.size() || wins[(size_t) i]->freed[me()] || wins[(size_t) i]->comm->rank(me()) < 0) MISUSE("pe%d: %s on an invalid window", me(), fn); return wins[(size_t) i]; }

// pack/unpack in the address space of a PE
static bool contig(DT * d) { return d->segs.size() == 1 && !d->segs[0].off && d->extent == d->size; }
static Bytes pack(int pe, const void *buf, long count, DT *d)
{
    Bytes b; if (count <= 0) return b; b.resize((size_t) (count * d->size)); size_t o = 0;
    if (b.size() >= HUGE_SZ) { if (!contig(d)) infra("a message of %zu bytes with a derived datatype", b.size()); huge_copy(&b[0], P(pe, buf), b.size()); return b; }
    for (long i = 0; i < count; i++) for (auto & s : d->segs) { int n = bsize(s.basic); memcpy(&b[o], P(pe, (const char *) buf + i * d->extent + s.off), (size_t) n); o += (size_t) n; }
    return b;
}
static void unpack_part(int pe, void *buf, long count, DT *d, const Bytes & b, size_t from, size_t to)
{
    size_t o = 0; if (b.size() >= HUGE_SZ) { if (!contig(d)) infra("a message of %zu bytes with a derived datatype", b.size()); if (from < b.size()) { to = std::min(to, b.size()); huge_copy(P(pe, (char *) buf + from), &b[from], to - from); } return; }
    for (long i = 0; i < count; i++) for (auto & s : d->segs) {
        int n = bsize(s.basic);
        if (o >= b.size()) return;
        if (o >= from && o < to) memcpy(P(pe, (char *) buf + i * d->extent + s.off), &b[o], (size_t) n);
        o += (size_t) n;
    }
}
static void unpack(int pe, void *buf, long count, DT *d, const Bytes & b) { unpack_part(pe, buf, count, d, b, 0, b.size()); }

// ---------------------------------------------------------------------------------------------- operations
template <class T> static void opT(int op, T *io, const T *in) {
    switch (op) {
        case MPI_SUM: *io = (T) (*in + *io); break; case MPI_PROD: *io = (T) (*in * *io); break;
        case MPI_MAX: *io = *in > *io ? *in : *io; break; case MPI_MIN: *io = *in < *io ? *in : *io; break;
        case MPI_LAND: *io = (T) (*in && *io); break; case MPI_LOR: *io = (T) (*in || *io); break; case MPI_LXOR: *io = (T) (!*in != !*io); break;
        case MPI_REPLACE: *io = *in; break; case MPI_NO_OP: break;
        default: MISUSE("pe%d: reduction operation 0x%x is not defined for this type", me(), op);
    }
}
template <class T> static void opI(int op, T *io, const T *in) {
    switch (op) { case MPI_BAND: *io &= *in; break; case MPI_BOR: *io |= *in; break; case MPI_BXOR: *io ^= *in; break; default: opT<T>(op, io, in); }
}
template <class T> static void opC(int op, T *io, const T *in) {
    switch (op) { case MPI_SUM: *io = *in + *io; break; case MPI_PROD: *io = *in * *io; break; case MPI_REPLACE: *io = *in; break; case MPI_NO_OP: break;
        default: MISUSE("pe%d: operation 0x%x is not defined for complex types", me(), op); }
}
static void apply1(int op, int basic, void *io, const void *in)
{
    alignas(32) char a[32], b[32]; int n = bsize(basic); memcpy(a, io, (size_t) n); memcpy(b, in, (size_t) n);
#define CASE(M, T, F) case M: F<T>(op, (T *) a, (const T *) b); break;
    switch (basic) {
        CASE(MPI_CHAR, char, opI) CASE(MPI_SIGNED_CHAR, signed char, opI) CASE(MPI_UNSIGNED_CHAR, unsigned char, opI) CASE(MPI_SHORT, short, opI) CASE(MPI_UNSIGNED_SHORT, unsigned short, opI)
        CASE(MPI_INT, int, opI) CASE(MPI_UNSIGNED, unsigned, opI) CASE(MPI_LONG, long, opI) CASE(MPI_UNSIGNED_LONG, unsigned long, opI) CASE(MPI_LONG_LONG_INT, long long, opI) CASE(MPI_UNSIGNED_LONG_LONG, unsigned long long, opI)
        CASE(MPI_INT8_T, int8_t, opI) CASE(MPI_INT16_T, int16_t, opI) CASE(MPI_INT32_T, int32_t, opI) CASE(MPI_INT64_T, int64_t, opI) CASE(MPI_UINT8_T, uint8_t, opI) CASE(MPI_UINT16_T, uint16_t, opI) CASE(MPI_UINT32_T, uint32_t, opI) CASE(MPI_UINT64_T, uint64_t, opI)
        CASE(MPI_AINT, long, opI) CASE(MPI_OFFSET, long, opI) CASE(MPI_COUNT, long, opI)
        CASE(MPI_FLOAT, float, opT) CASE(MPI_DOUBLE, double, opT) CASE(MPI_LONG_DOUBLE, long double, opT)
        CASE(MPI_C_FLOAT_COMPLEX, __complex__ float, opC) CASE(MPI_C_DOUBLE_COMPLEX, __complex__ double, opC) CASE(MPI_C_LONG_DOUBLE_COMPLEX, __complex__ long double, opC)
        case MPI_BYTE: case MPI_PACKED: case MPI_C_BOOL:
            if (op == MPI_REPLACE) memcpy(a, b, (size_t) n); else if (op == MPI_NO_OP) ; else if (op == MPI_BAND) a[0] &= b[0]; else if (op == MPI_BOR) a[0] |= b[0]; else if (op == MPI_BXOR) a[0] ^= b[0];
            else MISUSE("pe%d: operation 0x%x is not defined for MPI_BYTE", me(), op);
            break;
        default: infra("apply1 type 0x%x", basic);
    }
    memcpy(io, a, (size_t) n);
}
static void reduce_bytes(int op, DT *d, Bytes & io, const Bytes & in)
{
    size_t o = 0;
    if (io.size() >= HUGE_SZ) {     // all operations give zero for two zeros: only pages with data matter
        if (!contig(d)) infra("a reduction of %zu bytes with a derived datatype", io.size()); std::set<size_t> pages; for (const Bytes *x : { (const Bytes *) &io, &in }) for_present(x->begin(), x->size(), [&](size_t f, size_t t) { for (size_t i = f / 4096; i * 4096 < t; i++) pages.insert(i); });
        size_t es = (size_t) d->size; for (size_t i : pages) for (o = i * 4096; o < std::min((i + 1) * 4096, io.size()); o += es) apply1(op, d->segs[0].basic, &io[o], &in[o]);
        return;
    }
    while (o < io.size()) for (auto & s : d->segs) { apply1(op, s.basic, &io[o], &in[o]); o += (size_t) bsize(s.basic); }
}

// ---------------------------------------------------------------------------------------------- init/finalize
void mpi_init_world()
{
    std::vector<int> w; for (int i = 0; i < NPES; i++) w.push_back(i);
    newcomm(w); newcomm({ });
    for (int i = 0; i < NPES; i++) { selfcomm[i] = new Comm; selfcomm[i]->idx = 1000000 + i; selfcomm[i]->pes = { i }; memset(selfcomm[i]->freed, 0, sizeof selfcomm[i]->freed); memset(selfcomm[i]->cseq, 0, sizeof selfcomm[i]->cseq); }
    int nodes = (int) PRM("nodes", 1);
    for (int i = 0; i < NPES; i++) node_of[i] = PRM("nodecyclic") ? i % nodes : i * nodes / NPES;
}
extern "C" {
int MPI_Init_thread(int *, char ***, int req, int *prov)
{
    Enter e("MPI_Init_thread", true); int pe = me();
    if (inited[pe]) MISUSE("pe%d: MPI initialized twice", pe);
    int sup = (int) PRM("mpilevel", 3); int p = req < sup ? req : sup;
    if (p < req) probe(P_LOWTHREAD);
    if (PRM("mpihigher") && p < sup) p = sup;
    provided_lvl[pe] = p; main_tid[pe] = cur->tid; inited[pe] = true;
    if (prov) *prov = p;
    return MPI_SUCCESS;
}
int MPI_Init(int *a, char ***b) { int p; return MPI_Init_thread(a, b, MPI_THREAD_SINGLE, &p); }
int MPI_Initialized(int *f) { *f = inited[me()]; return 0; }
int MPI_Finalized(int *f) { *f = finalized[me()]; return 0; }
int MPI_Query_thread(int *p) { Local l_; *p = provided_lvl[me()]; return 0; }
int MPI_Is_thread_main(int *f) { Local l_; *f = cur->tid == main_tid[me()]; return 0; }
int MPI_Abort(MPI_Comm comm, int code)
{
    if (expect_abort && on_abort) { if ((int) getcomm((int) comm, "MPI_Abort")->pes.size() < NPES) violation("exit", "pe%d: the job is ended for a part of its PEs only", me()); on_abort(code); }
    violation("abort", "pe%d: MPI_Abort(%d) in %s: %s", me(), code, cur->oshmem, SH->where[0] ? SH->where : "(no message)");
    return 0;
}
double MPI_Wtime(void) { return (double) now_ns * 1e-9; }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Get_processor_name(char *n, int *l) { *l = sprintf(n, "node%d", node_of[me()]); return 0; }
int MPI_Get_version(int *v, int *s) { *v = 3; *s = 1; return 0; }
int MPI_Get_library_version(char *v, int *l) { *l = sprintf(v, "simulated MPI"); return 0; }
int MPI_Error_string(int c, char *s, int *l) { *l = sprintf(s, "error %d", c); return 0; }
int MPI_Error_class(int c, int *o) { *o = c; return 0; }
int MPI_T_init_thread(int, int *p) { *p = MPI_THREAD_SINGLE; tinit[me()] = true; return 0; }
int MPI_T_finalize(void) { if (!tinit[me()]) MISUSE("pe%d: MPI_T_finalize without MPI_T_init_thread", me()); return 0; }
int MPI_T_cvar_get_num(int *n) { *n = 1; return 0; }
struct simmpi_cvar { int v; };
static struct simmpi_cvar cv[MAXPE];
int MPI_T_cvar_get_index(const char *, int *i) { *i = 0; return PRM("havecvar") ? MPI_SUCCESS : MPI_T_ERR_INVALID_NAME; }
int MPI_T_cvar_handle_alloc(int, void *, MPI_T_cvar_handle * h, int *c) { *h = &cv[me()]; *c = 1; return 0; }
int MPI_T_cvar_handle_free(MPI_T_cvar_handle * h) { *h = nullptr; return 0; }
int MPI_T_cvar_write(MPI_T_cvar_handle h, const void *b) { memcpy(&h->v, b, sizeof(int)); return 0; }
int MPI_T_cvar_read(MPI_T_cvar_handle h, void *b) { memcpy(b, &h->v, sizeof(int)); return 0; }
}
int MPI_Finalize(void)
{
    Enter e("MPI_Finalize"); int pe = me();
    for (auto w : wins) if (w->comm->rank(pe) >= 0) {
        if (!w->freed[pe] && !w->out[pe].empty()) MISUSE("pe%d: MPI_Finalize with %zu incomplete one-sided operations", pe, w->out[pe].size());
    }
    for (auto r : reqs) if (r->pe == pe && !r->freed && !r->done) MISUSE("pe%d: MPI_Finalize with an incomplete %s request", pe, r->kind == RQ_RECV ? "receive" : r->kind == RQ_SEND ? "send" : "collective");
    finalized[pe] = true;
    return 0;
}
// addresses next to what pe has exposed for remote access that are not exposed themselves
std::vector<uintptr_t> mpi_edges(int pe)
{
    std::vector<Region> v; std::vector<uintptr_t> e;
    for (auto w : wins) if (w->comm->rank(pe) >= 0 && !w->freed[pe]) { if (w->size[pe]) v.push_back({ w->base[pe], w->size[pe] }); for (auto & a : w->att[pe]) v.push_back(a); }
    for (auto & r : v) for (uintptr_t c : { r.base - 1, r.base + r.size }) { bool in = false; for (auto & q : v) if (c >= q.base && c < q.base + q.size) in = true; if (!in) e.push_back(c); }
    return e;
}
// objects pe still owns: communicators, groups, the largest set of identical datatypes, infos, requests
void mpi_live(int pe, long v[5])
{
    memset(v, 0, 5 * sizeof(long));
    for (auto c : comms) if (c->idx && c->rank(pe) >= 0 && !c->freed[pe]) v[0]++;
    for (auto g : groups) if (!g->freed && g->owner == pe) v[1]++;
    std::map<std::pair<uint64_t, std::pair<long, long>>, long> same;
    for (auto d : dts) if (!d->freed && d->owner == pe) { uint64_t h = 7; for (auto & s : d->segs) h = (h * 1000003 + (uint64_t) s.off) * 31 + (uint64_t) s.basic; v[2] = std::max(v[2], ++same[{ h, { d->lb, d->extent } }]); }
    for (auto i : infos) if (!i->freed && i->owner == pe) v[3]++;
    for (auto r : reqs) if (!r->freed && r->pe == pe) v[4]++;
}
void mpi_final_checks(bool)
{
    for (int p = 0; p < NPES; p++) if (!unexpected[p].empty()) {
        Msg *m = unexpected[p].front();
        MISUSE("%zu message(s) to pe%d were never received (first: from pe%d, tag %d, %zu bytes)", unexpected[p].size(), p, m->comm->pes[(size_t) m->src], m->tag, m->bytes);
    }
}

// ---------------------------------------------------------------------------------------------- point to point
static bool match(Req *r, Msg *m) { return r->comm == m->comm && (r->src == MPI_ANY_SOURCE || r->src == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag); }
static void capture(Msg *m) { if (!m->captured) { m->data = pack(m->comm->pes[(size_t) m->src], m->sbuf, m->count, getdt(m->dt, "send")); m->captured = true; } }
static void capture_h(Msg *m)
{   // called outside the sender's fiber: datatype ownership is not checked
    if (m->captured) return;
    DT *d = (m->dt & 0x7f000000) == 0x4c000000 ? predef[m->dt] : dts[(size_t) (m->dt - 0x4d000000)];
    m->data = pack(m->comm->pes[(size_t) m->src], m->sbuf, m->count, d); m->captured = true;
}
static DT *dt_any(int h) { return (h & 0x7f000000) == 0x4c000000 && !(h & 0xff0000) ? predef[h] : dts[(size_t) (h - 0x4d000000)]; }
static void finish_recv(Req *r, Msg *m)
{
    capture_h(m);
    DT *d = dt_any(r->dt);
    if (m->data.size() > (size_t) (r->count * d->size)) MISUSE("pe%d: a %zu-byte message from pe%d (tag %d) does not fit the %ld-byte receive buffer", r->pe, m->data.size(), m->comm->pes[(size_t) m->src], m->tag, r->count * d->size);
    unpack(r->pe, r->buf, r->count, d, m->data);
    r->st.MPI_SOURCE = m->src; r->st.MPI_TAG = m->tag; r->st.MPI_ERROR = 0; r->st.count = (long) m->data.size();
    r->done = true;
    if (m->sreq && !m->eager) { Req *s = m->sreq; if (m->comm->pes[(size_t) m->src] == r->pe) s->done = true; else after(net_delay(r->pe, s->pe) / 2, [s] { s->done = true; }); }
    if (backlog > 0) { backlog--; done_ops++; }
    mpi_hash(0xA1, (uint64_t) m->seq);
}
static void do_match(Req *r, Msg *m)
{
    m->matched = true; r->msg = m; Msg *mm = m;
    uint64_t d = 0;
    if (!m->eager) d = net_delay(m->comm->pes[(size_t) m->src], r->pe);
    else if (flip(PRM("latecomp", 0), K_COMPLETE)) { d = choose_geo(600, 8000, K_COMPLETE); probe(P_OOO_COMPLETE); }
    if (d == 0) finish_recv(r, mm); else after(d, [r, mm] { finish_recv(r, mm); });
}
static void deliver(Msg *m)
{
    int pe = m->comm->pes[(size_t) m->dst]; m->delivered = true;
    mpi_hash(0xA0, m->seq);
    for (auto i = posted[pe].begin(); i != posted[pe].end(); ++i) if (match(*i, m)) { Req *r = *i; posted[pe].erase(i); do_match(r, m); return; }
    probe(P_UNEXPECTED);
    unexpected[pe].push_back(m);
}
static long tag_ub() { return PRM("tagub", 32767); }
static Req *isend(const void *buf, int count, int dt, int dst, int tag, int ch, bool sync, int *h, const char *fn)
{
    Comm *c = getcomm(ch, fn); DT *d = getdt(dt, fn);
    if (dst == MPI_PROC_NULL) { Req *r = newreq(RQ_SEND, h); r->done = true; return r; }
    if (dst < 0 || dst >= (int) c->pes.size()) MISUSE("pe%d: %s to invalid rank %d", me(), fn, dst);
    if (tag < 0 || tag > tag_ub()) MISUSE("pe%d: %s with tag %d, valid tags are 0..%ld", me(), fn, tag, tag_ub());
    if (count < 0) MISUSE("pe%d: %s with negative count", me(), fn);
    Msg *m = new Msg; m->comm = c; m->src = c->rank(me()); m->dst = dst; m->tag = tag; m->sbuf = buf; m->count = count; m->dt = dt; m->seq = mseq++; m->bytes = (size_t) (count * d->size);
    probe(P_MSG);
    m->eager = !sync && !((long) m->bytes > PRM("eagerlimit", 1 << 20)) && !flip(PRM("rendezvous"), K_EAGER);
    probe(m->eager ? P_EAGER : P_RENDEZVOUS);
    Req *r = newreq(RQ_SEND, h); r->msg = m; m->sreq = r;
    if (m->eager) {
        if (flip(PRM("latecapture"), K_CAPTURE)) probe(P_LATECAPTURE); else capture(m);
        uint64_t dl = flip(PRM("latecapture"), K_COMPLETE) ? choose_geo(500, 5000, K_COMPLETE) : 0;
        if (!dl) r->done = true; else after(dl, [r, m] { r->done = true; });
    }
    int pe = me(), tp = c->pes[(size_t) dst];
    auto key = std::make_tuple(c->idx, pe, tp);
    uint64_t at = now_ns + net_delay(pe, tp); auto & lt = chan_time[key]; if (at <= lt) at = lt + 1; lt = at;
    after(at - now_ns, [m] { deliver(m); });
    return r;
}
static Req *irecv(void *buf, int count, int dt, int src, int tag, int ch, int *h, const char *fn)
{
    Comm *c = getcomm(ch, fn); getdt(dt, fn);
    if (src != MPI_ANY_SOURCE && src != MPI_PROC_NULL && (src < 0 || src >= (int) c->pes.size())) MISUSE("pe%d: %s from invalid rank %d", me(), fn, src);
    if (tag != MPI_ANY_TAG && (tag < 0 || tag > tag_ub())) MISUSE("pe%d: %s with tag %d, valid tags are 0..%ld", me(), fn, tag, tag_ub());
    Req *r = newreq(RQ_RECV, h); r->comm = c; r->src = src; r->tag = tag; r->buf = buf; r->count = count; r->dt = dt;
    if (src == MPI_PROC_NULL) { r->done = true; return r; }
    int pe = me();
    for (auto i = unexpected[pe].begin(); i != unexpected[pe].end(); ++i) if (match(r, *i)) { Msg *m = *i; unexpected[pe].erase(i); do_match(r, m); return r; }
    posted[pe].push_back(r);
    return r;
}
static void complete(Req *r, MPI_Status *st)
{
    if (r->kind == RQ_SEND && r->msg) capture_h(r->msg);
    if (st && st != MPI_STATUS_IGNORE) { *st = r->st; st->cancelled = r->cancelled; }
    r->freed = true;
    note_progress();
}
static void wait_req(Req *r, MPI_Status *st, const char *why) { block_until(why, [r] { return r->done; }); complete(r, st); }
static bool spurious() { if (flip(PRM("spurious"), K_SPURIOUS)) { probe(P_SPURIOUS); return true; } return false; }
extern "C" {
int MPI_Send(const void *b, int c, MPI_Datatype d, int t, int tag, MPI_Comm cm) { Enter e("MPI_Send"); Req *r = isend(b, c, d, t, tag, cm, false, nullptr, "MPI_Send"); wait_req(r, nullptr, "(waiting for the receiver)"); return 0; }
int MPI_Ssend(const void *b, int c, MPI_Datatype d, int t, int tag, MPI_Comm cm) { Enter e("MPI_Ssend"); Req *r = isend(b, c, d, t, tag, cm, true, nullptr, "MPI_Ssend"); wait_req(r, nullptr, "(waiting for the receiver)"); return 0; }
int MPI_Bsend(const void *b, int c, MPI_Datatype d, int t, int tag, MPI_Comm cm) { return MPI_Send(b, c, d, t, tag, cm); }
int MPI_Rsend(const void *b, int c, MPI_Datatype d, int t, int tag, MPI_Comm cm) { return MPI_Send(b, c, d, t, tag, cm); }
int MPI_Recv(void *b, int c, MPI_Datatype d, int s, int tag, MPI_Comm cm, MPI_Status * st) { Enter e("MPI_Recv"); Req *r = irecv(b, c, d, s, tag, cm, nullptr, "MPI_Recv"); wait_req(r, st, "(waiting for a message)"); return 0; }
int MPI_Isend(const void *b, int c, MPI_Datatype d, int t, int tag, MPI_Comm cm, MPI_Request * q) { Enter e("MPI_Isend"); isend(b, c, d, t, tag, cm, false, q, "MPI_Isend"); return 0; }
int MPI_Issend(const void *b, int c, MPI_Datatype d, int t, int tag, MPI_Comm cm, MPI_Request * q) { Enter e("MPI_Issend"); isend(b, c, d, t, tag, cm, true, q, "MPI_Issend"); return 0; }
int MPI_Irecv(void *b, int c, MPI_Datatype d, int s, int tag, MPI_Comm cm, MPI_Request * q) { Enter e("MPI_Irecv"); irecv(b, c, d, s, tag, cm, q, "MPI_Irecv"); return 0; }
int MPI_Sendrecv(const void *sb, int sc, MPI_Datatype sd, int t, int stag, void *rb, int rc, MPI_Datatype rd, int s, int rtag, MPI_Comm cm, MPI_Status * st)
{ Enter e("MPI_Sendrecv"); Req *r = irecv(rb, rc, rd, s, rtag, cm, nullptr, "MPI_Sendrecv"); Req *q = isend(sb, sc, sd, t, stag, cm, false, nullptr, "MPI_Sendrecv"); wait_req(q, nullptr, "(send)"); wait_req(r, st, "(recv)"); return 0; }
static Msg *probe_msg(int s, int tag, Comm * c) { Req r; r.comm = c; r.src = s; r.tag = tag; for (auto m : unexpected[me()]) if (match(&r, m)) return m; return nullptr; }
static void probe_status(Msg * m, MPI_Status * st) { if (st && st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->cancelled = 0; st->count = (long) m->bytes; } }
int MPI_Iprobe(int s, int tag, MPI_Comm cm, int *f, MPI_Status * st)
{
    Enter e("MPI_Iprobe"); Comm *c = getcomm(cm, "MPI_Iprobe"); Msg *m = probe_msg(s, tag, c);
    if (m && spurious()) m = nullptr;
    *f = m != nullptr; if (m) probe_status(m, st); else idle_yield();
    return 0;
}
int MPI_Probe(int s, int tag, MPI_Comm cm, MPI_Status * st) { Enter e("MPI_Probe"); Comm *c = getcomm(cm, "MPI_Probe"); int pe = me(); block_until("(probe)", [=] { Req r; r.comm = c; r.src = s; r.tag = tag; for (auto m : unexpected[pe]) if (match(&r, m)) return true; return false; }); probe_status(probe_msg(s, tag, c), st); return 0; }
int MPI_Test(MPI_Request * q, int *f, MPI_Status * st)
{
    Enter e("MPI_Test"); if (*q == MPI_REQUEST_NULL) { *f = 1; return 0; }
    Req *r = getreq(*q, "MPI_Test");
    if (r->done && !spurious()) { complete(r, st); *q = MPI_REQUEST_NULL; *f = 1; } else { *f = 0; idle_yield(); }
    return 0;
}
int MPI_Request_get_status(MPI_Request q, int *f, MPI_Status * st) { Enter e("MPI_Request_get_status"); if (q == MPI_REQUEST_NULL) { *f = 1; return 0; } Req *r = getreq(q, "MPI_Request_get_status"); *f = r->done; if (r->done) { if (st && st != MPI_STATUS_IGNORE) *st = r->st; } else idle_yield(); return 0; }
int MPI_Wait(MPI_Request * q, MPI_Status * st) { Enter e("MPI_Wait"); if (*q == MPI_REQUEST_NULL) return 0; wait_req(getreq(*q, "MPI_Wait"), st, "(request)"); *q = MPI_REQUEST_NULL; return 0; }
int MPI_Testall(int n, MPI_Request * q, int *f, MPI_Status * st)
{
    Enter e("MPI_Testall"); bool all = true;
    for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL && !getreq(q[i], "MPI_Testall")->done) all = false;
    if (all && n && spurious()) all = false;
    if (!all) { *f = 0; idle_yield(); return 0; }
    for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) { complete(getreq(q[i], "MPI_Testall"), st == MPI_STATUSES_IGNORE ? nullptr : &st[i]); q[i] = MPI_REQUEST_NULL; }
    *f = 1; return 0;
}
int MPI_Waitall(int n, MPI_Request * q, MPI_Status * st) { Enter e("MPI_Waitall"); for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) { wait_req(getreq(q[i], "MPI_Waitall"), st == MPI_STATUSES_IGNORE ? nullptr : &st[i], "(requests)"); q[i] = MPI_REQUEST_NULL; } return 0; }
static int pick_done(int n, MPI_Request * q) { std::vector<int> d; for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL && getreq(q[i], "Testany")->done) d.push_back(i); if (d.empty()) return -1; uint32_t k = choose((uint32_t) d.size(), K_COMPLETE); return d[k]; }
int MPI_Testany(int n, MPI_Request * q, int *ix, int *f, MPI_Status * st)
{
    Enter e("MPI_Testany"); bool any = false; for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) any = true;
    if (!any) { *f = 1; *ix = MPI_UNDEFINED; return 0; }
    int k = pick_done(n, q); if (k >= 0 && spurious()) k = -1;
    if (k < 0) { *f = 0; *ix = MPI_UNDEFINED; idle_yield(); return 0; }
    complete(getreq(q[k], "MPI_Testany"), st); q[k] = MPI_REQUEST_NULL; *ix = k; *f = 1; return 0;
}
int MPI_Waitany(int n, MPI_Request * q, int *ix, MPI_Status * st)
{
    Enter e("MPI_Waitany"); std::vector<Req *> rs; for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) rs.push_back(getreq(q[i], "MPI_Waitany"));
    if (rs.empty()) { *ix = MPI_UNDEFINED; return 0; }
    block_until("(any request)", [rs] { for (auto r : rs) if (r->done) return true; return false; });
    int k = pick_done(n, q); complete(getreq(q[k], "MPI_Waitany"), st); q[k] = MPI_REQUEST_NULL; *ix = k; return 0;
}
int MPI_Testsome(int n, MPI_Request * q, int *oc, int *ix, MPI_Status * st)
{
    Enter e("MPI_Testsome"); bool any = false; int k = 0; for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) any = true;
    if (!any) { *oc = MPI_UNDEFINED; return 0; }
    for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) { Req *r = getreq(q[i], "MPI_Testsome"); if (r->done && !spurious()) { complete(r, st == MPI_STATUSES_IGNORE ? nullptr : &st[k]); q[i] = MPI_REQUEST_NULL; ix[k++] = i; } }
    *oc = k; if (!k) idle_yield(); return 0;
}
int MPI_Waitsome(int n, MPI_Request * q, int *oc, int *ix, MPI_Status * st) { do { MPI_Testsome(n, q, oc, ix, st); } while (*oc == 0); return 0; }
int MPI_Request_free(MPI_Request * q) { Enter e("MPI_Request_free"); Req *r = getreq(*q, "MPI_Request_free"); r->freed = true; *q = MPI_REQUEST_NULL; return 0; }
int MPI_Cancel(MPI_Request * q)
{
    Enter e("MPI_Cancel"); Req *r = getreq(*q, "MPI_Cancel");
    if (r->kind == RQ_RECV && !r->msg) { auto & p = posted[me()]; for (auto i = p.begin(); i != p.end(); ++i) if (*i == r) { p.erase(i); break; } r->cancelled = true; r->done = true; }
    return 0;
}
int MPI_Test_cancelled(const MPI_Status * st, int *f) { *f = st->cancelled; return 0; }
int MPI_Get_count(const MPI_Status * st, MPI_Datatype d, int *c) { Local l_; *c = (int) (st->count / getdt(d, "MPI_Get_count")->size); return 0; }
int MPI_Get_elements(const MPI_Status * st, MPI_Datatype d, int *c) { return MPI_Get_count(st, d, c); }
}

// ---------------------------------------------------------------------------------------------- collectives
struct CR { bool arrived = false, sched = false, done = false; int pe; const void *sb = nullptr; int sc = 0, sd = 0; void *rb = nullptr; int rc = 0, rd = 0;
    std::vector<int> scs, sds, rcs, rds; Bytes cap; bool captured = false, inplace = false; Req *req = nullptr; int ival = 0, ival2 = 0, res = 0; std::vector<int> grp; void *ptr = nullptr; size_t size = 0; int unit = 1; std::map<std::string, std::string> info; };
enum CK { C_BARRIER, C_BCAST, C_ALLGATHER, C_ALLGATHERV, C_GATHER, C_GATHERV, C_SCATTER, C_SCATTERV, C_ALLTOALL, C_ALLTOALLV, C_ALLREDUCE, C_REDUCE, C_SCAN, C_EXSCAN, C_REDSCAT, C_DUP, C_SPLIT, C_CREATE, C_CGROUP, C_WCREATE, C_WDYN, C_WALLOC, C_WFREE, C_WFENCE };
static const char *ckname[] = { "barrier", "broadcast", "allgather", "allgatherv", "gather", "gatherv", "scatter", "scatterv", "alltoall", "alltoallv", "allreduce", "reduce", "scan", "exscan", "reduce_scatter", "comm_dup", "comm_split", "comm_create", "comm_create_group", "win_create", "win_create_dynamic", "win_allocate", "win_free", "win_fence" };
struct Coll { Comm *c; CK k; int root = -1, op = 0; std::vector<CR> r; int arrived = 0; bool computed = false; std::vector<int> pes; Win *w = nullptr; int n() { return (int) r.size(); } };
static std::map<std::pair<int, uint64_t>, Coll *> colls; static std::map<std::string, Coll *> cgroups;

static size_t contrib(Coll * c, int from, int to)
{   // bytes that "to" needs from "from"
    CR & f = c->r[(size_t) from];
    auto sz = [&](int cnt, int dt) { return (size_t) cnt * (size_t) dt_any(dt)->size; };
    switch (c->k) {
        case C_BCAST: return from == c->root && to != c->root ? sz(f.rc, f.rd) : 0;
        case C_ALLGATHER: return f.inplace ? sz(f.rc, f.rd) : sz(f.sc, f.sd);
        case C_ALLGATHERV: return f.inplace ? sz(f.rcs[(size_t) from], f.rd) : sz(f.sc, f.sd);
        case C_GATHER: case C_GATHERV: return to == c->root ? (f.inplace ? 0 : sz(f.sc, f.sd)) : 0;
        case C_SCATTER: case C_SCATTERV: return from == c->root ? 1 : 0;
        case C_ALLTOALL: return f.inplace ? sz(f.rc, f.rd) : sz(f.sc, f.sd);
        case C_ALLTOALLV: return f.inplace ? 1 : sz(f.scs[(size_t) to], f.sd);
        case C_ALLREDUCE: case C_REDSCAT: return sz(f.rc ? f.rc : f.sc, f.rd);
        case C_REDUCE: return to == c->root ? sz(f.sc, f.sd) : 0;
        case C_SCAN: case C_EXSCAN: return from <= to ? sz(f.sc, f.sd) : 0;
        default: return 1;
    }
}
static bool coll_ready(Coll * c, int r)
{
    if (c->arrived == c->n()) return true;
    switch (c->k) {
        case C_BCAST: case C_GATHER: case C_GATHERV: case C_SCATTER: case C_SCATTERV: case C_REDUCE: case C_SCAN: case C_EXSCAN: break;
        case C_ALLGATHER: case C_ALLREDUCE: case C_ALLTOALL: if (PRM("zerocoll")) break; return false;
        default: return false;
    }
    if ((c->k == C_ALLGATHER || c->k == C_ALLREDUCE || c->k == C_ALLTOALL)) { if (contrib(c, r, r) != 0) return false; probe(P_COLLEARLY); return true; }
    for (int i = 0; i < c->n(); i++) {
        if (i == r || c->r[(size_t) i].arrived) continue;
        // what an absent rank would contribute is unknown: assume data wherever the pattern allows any
        bool need = false;
        if (c->k == C_BCAST || c->k == C_SCATTER || c->k == C_SCATTERV) need = i == c->root;
        else if (c->k == C_GATHER || c->k == C_GATHERV || c->k == C_REDUCE) need = r == c->root;
        else need = i < r;
        if (need && !(c->k == C_BCAST && c->r[(size_t) r].rc == 0)) return false;
    }
    probe(P_COLLEARLY);
    return true;
}
static Bytes whole_contrib(Coll * c, int i)
{   // all bytes rank i may contribute, read from its buffer now
    CR & f = c->r[(size_t) i];
    auto pk = [&](const void *b, long cnt, int dt) { return pack(f.pe, b, cnt, dt_any(dt)); };
    switch (c->k) {
        case C_BCAST: return i == c->root ? pk(f.rb, f.rc, f.rd) : Bytes();
        case C_ALLGATHER: return f.inplace ? pk((char *) f.rb + (long) i * f.rc * dt_any(f.rd)->extent, f.rc, f.rd) : pk(f.sb, f.sc, f.sd);
        case C_ALLGATHERV: return f.inplace ? pk((char *) f.rb + (long) f.rds[(size_t) i] * dt_any(f.rd)->extent, f.rcs[(size_t) i], f.rd) : pk(f.sb, f.sc, f.sd);
        case C_GATHER: return f.inplace ? pk((char *) f.rb + (long) i * f.rc * dt_any(f.rd)->extent, f.rc, f.rd) : pk(f.sb, f.sc, f.sd);
        case C_GATHERV: return f.inplace ? pk((char *) f.rb + (long) f.rds[(size_t) i] * dt_any(f.rd)->extent, f.rcs[(size_t) i], f.rd) : pk(f.sb, f.sc, f.sd);
        case C_SCATTER: return i == c->root ? pk(f.sb, (long) f.sc * c->n(), f.sd) : Bytes();
        case C_SCATTERV: { Bytes b; if (i == c->root) for (int j = 0; j < c->n(); j++) { Bytes x = pk((char *) f.sb + (long) f.sds[(size_t) j] * dt_any(f.sd)->extent, f.scs[(size_t) j], f.sd); b.append(x.begin(), x.end()); } return b; }
        case C_ALLTOALL: return f.inplace ? pk(f.rb, (long) f.rc * c->n(), f.rd) : pk(f.sb, (long) f.sc * c->n(), f.sd);
        case C_ALLTOALLV: { Bytes b; for (int j = 0; j < c->n(); j++) { Bytes x = f.inplace ? pk((char *) f.rb + (long) f.rds[(size_t) j] * dt_any(f.rd)->extent, f.rcs[(size_t) j], f.rd) : pk((char *) f.sb + (long) f.sds[(size_t) j] * dt_any(f.sd)->extent, f.scs[(size_t) j], f.sd); b.append(x.begin(), x.end()); } return b; }
        case C_ALLREDUCE: case C_REDUCE: case C_SCAN: case C_EXSCAN: return pk(f.inplace ? f.rb : f.sb, f.inplace ? f.rc : f.sc, f.inplace ? f.rd : f.sd);
        case C_REDSCAT: return pk(f.inplace ? f.rb : f.sb, (long) f.rc * c->n(), f.rd);
        default: return Bytes();
    }
}
static const Bytes & get_contrib(Coll * c, int i) { CR & f = c->r[(size_t) i]; if (!f.captured) { f.cap = whole_contrib(c, i); if (f.done || f.inplace) f.captured = true; } return f.cap; }
static void put_block(Coll * c, CR & d, const void *at, long cnt, int dt, const Bytes & b, size_t off, size_t len, const char *what)
{
    DT *t = dt_any(dt);
    if (len > (size_t) (cnt * t->size)) MISUSE("%s: block of %zu bytes for a receive buffer of %ld bytes at pe%d", what, len, cnt * t->size, d.pe);
    Bytes x(b.begin() + (long) off, b.begin() + (long) (off + len));
    unpack(d.pe, (void *) at, cnt, t, x);
}
static void comm_compute(Coll * c);
static void coll_perform(Coll * c, int r)
{
    CR & d = c->r[(size_t) r]; const char *nm = ckname[c->k];
    // own contribution must survive both the own result and the departure of this rank
    if (c->k <= C_REDSCAT && !d.captured) { d.cap = whole_contrib(c, r); d.captured = true; }
    DT *rt = d.rd ? dt_any(d.rd) : nullptr;
    switch (c->k) {
        case C_BCAST: if (r != c->root && d.rc) { const Bytes & b = get_contrib(c, c->root); if (b.size() != (size_t) d.rc * (size_t) rt->size) MISUSE("broadcast: root sends %zu bytes, pe%d expects %ld", b.size(), d.pe, d.rc * rt->size); unpack(d.pe, d.rb, d.rc, rt, b); } break;
        case C_ALLGATHER: case C_GATHER:
            if (c->k == C_GATHER && r != c->root) break;
            for (int i = 0; i < c->n(); i++) { if (!c->r[(size_t) i].arrived) continue; const Bytes & b = get_contrib(c, i); if (b.size() != (size_t) d.rc * (size_t) rt->size) MISUSE("%s: pe%d contributes %zu bytes, pe%d expects %ld", nm, c->r[(size_t) i].pe, b.size(), d.pe, d.rc * rt->size); put_block(c, d, (char *) d.rb + (long) i * d.rc * rt->extent, d.rc, d.rd, b, 0, b.size(), nm); }
            break;
        case C_ALLGATHERV: case C_GATHERV:
            if (c->k == C_GATHERV && r != c->root) break;
            for (int i = 0; i < c->n(); i++) { const Bytes & b = get_contrib(c, i); if (b.size() != (size_t) d.rcs[(size_t) i] * (size_t) rt->size) MISUSE("%s: pe%d contributes %zu bytes, pe%d expects %ld", nm, c->r[(size_t) i].pe, b.size(), d.pe, d.rcs[(size_t) i] * rt->size); put_block(c, d, (char *) d.rb + (long) d.rds[(size_t) i] * rt->extent, d.rcs[(size_t) i], d.rd, b, 0, b.size(), nm); }
            break;
        case C_SCATTER: { const Bytes & b = get_contrib(c, c->root); size_t s = b.size() / (size_t) c->n(); if (!d.inplace) put_block(c, d, d.rb, d.rc, d.rd, b, s * (size_t) r, s, nm); break; }
        case C_SCATTERV: { const Bytes & b = get_contrib(c, c->root); CR & rt0 = c->r[(size_t) c->root]; size_t o = 0, s = (size_t) dt_any(rt0.sd)->size; for (int i = 0; i < r; i++) o += (size_t) rt0.scs[(size_t) i] * s; put_block(c, d, d.rb, d.rc, d.rd, b, o, (size_t) rt0.scs[(size_t) r] * s, nm); break; }
        case C_ALLTOALL:
            for (int i = 0; i < c->n(); i++) { if (!c->r[(size_t) i].arrived) continue; const Bytes & b = get_contrib(c, i); size_t s = b.size() / (size_t) c->n(); if (s != (size_t) d.rc * (size_t) rt->size) MISUSE("alltoall: pe%d sends %zu bytes, pe%d expects %ld", c->r[(size_t) i].pe, s, d.pe, d.rc * rt->size); put_block(c, d, (char *) d.rb + (long) i * d.rc * rt->extent, d.rc, d.rd, b, s * (size_t) r, s, nm); }
            break;
        case C_ALLTOALLV:
            for (int i = 0; i < c->n(); i++) { const Bytes & b = get_contrib(c, i); CR & f = c->r[(size_t) i]; size_t o = 0, s = (size_t) dt_any(f.inplace ? f.rd : f.sd)->size; auto & cn = f.inplace ? f.rcs : f.scs; for (int j = 0; j < r; j++) o += (size_t) cn[(size_t) j] * s; put_block(c, d, (char *) d.rb + (long) d.rds[(size_t) i] * rt->extent, d.rcs[(size_t) i], d.rd, b, o, (size_t) cn[(size_t) r] * s, nm); }
            break;
        case C_ALLREDUCE: case C_REDUCE: case C_SCAN: case C_EXSCAN: case C_REDSCAT: {
            if (c->k == C_REDUCE && r != c->root) break;
            Bytes acc; bool first = true; int hi = c->k == C_SCAN ? r + 1 : c->k == C_EXSCAN ? r : c->n();
            for (int i = 0; i < hi; i++) { if (!c->r[(size_t) i].arrived) continue; const Bytes & b = get_contrib(c, i); if (first) { acc = b; first = false; } else { if (b.size() != acc.size()) MISUSE("%s: pe%d contributes %zu bytes, others %zu", nm, c->r[(size_t) i].pe, b.size(), acc.size()); reduce_bytes(c->op, rt, acc, b); } }
            if (c->k == C_REDSCAT) { size_t s = acc.size() / (size_t) c->n(); put_block(c, d, d.rb, d.rc, d.rd, acc, s * (size_t) r, s, nm); }
            else if (hi > 0) { if (!acc.empty()) apply1(MPI_NO_OP, rt->segs[0].basic, &acc[0], &acc[0]); unpack(d.pe, d.rb, d.rc, rt, acc); }
            break;
        }
        default: break;
    }
    d.done = true;
    mpi_hash(0xC0 + (uint64_t) c->k, (uint64_t) r);
    if (d.req) d.req->done = true;
    bool all = true; for (auto & x : c->r) if (!x.done) all = false;
    if (all) { for (auto & x : c->r) { x.cap.clear(); x.cap.shrink_to_fit(); } }
}
static void coll_advance(Coll * c)
{
    if (c->arrived == c->n() && !c->computed) { c->computed = true; comm_compute(c); }
    for (int i = 0; i < c->n(); i++) {
        CR & d = c->r[(size_t) i]; if (!d.arrived || d.sched || !coll_ready(c, i)) continue;
        d.sched = true;
        after(net_delay(d.pe, c->n() > 1 ? c->r[(size_t) ((i + 1) % c->n())].pe : d.pe), [c, i] { coll_perform(c, i); });
    }
}
static std::pair<Coll *, int> coll_enter(Comm * c, CK k, int root, int op, const char *fn)
{
    int r = c->rank(me()); auto key = std::make_pair(c->idx, c->cseq[me()]++);
    Coll *&x = colls[key];
    probe(P_COLL);
    if (!x) { x = new Coll; x->c = c; x->k = k; x->root = root; x->op = op; x->r.resize(c->pes.size()); x->pes = c->pes; }
    if (x->k != k) MISUSE("pe%d calls %s where another member of the communicator calls %s", me(), ckname[k], ckname[x->k]);
    if (x->root != root) MISUSE("%s: pe%d gives root %d, another member root %d", ckname[k], me(), root, x->root);
    if (x->op != op) MISUSE("%s: members give different operations", ckname[k]);
    if (root >= (int) c->pes.size() || root < -1) MISUSE("%s: pe%d gives root %d on a communicator of size %zu", ckname[k], me(), root, c->pes.size());
    CR & d = x->r[(size_t) r]; d.pe = me();
    return { x, r };
}
static void coll_go(Coll * c, int r, MPI_Request * q)
{
    CR & d = c->r[(size_t) r]; 
    if (q) { d.req = newreq(RQ_COLL, q); d.req->coll = c; d.req->crank = r; }
    d.arrived = true; c->arrived++;
    LOG("enter %s on comm %d (%d of %d)", ckname[c->k], c->c->idx, c->arrived, c->n());
    coll_advance(c);
    if (!q) block_until(ckname[c->k], [c, r] { return c->r[(size_t) r].done; });
    if (!q) note_progress();
}
static void alias_check(const char *fn, const void *a, size_t an, const void *b, size_t bn)
{
    if (!an || !bn) return;
    uintptr_t x = (uintptr_t) a, y = (uintptr_t) b;
    if (x < y + bn && y < x + an) MISUSE("pe%d: %s with overlapping send and receive buffers", me(), fn);
}
#define CHK(d) do { if (d) getdt(d, fn); } while (0)
static int do_coll(CK k, const char *fn, const void *sb, int sc, int sd, void *rb, int rc, int rd, int root, int op, int ch, MPI_Request * q, const int *scs = nullptr, const int *sds = nullptr, const int *rcs = nullptr, const int *rds = nullptr)
{
    Enter e(fn); Comm *c = getcomm(ch, fn); int n = (int) c->pes.size();
    if (k != C_BARRIER) { bool ip = sb == MPI_IN_PLACE; if (!ip && k != C_BCAST) CHK(sd); if (rb != MPI_IN_PLACE && (k != C_GATHER && k != C_GATHERV && k != C_REDUCE)) CHK(rd); if (sc < 0 || rc < 0) MISUSE("pe%d: %s with negative count", me(), fn); }
    auto p = coll_enter(c, k, root, op, fn); CR & d = p.first->r[(size_t) p.second];
    d.sb = sb; d.sc = sc; d.sd = sd; d.rb = rb; d.rc = rc; d.rd = rd; d.inplace = sb == MPI_IN_PLACE && k != C_BARRIER && k != C_BCAST;
    if (k == C_SCATTER && rb == MPI_IN_PLACE) d.inplace = true;
    if (scs) d.scs.assign(scs, scs + n); if (sds) d.sds.assign(sds, sds + n);
    if (rcs) d.rcs.assign(rcs, rcs + n); if (rds) d.rds.assign(rds, rds + n);
    if (!d.inplace && sb && rb && (k == C_ALLREDUCE || k == C_ALLGATHER || k == C_ALLTOALL)) {
        long m = k == C_ALLTOALL ? n : 1, m2 = k == C_ALLREDUCE ? 1 : n;
        DT *s = getdt(sd, fn), *t = getdt(rd, fn);
        if (s->size == s->extent && t->size == t->extent) alias_check(fn, sb, (size_t) (m * sc * s->size), rb, (size_t) (m2 * rc * t->size));
    }
    coll_go(p.first, p.second, q);
    return 0;
}
extern "C" {
int MPI_Barrier(MPI_Comm c) { return do_coll(C_BARRIER, "MPI_Barrier", 0, 0, 0, 0, 0, 0, -1, 0, c, nullptr); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request * q) { return do_coll(C_BARRIER, "MPI_Ibarrier", 0, 0, 0, 0, 0, 0, -1, 0, c, q); }
int MPI_Bcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c) { return do_coll(C_BCAST, "MPI_Bcast", 0, 0, 0, b, n, d, root, 0, c, nullptr); }
int MPI_Ibcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c, MPI_Request * q) { return do_coll(C_BCAST, "MPI_Ibcast", 0, 0, 0, b, n, d, root, 0, c, q); }
int MPI_Allgather(const void *s, int sc, MPI_Datatype sd, void *r, int rc, MPI_Datatype rd, MPI_Comm c) { return do_coll(C_ALLGATHER, "MPI_Allgather", s, sc, sd, r, rc, rd, -1, 0, c, nullptr); }
int MPI_Iallgather(const void *s, int sc, MPI_Datatype sd, void *r, int rc, MPI_Datatype rd, MPI_Comm c, MPI_Request * q) { return do_coll(C_ALLGATHER, "MPI_Iallgather", s, sc, sd, r, rc, rd, -1, 0, c, q); }
int MPI_Allgatherv(const void *s, int sc, MPI_Datatype sd, void *r, const int *rcs, const int *rds, MPI_Datatype rd, MPI_Comm c) { return do_coll(C_ALLGATHERV, "MPI_Allgatherv", s, sc, sd, r, 0, rd, -1, 0, c, nullptr, 0, 0, rcs, rds); }
int MPI_Iallgatherv(const void *s, int sc, MPI_Datatype sd, void *r, const int *rcs, const int *rds, MPI_Datatype rd, MPI_Comm c, MPI_Request * q) { return do_coll(C_ALLGATHERV, "MPI_Iallgatherv", s, sc, sd, r, 0, rd, -1, 0, c, q, 0, 0, rcs, rds); }
int MPI_Gather(const void *s, int sc, MPI_Datatype sd, void *r, int rc, MPI_Datatype rd, int root, MPI_Comm c) { return do_coll(C_GATHER, "MPI_Gather", s, sc, sd, r, rc, rd, root, 0, c, nullptr); }
int MPI_Igather(const void *s, int sc, MPI_Datatype sd, void *r, int rc, MPI_Datatype rd, int root, MPI_Comm c, MPI_Request * q) { return do_coll(C_GATHER, "MPI_Igather", s, sc, sd, r, rc, rd, root, 0, c, q); }
int MPI_Gatherv(const void *s, int sc, MPI_Datatype sd, void *r, const int *rcs, const int *rds, MPI_Datatype rd, int root, MPI_Comm c) { bool rt = getcomm(c, "MPI_Gatherv")->rank(me()) == root; return do_coll(C_GATHERV, "MPI_Gatherv", s, sc, sd, r, 0, rd, root, 0, c, nullptr, 0, 0, rt ? rcs : nullptr, rt ? rds : nullptr); }
int MPI_Scatter(const void *s, int sc, MPI_Datatype sd, void *r, int rc, MPI_Datatype rd, int root, MPI_Comm c) { return do_coll(C_SCATTER, "MPI_Scatter", s, sc, sd, r, rc, rd, root, 0, c, nullptr); }
int MPI_Iscatter(const void *s, int sc, MPI_Datatype sd, void *r, int rc, MPI_Datatype rd, int root, MPI_Comm c, MPI_Request * q) { return do_coll(C_SCATTER, "MPI_Iscatter", s, sc, sd, r, rc, rd, root, 0, c, q); }
int MPI_Scatterv(const void *s, const int *scs, const int *sds, MPI_Datatype sd, void *r, int rc, MPI_Datatype rd, int root, MPI_Comm c) { bool rt = getcomm(c, "MPI_Scatterv")->rank(me()) == root; return do_coll(C_SCATTERV, "MPI_Scatterv", s, 0, sd, r, rc, rd, root, 0, c, nullptr, rt ? scs : nullptr, rt ? sds : nullptr); }
int MPI_Alltoall(const void *s, int sc, MPI_Datatype sd, void *r, int rc, MPI_Datatype rd, MPI_Comm c) { return do_coll(C_ALLTOALL, "MPI_Alltoall", s, sc, sd, r, rc, rd, -1, 0, c, nullptr); }
int MPI_Ialltoall(const void *s, int sc, MPI_Datatype sd, void *r, int rc, MPI_Datatype rd, MPI_Comm c, MPI_Request * q) { return do_coll(C_ALLTOALL, "MPI_Ialltoall", s, sc, sd, r, rc, rd, -1, 0, c, q); }
int MPI_Alltoallv(const void *s, const int *scs, const int *sds, MPI_Datatype sd, void *r, const int *rcs, const int *rds, MPI_Datatype rd, MPI_Comm c) { return do_coll(C_ALLTOALLV, "MPI_Alltoallv", s, 0, sd, r, 0, rd, -1, 0, c, nullptr, scs, sds, rcs, rds); }
int MPI_Ialltoallv(const void *s, const int *scs, const int *sds, MPI_Datatype sd, void *r, const int *rcs, const int *rds, MPI_Datatype rd, MPI_Comm c, MPI_Request * q) { return do_coll(C_ALLTOALLV, "MPI_Ialltoallv", s, 0, sd, r, 0, rd, -1, 0, c, q, scs, sds, rcs, rds); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return do_coll(C_ALLREDUCE, "MPI_Allreduce", s, n, d, r, n, d, -1, op, c, nullptr); }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c, MPI_Request * q) { return do_coll(C_ALLREDUCE, "MPI_Iallreduce", s, n, d, r, n, d, -1, op, c, q); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c) { return do_coll(C_REDUCE, "MPI_Reduce", s, n, d, r, n, d, root, op, c, nullptr); }
int MPI_Ireduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c, MPI_Request * q) { return do_coll(C_REDUCE, "MPI_Ireduce", s, n, d, r, n, d, root, op, c, q); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return do_coll(C_SCAN, "MPI_Scan", s, n, d, r, n, d, -1, op, c, nullptr); }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return do_coll(C_EXSCAN, "MPI_Exscan", s, n, d, r, n, d, -1, op, c, nullptr); }
int MPI_Reduce_scatter_block(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return do_coll(C_REDSCAT, "MPI_Reduce_scatter_block", s, n, d, r, n, d, -1, op, c, nullptr); }
int MPI_Reduce_local(const void *a, void *b, int n, MPI_Datatype d, MPI_Op op) { Enter e("MPI_Reduce_local"); DT *t = getdt(d, "MPI_Reduce_local"); Bytes x = pack(me(), a, n, t), y = pack(me(), b, n, t); reduce_bytes(op, t, y, x); unpack(me(), b, n, t, y); return 0; }
}

// ---------------------------------------------------------------------------------------------- communicators and windows (collective)
static void comm_compute(Coll * c)
{
    int n = c->n();
    switch (c->k) {
        case C_DUP: { Comm *x = newcomm(c->c->pes); for (auto & r : c->r) r.res = MPI_COMM_WORLD + x->idx; break; }
        case C_SPLIT: {
            std::map<int, std::vector<std::tuple<int, int, int>>> cols;
            for (int i = 0; i < n; i++) if (c->r[(size_t) i].ival != MPI_UNDEFINED) cols[c->r[(size_t) i].ival].push_back({ c->r[(size_t) i].ival2, i, c->r[(size_t) i].pe });
            for (int i = 0; i < n; i++) c->r[(size_t) i].res = MPI_COMM_NULL;
            for (auto & kv : cols) { std::sort(kv.second.begin(), kv.second.end()); std::vector<int> p; for (auto & t : kv.second) p.push_back(std::get<2>(t)); Comm *x = newcomm(p); for (auto & t : kv.second) c->r[(size_t) std::get<1>(t)].res = MPI_COMM_WORLD + x->idx; }
            break;
        }
        case C_CREATE: {
            std::map<std::vector<int>, Comm *> m;
            for (auto & r : c->r) { r.res = MPI_COMM_NULL; if (std::find(r.grp.begin(), r.grp.end(), r.pe) == r.grp.end()) continue; Comm *&x = m[r.grp]; if (!x) x = newcomm(r.grp); r.res = MPI_COMM_WORLD + x->idx; }
            break;
        }
        case C_CGROUP: { Comm *x = newcomm(c->pes); for (auto & r : c->r) r.res = MPI_COMM_WORLD + x->idx; break; }
        case C_WCREATE: case C_WDYN: case C_WALLOC: {
            Win *w = new Win; w->idx = (int) wins.size(); w->comm = c->c; w->flavor = c->k == C_WDYN ? MPI_WIN_FLAVOR_DYNAMIC : c->k == C_WALLOC ? MPI_WIN_FLAVOR_ALLOCATE : MPI_WIN_FLAVOR_CREATE;
            memset(w->epoch, 0, sizeof w->epoch); memset(w->freed, 0, sizeof w->freed); memset(w->lastacc, 0, sizeof w->lastacc); memset(w->mem, 0, sizeof w->mem);
            for (auto & r : c->r) { w->base[r.pe] = (uintptr_t) r.ptr; w->size[r.pe] = r.size; w->unit[r.pe] = r.unit; w->mem[r.pe] = c->k == C_WALLOC ? r.ptr : nullptr; for (auto & kv : r.info) w->info[kv.first] = kv.second; }
            auto o = w->info.find("accumulate_ordering"); if (o != w->info.end() && o->second == "none") w->ordered = false;
            auto a = w->info.find("accumulate_ops"); w->sameop = a != w->info.end() && (a->second == "same_op" || (a->second == "same_op_no_op" && PRM("sameopnoop")));
            wins.push_back(w); for (auto & r : c->r) r.res = 0x60000000 + w->idx;
            break;
        }
        default: break;
    }
}
static int comm_coll(CK k, Comm * c, const char *fn, int a, int b, const std::vector<int> & grp, int *out)
{
    auto p = coll_enter(c, k, -1, 0, fn); CR & d = p.first->r[(size_t) p.second]; d.ival = a; d.ival2 = b; d.grp = grp;
    coll_go(p.first, p.second, nullptr); *out = d.res; return 0;
}
static int win_coll(CK k, int ch, const char *fn, void *base, MPI_Aint size, int unit, int info, int *out, void **bout)
{
    Enter e(fn); Comm *c = getcomm(ch, fn); auto p = coll_enter(c, k, -1, 0, fn); CR & d = p.first->r[(size_t) p.second];
    if (size < 0) MISUSE("pe%d: %s with negative size", me(), fn);
    if (k == C_WALLOC) { size_t al = PRM("winalign", 4096); if (uint64_t sk = PRM("winskew") >> (2 * (me() % 16)) & 3) { pe_skew(me(), sk * al); } base = pe_alloc(me(), (size_t) size, al); }     // aligned the same, but at different multiples
    d.ptr = base; d.size = (size_t) size; d.unit = unit; if (info != MPI_INFO_NULL) d.info = getinfo(info)->kv;
    coll_go(p.first, p.second, nullptr); *out = d.res; if (bout) *bout = base; return 0;
}
extern "C" {
int MPI_Comm_dup(MPI_Comm c, MPI_Comm * n) { Enter e("MPI_Comm_dup"); return comm_coll(C_DUP, getcomm(c, "MPI_Comm_dup"), "MPI_Comm_dup", 0, 0, { }, n); }
int MPI_Comm_dup_with_info(MPI_Comm c, MPI_Info, MPI_Comm * n) { return MPI_Comm_dup(c, n); }
int MPI_Comm_split(MPI_Comm c, int col, int key, MPI_Comm * n) { Enter e("MPI_Comm_split"); if (col < 0 && col != MPI_UNDEFINED) MISUSE("pe%d: MPI_Comm_split with negative color %d", me(), col); return comm_coll(C_SPLIT, getcomm(c, "MPI_Comm_split"), "MPI_Comm_split", col, key, { }, n); }
int MPI_Comm_split_type(MPI_Comm c, int t, int key, MPI_Info, MPI_Comm * n) { Enter e("MPI_Comm_split_type"); return comm_coll(C_SPLIT, getcomm(c, "MPI_Comm_split_type"), "MPI_Comm_split_type", t == MPI_UNDEFINED ? t : node_of[me()], key, { }, n); }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm * n) { Enter e("MPI_Comm_create"); return comm_coll(C_CREATE, getcomm(c, "MPI_Comm_create"), "MPI_Comm_create", 0, 0, getgroup(g, "MPI_Comm_create"), n); }
int MPI_Comm_create_group(MPI_Comm ch, MPI_Group g, int tag, MPI_Comm * n)
{
    Enter e("MPI_Comm_create_group"); Comm *c = getcomm(ch, "MPI_Comm_create_group"); auto grp = getgroup(g, "MPI_Comm_create_group");
    if (tag < 0 || tag > tag_ub()) MISUSE("pe%d: MPI_Comm_create_group with tag %d", me(), tag);
    int r = -1; for (size_t i = 0; i < grp.size(); i++) { if (c->rank(grp[i]) < 0) MISUSE("pe%d: MPI_Comm_create_group with a group outside the communicator", me()); if (grp[i] == me()) r = (int) i; }
    if (r < 0) { *n = MPI_COMM_NULL; return 0; }
    std::string key = std::to_string(c->idx) + ":" + std::to_string(tag); for (int p : grp) key += "," + std::to_string(p);
    static std::map<std::tuple<int, int, int>, int> busy; int & nbusy = busy[std::make_tuple(me(), c->idx, tag)];
    if (nbusy) MISUSE("pe%d: two threads are in MPI_Comm_create_group on one communicator with the same tag %d", me(), tag);
    nbusy++;
    Coll *&x = cgroups[key];
    if (x && x->r[(size_t) r].arrived) x = nullptr;
    if (!x) { x = new Coll; x->c = c; x->k = C_CGROUP; x->r.resize(grp.size()); x->pes = grp; }
    probe(P_COLL);
    Coll *k = x; k->r[(size_t) r].pe = me();
    coll_go(k, r, nullptr); nbusy--; *n = k->r[(size_t) r].res; return 0;
}
int MPI_Comm_free(MPI_Comm * h) { Enter e("MPI_Comm_free"); Comm *c = getcomm(*h, "MPI_Comm_free"); if (c->idx == 0) MISUSE("pe%d: MPI_Comm_free of MPI_COMM_WORLD", me()); c->freed[me()] = true; *h = MPI_COMM_NULL; return 0; }
int MPI_Comm_size(MPI_Comm h, int *n) { Local l_; *n = (int) getcomm(h, "MPI_Comm_size")->pes.size(); return 0; }
int MPI_Comm_rank(MPI_Comm h, int *r) { Local l; *r = getcomm(h, "MPI_Comm_rank")->rank(me()); return 0; }
int MPI_Comm_group(MPI_Comm h, MPI_Group * g) { Local l; *g = newgroup(getcomm(h, "MPI_Comm_group")->pes); return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { Local l_; Comm *x = getcomm(a, "MPI_Comm_compare"), *y = getcomm(b, "MPI_Comm_compare"); if (x == y) *r = MPI_IDENT; else if (x->pes == y->pes) *r = MPI_CONGRUENT; else { auto p = x->pes, q = y->pes; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL; } return 0; }
static int attr_ub[MAXPE], attr_zero;
int MPI_Comm_get_attr(MPI_Comm h, int k, void *v, int *f) { Local l_; getcomm(h, "MPI_Comm_get_attr"); if (k == MPI_TAG_UB) { attr_ub[me()] = (int) tag_ub(); *(int **) v = &attr_ub[me()]; *f = 1; } else *f = 0; return 0; }
int MPI_Comm_set_attr(MPI_Comm, int, void *) { return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler * h) { *h = MPI_ERRORS_ARE_FATAL; return 0; }
int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler) { return 0; }
int MPI_Errhandler_free(MPI_Errhandler * h) { *h = MPI_ERRHANDLER_NULL; return 0; }
int MPI_Comm_set_name(MPI_Comm, const char *) { return 0; }
int MPI_Comm_get_name(MPI_Comm, char *s, int *l) { s[0] = 0; *l = 0; return 0; }
int MPI_Comm_set_info(MPI_Comm, MPI_Info) { return 0; }
int MPI_Comm_test_inter(MPI_Comm, int *f) { *f = 0; return 0; }
int MPI_Group_size(MPI_Group g, int *n) { Local l_; *n = (int) getgroup(g, "MPI_Group_size").size(); return 0; }
int MPI_Group_rank(MPI_Group g, int *r) { Local l_; auto v = getgroup(g, "MPI_Group_rank"); *r = MPI_UNDEFINED; for (size_t i = 0; i < v.size(); i++) if (v[i] == me()) *r = (int) i; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int *rk, MPI_Group * o)
{ Local l_;
    auto v = getgroup(g, "MPI_Group_incl"); std::vector<int> p;
    for (int i = 0; i < n; i++) { if (rk[i] < 0 || rk[i] >= (int) v.size()) MISUSE("pe%d: MPI_Group_incl with rank %d of a group of %zu", me(), rk[i], v.size()); if (std::find(p.begin(), p.end(), v[(size_t) rk[i]]) != p.end()) MISUSE("pe%d: MPI_Group_incl names rank %d twice", me(), rk[i]); p.push_back(v[(size_t) rk[i]]); }
    *o = p.empty() ? MPI_GROUP_EMPTY : newgroup(p); return 0;
}
int MPI_Group_excl(MPI_Group g, int n, const int *rk, MPI_Group * o) { auto v = getgroup(g, "MPI_Group_excl"); std::vector<int> p; for (int i = 0; i < (int) v.size(); i++) { bool ex = false; for (int j = 0; j < n; j++) if (rk[j] == i) ex = true; if (!ex) p.push_back(v[(size_t) i]); } *o = p.empty() ? MPI_GROUP_EMPTY : newgroup(p); return 0; }
int MPI_Group_range_incl(MPI_Group g, int n, int r[][3], MPI_Group * o) { std::vector<int> rk; for (int i = 0; i < n; i++) { if (r[i][2] == 0) MISUSE("pe%d: MPI_Group_range_incl with stride 0", me()); for (int k = r[i][0]; r[i][2] > 0 ? k <= r[i][1] : k >= r[i][1]; k += r[i][2]) rk.push_back(k); } return MPI_Group_incl(g, (int) rk.size(), rk.data(), o); }
int MPI_Group_range_excl(MPI_Group g, int n, int r[][3], MPI_Group * o) { std::vector<int> rk; for (int i = 0; i < n; i++) for (int k = r[i][0]; r[i][2] > 0 ? k <= r[i][1] : k >= r[i][1]; k += r[i][2]) rk.push_back(k); return MPI_Group_excl(g, (int) rk.size(), rk.data(), o); }
int MPI_Group_free(MPI_Group * g) { Local l_; if (*g != MPI_GROUP_EMPTY) { getgroup(*g, "MPI_Group_free"); groups[(size_t) (*g - 0x48000001)]->freed = true; } *g = MPI_GROUP_NULL; return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb)
{ Local l_;
    auto x = getgroup(a, "MPI_Group_translate_ranks"), y = getgroup(b, "MPI_Group_translate_ranks");
    for (int i = 0; i < n; i++) { if (ra[i] == MPI_PROC_NULL) { rb[i] = MPI_PROC_NULL; continue; } if (ra[i] < 0 || ra[i] >= (int) x.size()) MISUSE("pe%d: MPI_Group_translate_ranks with rank %d of a group of %zu", me(), ra[i], x.size()); rb[i] = MPI_UNDEFINED; for (size_t j = 0; j < y.size(); j++) if (y[j] == x[(size_t) ra[i]]) rb[i] = (int) j; }
    return 0;
}
int MPI_Group_compare(MPI_Group a, MPI_Group b, int *r) { auto p = getgroup(a, ""), q = getgroup(b, ""); if (p == q) *r = MPI_IDENT; else { std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL; } return 0; }
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group * o) { auto p = getgroup(a, ""), q = getgroup(b, ""); for (int x : q) if (std::find(p.begin(), p.end(), x) == p.end()) p.push_back(x); *o = p.empty() ? MPI_GROUP_EMPTY : newgroup(p); return 0; }
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group * o) { auto p = getgroup(a, ""), q = getgroup(b, ""); std::vector<int> r; for (int x : p) if (std::find(q.begin(), q.end(), x) != q.end()) r.push_back(x); *o = r.empty() ? MPI_GROUP_EMPTY : newgroup(r); return 0; }
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group * o) { auto p = getgroup(a, ""), q = getgroup(b, ""); std::vector<int> r; for (int x : p) if (std::find(q.begin(), q.end(), x) == q.end()) r.push_back(x); *o = r.empty() ? MPI_GROUP_EMPTY : newgroup(r); return 0; }
// windows
int MPI_Win_create(void *b, MPI_Aint s, int u, MPI_Info i, MPI_Comm c, MPI_Win * w) { return win_coll(C_WCREATE, c, "MPI_Win_create", b, s, u, i, w, nullptr); }
int MPI_Win_create_dynamic(MPI_Info i, MPI_Comm c, MPI_Win * w) { return win_coll(C_WDYN, c, "MPI_Win_create_dynamic", nullptr, 0, 1, i, w, nullptr); }
int MPI_Win_allocate(MPI_Aint s, int u, MPI_Info i, MPI_Comm c, void *b, MPI_Win * w) { return win_coll(C_WALLOC, c, "MPI_Win_allocate", nullptr, s, u, i, w, (void **) b); }
int MPI_Win_attach(MPI_Win h, void *b, MPI_Aint s) { Enter e("MPI_Win_attach"); Win *w = getwin(h, "MPI_Win_attach"); if (w->flavor != MPI_WIN_FLAVOR_DYNAMIC) MISUSE("pe%d: MPI_Win_attach on a window that is not dynamic", me()); for (auto & r : w->att[me()]) if ((uintptr_t) b < r.base + r.size && r.base < (uintptr_t) b + (size_t) s) MISUSE("pe%d: MPI_Win_attach of overlapping memory", me()); w->att[me()].push_back({ (uintptr_t) b, (size_t) s }); return 0; }
int MPI_Win_detach(MPI_Win h, const void *b) { Enter e("MPI_Win_detach"); Win *w = getwin(h, "MPI_Win_detach"); auto & v = w->att[me()]; for (size_t i = 0; i < v.size(); i++) if (v[i].base == (uintptr_t) b) { v.erase(v.begin() + (long) i); return 0; } MISUSE("pe%d: MPI_Win_detach of memory that is not attached", me()); return 0; }
}
static bool outstanding(Win * w, int o, int t) { for (auto r : w->out[o]) if (t < 0 || r->t == t) return true; return false; }
static void wait_flush(Win * w, int t)
{
    int o = me(); std::vector<Rma *> v; for (auto r : w->out[o]) if (t < 0 || r->t == t) v.push_back(r);
    if (v.empty()) return;
    block_until("(remote completion)", [w, o, v] { for (auto r : w->out[o]) if (std::find(v.begin(), v.end(), r) != v.end()) return false; return true; });
    note_progress();
}
static void rma_capture(Rma * r)
{
    if (r->captured) return; r->captured = true;
    if (r->obuf && r->kind != R_GET && !(r->op == MPI_NO_OP)) r->data = pack(r->o, r->obuf, r->ocount, dt_any(r->odt));
}
static void wait_local(Win * w, int t)
{
    int o = me(); std::vector<Rma *> v;
    for (auto r : w->out[o]) if (t < 0 || r->t == t) { rma_capture(r); if (r->rbuf) v.push_back(r); }
    if (!v.empty()) block_until("(local completion)", [w, o, v] { for (auto r : w->out[o]) if (std::find(v.begin(), v.end(), r) != v.end()) return false; return true; });
}
extern "C" {
int MPI_Win_free(MPI_Win * h)
{
    Enter e("MPI_Win_free"); Win *w = getwin(*h, "MPI_Win_free");
    if (w->epoch[me()]) MISUSE("pe%d: MPI_Win_free inside an access epoch", me());
    auto p = coll_enter(w->comm, C_WFREE, -1, 0, "MPI_Win_free"); coll_go(p.first, p.second, nullptr);
    w->freed[me()] = true; *h = MPI_WIN_NULL;
    if (w->mem[me()]) pe_free(me(), w->mem[me()]);
    return 0;
}
int MPI_Win_lock_all(int, MPI_Win h) { Enter e("MPI_Win_lock_all"); Win *w = getwin(h, "MPI_Win_lock_all"); if (w->epoch[me()]) MISUSE("pe%d: MPI_Win_lock_all twice", me()); w->epoch[me()] = true; return 0; }
int MPI_Win_unlock_all(MPI_Win h) { Enter e("MPI_Win_unlock_all"); Win *w = getwin(h, "MPI_Win_unlock_all"); if (!w->epoch[me()]) MISUSE("pe%d: MPI_Win_unlock_all without lock", me()); wait_flush(w, -1); w->epoch[me()] = false; return 0; }
int MPI_Win_lock(int, int, int, MPI_Win h) { infra("MPI_Win_lock is not simulated"); return 0; }
int MPI_Win_unlock(int, MPI_Win) { infra("MPI_Win_unlock is not simulated"); return 0; }
static Win *epoch_win(MPI_Win h, const char *fn) { Win *w = getwin(h, fn); if (!w->epoch[me()]) MISUSE("pe%d: %s outside an access epoch", me(), fn); return w; }
static void chk_rank(Win * w, int t, const char *fn) { if (t < 0 || t >= (int) w->comm->pes.size()) MISUSE("pe%d: %s with invalid target rank %d", me(), fn, t); }
int MPI_Win_flush(int t, MPI_Win h) { Enter e("MPI_Win_flush"); Win *w = epoch_win(h, "MPI_Win_flush"); chk_rank(w, t, "MPI_Win_flush"); wait_flush(w, w->comm->pes[(size_t) t]); return 0; }
int MPI_Win_flush_all(MPI_Win h) { Enter e("MPI_Win_flush_all"); wait_flush(epoch_win(h, "MPI_Win_flush_all"), -1); return 0; }
int MPI_Win_flush_local(int t, MPI_Win h) { Enter e("MPI_Win_flush_local"); Win *w = epoch_win(h, "MPI_Win_flush_local"); chk_rank(w, t, "MPI_Win_flush_local"); wait_local(w, w->comm->pes[(size_t) t]); return 0; }
int MPI_Win_flush_local_all(MPI_Win h) { Enter e("MPI_Win_flush_local_all"); wait_local(epoch_win(h, "MPI_Win_flush_local_all"), -1); return 0; }
int MPI_Win_sync(MPI_Win h) { Enter e("MPI_Win_sync"); epoch_win(h, "MPI_Win_sync"); return 0; }
int MPI_Win_fence(int, MPI_Win h) { infra("MPI_Win_fence is not simulated"); return 0; }
int MPI_Win_get_group(MPI_Win h, MPI_Group * g) { *g = newgroup(getwin(h, "MPI_Win_get_group")->comm->pes); return 0; }
static int flv[MAXPE], mdl, uni[MAXPE]; static MPI_Aint wsz[MAXPE];
int MPI_Win_get_attr(MPI_Win h, int k, void *v, int *f)
{ Local l_;
    Win *w = getwin(h, "MPI_Win_get_attr"); int p = me(); *f = 1;
    if (k == MPI_WIN_BASE) *(void **) v = (void *) w->base[p]; else if (k == MPI_WIN_SIZE) { wsz[p] = (MPI_Aint) w->size[p]; *(void **) v = &wsz[p]; } else if (k == MPI_WIN_DISP_UNIT) { uni[p] = w->unit[p]; *(void **) v = &uni[p]; }
    else if (k == MPI_WIN_CREATE_FLAVOR) { flv[p] = w->flavor; *(void **) v = &flv[p]; } else if (k == MPI_WIN_MODEL) { mdl = MPI_WIN_UNIFIED; *(void **) v = &mdl; } else *f = 0;
    return 0;
}
int MPI_Win_set_info(MPI_Win, MPI_Info) { return 0; }
int MPI_Win_set_name(MPI_Win, const char *) { return 0; }
}

// ---------------------------------------------------------------------------------------------- one-sided
static bool same_loc_other_op(Rma * r)
{
    for (int o = 0; o < NPES; o++) for (auto x : r->w->out[o]) if (x != r && !x->applied && x->t == r->t && x->taddr == r->taddr && x->kind >= R_ACC && x->op != MPI_NO_OP && (x->op != r->op || x->kind != r->kind) && (x->kind == R_CAS || r->kind == R_CAS || x->op != r->op)) return true;
    return false;
}
static void rma_ack(Rma * r)
{
    if (r->rbuf && r->kind != R_GET) unpack(r->o, r->rbuf, r->rcount, dt_any(r->rdt), r->res);
    r->acked = true; auto & v = r->w->out[r->o]; v.erase(std::find(v.begin(), v.end(), r));
    if (r->req) r->req->done = true;
    mpi_hash(0xB1, r->seq);
}
static void rma_done_part(Rma * r)
{
    r->applied++;
    if (r->applied < r->parts) return;
    after(net_delay(r->t, r->o), [r] { rma_ack(r); });
}
static void rma_write_back(Rma * r, const Bytes & nv) { unpack(r->t, (void *) r->taddr, r->tcount, dt_any(r->tdt), nv); rma_done_part(r); }
static void rma_apply(Rma * r, size_t from, size_t to)
{
    mpi_hash(0xB0, r->seq * 16 + (from ? 1 : 0));
    Win *w = r->w;
    if (w->freed[r->t]) MISUSE("a one-sided operation of pe%d reached a window pe%d has freed", r->o, r->t);
    if (w->flavor == MPI_WIN_FLAVOR_DYNAMIC) {
        long lo = 0, hi = 0; bool ok = false; DT *d = dt_any(r->tdt); for (auto & s : d->segs) hi = std::max(hi, s.off + bsize(s.basic)); hi += (r->tcount - 1) * d->extent; (void) lo;
        for (auto & a : w->att[r->t]) if (r->taddr >= a.base && r->taddr + (size_t) hi <= a.base + a.size) ok = true;
        if (!ok && r->tcount) violation("remote-access", "pe%d accesses memory of pe%d that is not attached", r->o, r->t);
    }
    LOG("apply rma kind %d pe%d->pe%d bytes [%zu,%zu)", r->kind, r->o, r->t, from, to == (size_t) -1 ? (size_t) 0 : to);
    DT *td = dt_any(r->tdt);
    switch (r->kind) {
        case R_PUT: rma_capture(r); unpack_part(r->t, (void *) r->taddr, r->tcount, td, r->data, from, to); rma_done_part(r); break;
        case R_GET: {
            Bytes b = pack(r->t, (void *) r->taddr, r->tcount, td); if (to > b.size()) to = b.size();
            Rma *q = r; size_t f0 = from, t0 = to; auto bp = std::make_shared<Bytes>(std::move(b));
            auto land = [q, bp, f0, t0] { unpack_part(q->o, q->rbuf, q->rcount, dt_any(q->rdt), *bp, f0, t0); q->applied++; if (q->applied == q->parts) { if (q->o == q->t) rma_ack(q); else after(1, [q] { rma_ack(q); }); } };
            after(net_delay(r->t, r->o), land);
            break;
        }
        case R_ACC: case R_GACC: case R_CAS: {
            probe(P_AMO); rma_capture(r);
            Bytes curv = pack(r->t, (void *) r->taddr, r->tcount, td), nv = curv; r->res = curv;
            if (r->kind == R_CAS) { if (curv == r->cmp) nv = r->data; } else if (r->op != MPI_NO_OP) reduce_bytes(r->op, td, nv, r->data);
            if (PRM("hintcheck") && r->op != MPI_NO_OP && w->info.count("accumulate_ops") && rma_exempt && rma_exempt(r->t, r->taddr) && same_loc_other_op(r))
                violation("mpi-hint", "pe%d: operations of different kinds on a lock variable at pe%d are concurrent, but the window was created with accumulate_ops=%s, which promises MPI that they are not", r->o, r->t, w->info["accumulate_ops"].c_str());
            if (w->sameop && PRM("nonatomic") && r->op != MPI_NO_OP && !(rma_exempt && rma_exempt(r->t, r->taddr)) && same_loc_other_op(r) && flip(PRM("nonatomic"), K_ORDER)) {
                probe(P_NONATOMIC); Rma *q = r; Bytes n2 = nv; after(net_delay(r->o, r->t), [q, n2] { rma_write_back(q, n2); });
            } else if (nv != curv) rma_write_back(r, nv); else rma_done_part(r);
            break;
        }
    }
}
static void rma_try(Rma * r, size_t from, size_t to)
{
    if (PRM("weak") && r->o != r->t && !mpi_in_call(r->t) && !finalized[r->t]) { probe(P_SOFTQ); softq[r->t].push_back([r, from, to] { rma_apply(r, from, to); }); return; }
    rma_apply(r, from, to);
}
static void rma_issue(Rma * r, int trank, MPI_Aint disp, const char *fn, MPI_Request * q)
{
    Win *w = r->w; if (!w->epoch[me()]) MISUSE("pe%d: %s outside an access epoch", me(), fn);
    if (trank < 0 || trank >= (int) w->comm->pes.size()) MISUSE("pe%d: %s with invalid target rank %d", me(), fn, trank);
    r->o = me(); r->t = w->comm->pes[(size_t) trank]; r->seq = rseq++;
    if (r->tcount < 0 || r->ocount < 0) MISUSE("pe%d: %s with negative count", me(), fn);
    DT *td = getdt(r->tdt, fn); long lo = 0, hi = 0;
    if (r->tcount) { lo = 1L << 60; for (auto & s : td->segs) { lo = std::min(lo, s.off); hi = std::max(hi, s.off + bsize(s.basic)); } if (td->extent >= 0) hi += (r->tcount - 1) * td->extent; else lo += (r->tcount - 1) * td->extent; }
    if (w->flavor == MPI_WIN_FLAVOR_DYNAMIC) {
        r->taddr = (uintptr_t) disp;
        bool ok = r->tcount == 0; for (auto & a : w->att[r->t]) if (r->taddr + (size_t) lo >= a.base && r->taddr + (size_t) hi <= a.base + a.size) ok = true;
        if (!ok) violation("remote-access", "pe%d: %s to pe%d at an address that is not attached there", me(), fn, r->t);
    } else {
        long off = disp * w->unit[r->t];
        if (r->tcount && (off + lo < 0 || off + hi > (long) w->size[r->t])) violation("remote-access", "pe%d: %s to pe%d at offset %ld..%ld of a window of %zu bytes", me(), fn, r->t, off + lo, off + hi, w->size[r->t]);
        r->taddr = w->base[r->t] + (uintptr_t) off;
    }
    probe(P_RMA);
    if (q) { r->req = newreq(RQ_RMA, q); }
    w->out[r->o].push_back(r);
    if (r->kind >= R_ACC ? flip(PRM("latecapture"), K_CAPTURE) : flip(PRM("latecapture"), K_CAPTURE)) probe(P_LATECAPTURE); else rma_capture(r);
    uint64_t at = now_ns + net_delay(r->o, r->t);
    if (r->kind >= R_ACC && w->ordered) { auto & l = w->lastacc[r->o][r->t]; if (at <= l) at = l + 1; l = at; }
    size_t bytes = (size_t) (r->tcount * td->size);
    if (r->kind <= R_GET && bytes > 8 && bytes < HUGE_SZ && flip(PRM("torn"), K_TORN)) {
        probe(P_TORN); size_t cut = 8 * (1 + choose((uint32_t) ((bytes - 1) / 8), K_TORN)); r->parts = 2;
        bool sw = flip(500, K_TORN); uint64_t d2 = net_delay(r->o, r->t);
        after(at - now_ns, [r, cut, sw] { if (sw) rma_try(r, cut, (size_t) -1); else rma_try(r, 0, cut); });
        after(at - now_ns + d2, [r, cut, sw] { if (sw) rma_try(r, 0, cut); else rma_try(r, cut, (size_t) -1); });
    } else after(at - now_ns, [r] { rma_try(r, 0, (size_t) -1); });
}
static Rma *mk(MPI_Win h, int kind, const char *fn) { Rma *r = new Rma; r->w = getwin(h, fn); r->kind = kind; return r; }
static int put_(const void *o, int oc, int od, int t, MPI_Aint disp, int tc, int td, int w, int *q, const char *fn) { Enter e(fn); Rma *r = mk(w, R_PUT, fn); r->obuf = o; r->ocount = oc; r->odt = od; r->tcount = tc; r->tdt = td; if (getdt(od, fn)->size * oc != getdt(td, fn)->size * tc) MISUSE("pe%d: %s origin and target sizes differ", me(), fn); rma_issue(r, t, disp, fn, q); return 0; }
static int get_(void *o, int oc, int od, int t, MPI_Aint disp, int tc, int td, int w, int *q, const char *fn) { Enter e(fn); Rma *r = mk(w, R_GET, fn); r->rbuf = o; r->rcount = oc; r->rdt = od; r->tcount = tc; r->tdt = td; if (getdt(od, fn)->size * oc != getdt(td, fn)->size * tc) MISUSE("pe%d: %s origin and target sizes differ", me(), fn); rma_issue(r, t, disp, fn, q); return 0; }
static void chk_op(int op, DT * d, const char *fn) { char z[32] = { 0 }, y[32] = { 0 }; for (auto & s : d->segs) { apply1(op, s.basic, z, y); break; } }
extern "C" {
int MPI_Put(const void *o, int oc, MPI_Datatype od, int t, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Win w) { return put_(o, oc, od, t, disp, tc, td, w, nullptr, "MPI_Put"); }
int MPI_Rput(const void *o, int oc, MPI_Datatype od, int t, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Win w, MPI_Request * q) { return put_(o, oc, od, t, disp, tc, td, w, q, "MPI_Rput"); }
int MPI_Get(void *o, int oc, MPI_Datatype od, int t, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Win w) { return get_(o, oc, od, t, disp, tc, td, w, nullptr, "MPI_Get"); }
int MPI_Rget(void *o, int oc, MPI_Datatype od, int t, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Win w, MPI_Request * q) { return get_(o, oc, od, t, disp, tc, td, w, q, "MPI_Rget"); }
static int acc_(const void *o, int oc, int od, int t, MPI_Aint disp, int tc, int td, int op, int w, int *q, const char *fn) { Enter e(fn); Rma *r = mk(w, R_ACC, fn); r->obuf = o; r->ocount = oc; r->odt = od; r->tcount = tc; r->tdt = td; r->op = op; chk_op(op, getdt(td, fn), fn); if (getdt(od, fn)->size * oc != getdt(td, fn)->size * tc) MISUSE("pe%d: %s origin and target sizes differ", me(), fn); rma_issue(r, t, disp, fn, q); return 0; }
int MPI_Accumulate(const void *o, int oc, MPI_Datatype od, int t, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Op op, MPI_Win w) { return acc_(o, oc, od, t, disp, tc, td, op, w, nullptr, "MPI_Accumulate"); }
int MPI_Raccumulate(const void *o, int oc, MPI_Datatype od, int t, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Op op, MPI_Win w, MPI_Request * q) { return acc_(o, oc, od, t, disp, tc, td, op, w, q, "MPI_Raccumulate"); }
int MPI_Get_accumulate(const void *o, int oc, MPI_Datatype od, void *res, int rc, MPI_Datatype rd, int t, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Op op, MPI_Win w)
{ const char *fn = "MPI_Get_accumulate"; Enter e(fn); Rma *r = mk(w, R_GACC, fn); r->obuf = op == MPI_NO_OP ? nullptr : o; r->ocount = op == MPI_NO_OP ? 0 : oc; r->odt = od; r->rbuf = res; r->rcount = rc; r->rdt = rd; r->tcount = tc; r->tdt = td; r->op = op; chk_op(op, getdt(td, fn), fn); rma_issue(r, t, disp, fn, nullptr); return 0; }
int MPI_Fetch_and_op(const void *o, void *res, MPI_Datatype d, int t, MPI_Aint disp, MPI_Op op, MPI_Win w)
{ const char *fn = "MPI_Fetch_and_op"; Enter e(fn); Rma *r = mk(w, R_GACC, fn); r->obuf = op == MPI_NO_OP ? nullptr : o; r->ocount = op == MPI_NO_OP ? 0 : 1; r->odt = d; r->rbuf = res; r->rcount = 1; r->rdt = d; r->tcount = 1; r->tdt = d; r->op = op; chk_op(op, getdt(d, fn), fn); rma_issue(r, t, disp, fn, nullptr); return 0; }
int MPI_Compare_and_swap(const void *o, const void *cmp, void *res, MPI_Datatype d, int t, MPI_Aint disp, MPI_Win w)
{
    const char *fn = "MPI_Compare_and_swap"; Enter e(fn); DT *dt = getdt(d, fn);
    if (d == MPI_FLOAT || d == MPI_DOUBLE || d == MPI_LONG_DOUBLE || dt->segs.size() != 1) MISUSE("pe%d: MPI_Compare_and_swap on a type it is not defined for", me());
    Rma *r = mk(w, R_CAS, fn); r->obuf = o; r->ocount = 1; r->odt = d; r->cmp = pack(me(), cmp, 1, dt); r->rbuf = res; r->rcount = 1; r->rdt = d; r->tcount = 1; r->tdt = d; r->op = -1; rma_issue(r, t, disp, fn, nullptr); return 0;
}
// ---------------------------------------------------------------------------------------------- datatypes, info, misc
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype * t) { Local l_; DT *d = getdt(o, "MPI_Type_contiguous", false), *x = new DT; for (long i = 0; i < n; i++) for (auto & s : d->segs) x->segs.push_back({ i * d->extent + s.off, s.basic }); x->extent = n * d->extent; x->size = n * d->size; *t = newdt(x); return 0; }
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype o, MPI_Datatype * t)
{ Local l_;
    if (n < 0 || bl < 0) MISUSE("pe%d: MPI_Type_vector with negative count", me());
    DT *d = getdt(o, "MPI_Type_vector", false), *x = new DT;
    long lo = 0, hi = 0; bool first = true;
    for (long i = 0; i < n; i++) for (long j = 0; j < bl; j++) { long b = i * st + j * d->extent; for (auto & s : d->segs) x->segs.push_back({ b + s.off, s.basic }); if (first || b < lo) lo = b; if (first || b + d->extent > hi) hi = b + d->extent; first = false; }
    x->lb = lo; x->extent = hi - lo; x->size = (long) n * bl * d->size; *t = newdt(x); return 0;
}
int MPI_Type_hvector(int n, int bl, MPI_Aint st, MPI_Datatype o, MPI_Datatype * t) { return MPI_Type_create_hvector(n, bl, st, o, t); }
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype o, MPI_Datatype * t) { Local l_; DT *d = getdt(o, "MPI_Type_vector", false); return MPI_Type_create_hvector(n, bl, st * d->extent, o, t); }
int MPI_Type_create_hindexed(int n, const int *bl, const MPI_Aint * ds, MPI_Datatype o, MPI_Datatype * t) { DT *d = getdt(o, "MPI_Type_create_hindexed", false), *x = new DT; long lo = 0, hi = 0; bool first = true; for (int i = 0; i < n; i++) for (long j = 0; j < bl[i]; j++) { long b = ds[i] + j * d->extent; for (auto & s : d->segs) x->segs.push_back({ b + s.off, s.basic }); if (first || b < lo) lo = b; if (first || b + d->extent > hi) hi = b + d->extent; first = false; x->size += d->size; } x->lb = lo; x->extent = hi - lo; *t = newdt(x); return 0; }
int MPI_Type_indexed(int n, const int *bl, const int *ds, MPI_Datatype o, MPI_Datatype * t) { std::vector<MPI_Aint> v; DT *d = getdt(o, "MPI_Type_indexed", false); for (int i = 0; i < n; i++) v.push_back(ds[i] * d->extent); return MPI_Type_create_hindexed(n, bl, v.data(), o, t); }
int MPI_Type_create_indexed_block(int n, int bl, const int *ds, MPI_Datatype o, MPI_Datatype * t) { std::vector<int> v((size_t) n, bl); return MPI_Type_indexed(n, v.data(), ds, o, t); }
int MPI_Type_create_struct(int n, const int *bl, const MPI_Aint * ds, const MPI_Datatype * ts, MPI_Datatype * t) { DT *x = new DT; long hi = 0; for (int i = 0; i < n; i++) { DT *d = getdt(ts[i], "MPI_Type_create_struct", false); for (long j = 0; j < bl[i]; j++) { long b = ds[i] + j * d->extent; for (auto & s : d->segs) x->segs.push_back({ b + s.off, s.basic }); hi = std::max(hi, b + d->extent); x->size += d->size; } } x->extent = hi; *t = newdt(x); return 0; }
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ex, MPI_Datatype * t) { DT *d = getdt(o, "MPI_Type_create_resized", false), *x = new DT(*d); x->lb = lb; x->extent = ex; x->committed = false; x->freed = false; *t = newdt(x); return 0; }
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype * t) { DT *x = new DT(*getdt(o, "MPI_Type_dup", false)); x->freed = false; *t = newdt(x); return 0; }
int MPI_Type_commit(MPI_Datatype * t) { Local l_; getdt(*t, "MPI_Type_commit", false)->committed = true; return 0; }
int MPI_Type_free(MPI_Datatype * t) { Local l_; if ((*t & 0x7f000000) == 0x4c000000) MISUSE("pe%d: MPI_Type_free of a predefined type", me()); getdt(*t, "MPI_Type_free", false)->freed = true; *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int *s) { Local l_; *s = (int) getdt(t, "MPI_Type_size", false)->size; return 0; }
int MPI_Type_size_x(MPI_Datatype t, MPI_Count * s) { *s = getdt(t, "MPI_Type_size_x", false)->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint * lb, MPI_Aint * ex) { Local l_; DT *d = getdt(t, "MPI_Type_get_extent", false); *lb = d->lb; *ex = d->extent; return 0; }
int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint * lb, MPI_Aint * ex) { DT *d = getdt(t, "MPI_Type_get_true_extent", false); long lo = 0, hi = 0; bool f = true; for (auto & s : d->segs) { if (f || s.off < lo) lo = s.off; if (f || s.off + bsize(s.basic) > hi) hi = s.off + bsize(s.basic); f = false; } *lb = lo; *ex = hi - lo; return 0; }
int MPI_Info_create(MPI_Info * i) { infos.push_back(new Info); *i = 0x5c100000 + (int) infos.size() - 1; return 0; }
int MPI_Info_set(MPI_Info i, const char *k, const char *v) { if (strlen(v) >= MPI_MAX_INFO_VAL) MISUSE("pe%d: MPI_Info_set value too long", me()); getinfo(i)->kv[k] = v; return 0; }
int MPI_Info_get(MPI_Info i, const char *k, int n, char *v, int *f) { auto & kv = getinfo(i)->kv; auto x = kv.find(k); *f = x != kv.end(); if (*f) snprintf(v, (size_t) n + 1, "%s", x->second.c_str()); return 0; }
int MPI_Info_free(MPI_Info * i) { getinfo(*i)->freed = true; *i = MPI_INFO_NULL; return 0; }
int MPI_Info_dup(MPI_Info i, MPI_Info * o) { Info *x = new Info(*getinfo(i)); x->freed = false; x->owner = me(); infos.push_back(x); *o = 0x5c100000 + (int) infos.size() - 1; return 0; }
int MPI_Info_delete(MPI_Info i, const char *k) { getinfo(i)->kv.erase(k); return 0; }
int MPI_Info_get_nkeys(MPI_Info i, int *n) { *n = (int) getinfo(i)->kv.size(); return 0; }
int MPI_Get_address(const void *p, MPI_Aint * a) { *a = (MPI_Aint) p; return 0; }
MPI_Aint MPI_Aint_add(MPI_Aint a, MPI_Aint b) { return a + b; }
MPI_Aint MPI_Aint_diff(MPI_Aint a, MPI_Aint b) { return a - b; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void *p) { *(void **) p = pe_malloc(me(), (size_t) n); return 0; }
int MPI_Free_mem(void *p) { pe_free(me(), p); return 0; }
int MPI_Op_commutative(MPI_Op, int *c) { *c = 1; return 0; }
int MPI_Pack_size(int n, MPI_Datatype d, MPI_Comm, int *s) { *s = (int) (n * getdt(d, "MPI_Pack_size")->size); return 0; }
int MPI_Pack(const void *b, int n, MPI_Datatype d, void *o, int os, int *pos, MPI_Comm) { Bytes x = pack(me(), b, n, getdt(d, "MPI_Pack")); if (*pos + (int) x.size() > os) MISUSE("pe%d: MPI_Pack overflow", me()); if (!x.empty()) memcpy((char *) o + *pos, x.data(), x.size()); *pos += (int) x.size(); return 0; }
int MPI_Unpack(const void *b, int is, int *pos, void *o, int n, MPI_Datatype d, MPI_Comm) { DT *t = getdt(d, "MPI_Unpack"); size_t s = (size_t) (n * t->size); if (*pos + (int) s > is) MISUSE("pe%d: MPI_Unpack overflow", me()); Bytes x((const uint8_t *) b + *pos, (const uint8_t *) b + *pos + s); unpack(me(), o, n, t, x); *pos += (int) s; return 0; }
#define UNSIM(sig) int sig { infra("MPI routine not simulated: %s", __func__); return 0; }
UNSIM(MPI_Send_init(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *)) UNSIM(MPI_Recv_init(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *)) UNSIM(MPI_Start(MPI_Request *)) UNSIM(MPI_Startall(int, MPI_Request *))
UNSIM(MPI_Improbe(int, int, MPI_Comm, int *, MPI_Message *, MPI_Status *)) UNSIM(MPI_Mprobe(int, int, MPI_Comm, MPI_Message *, MPI_Status *)) UNSIM(MPI_Mrecv(void *, int, MPI_Datatype, MPI_Message *, MPI_Status *)) UNSIM(MPI_Imrecv(void *, int, MPI_Datatype, MPI_Message *, MPI_Request *))
UNSIM(MPI_Comm_delete_attr(MPI_Comm, int)) UNSIM(MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *, MPI_Comm_delete_attr_function *, int *, void *)) UNSIM(MPI_Comm_free_keyval(int *)) UNSIM(MPI_Comm_get_info(MPI_Comm, MPI_Info *)) UNSIM(MPI_Win_get_info(MPI_Win, MPI_Info *)) UNSIM(MPI_Info_get_valuelen(MPI_Info, const char *, int *, int *)) UNSIM(MPI_Op_create(MPI_User_function *, int, MPI_Op *)) UNSIM(MPI_Op_free(MPI_Op *))
}
