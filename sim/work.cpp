// Workload interpreter, shadow memory and oracles: what every PE may observe is judged here.
#include "work.h"
#include <unistd.h>

// ---------------------------------------------------------------------------------------- program text
std::string Step::text() const
{
    std::string o = op;
    for (auto & kv : a) o += " " + kv.first + "=" + std::to_string(kv.second);
    for (auto & kv : s) o += " " + kv.first + ":" + kv.second;
    return o;
}
bool Step::parse(const std::string & l, Step & out)
{
    size_t i = 0; bool first = true; out = Step();
    while (i < l.size()) {
        size_t j = l.find(' ', i); if (j == std::string::npos) j = l.size();
        std::string w = l.substr(i, j - i); i = j + 1;
        if (w.empty()) continue;
        if (first) { out.op = w; first = false; continue; }
        size_t e = w.find('='), c = w.find(':');
        if (e != std::string::npos && (c == std::string::npos || e < c)) out.a[w.substr(0, e)] = strtol(w.c_str() + e + 1, nullptr, 10);
        else if (c != std::string::npos) out.s[w.substr(0, c)] = w.substr(c + 1);
        else return false;
    }
    return !first;
}

// ---------------------------------------------------------------------------------------- state
enum { OFF_GATE = 0, OFF_LATE = 128, OFF_LOCK = 256, OFF_STUCK = 448, OFF_PSYNC = 512, OFF_RO = 1024, RO_SZ = 2048, OFF_PWRK = 14336, STATIC_SZ = 16384 };
extern "C" char sim_data_start[], sim_data_end[];
struct BS { uint8_t val = 0, pv = 0, known = 0, conflict = 0, any = 0, unman = 0, nodig = 0; uint16_t npend = 0; int last = -1; uint32_t evt = 0; };
struct Obj { int id, space = -1; std::string kind; size_t size, hole = 0; /* bytes of the block before the part under test */ char *base[MAXPE]; std::vector<BS> sh[MAXPE]; bool live = true, failed = false, hold = false; int hint = 0; };
struct WOp { int id, pe, th, ctx, tgt, step; Obj *o; std::vector<std::pair<size_t, size_t>> segs; Bytes data, mask; std::vector<int16_t> old; int fep = 0; bool any = false, fdata = false, done = false, synced = false, read = false;
    // reads
    std::vector<std::pair<size_t, size_t>> dsegs; char *dbuf = nullptr; size_t dsize = 0; Bytes exp, stable; std::vector<uint32_t> evts; std::vector<char *> owned; const TI *dty = nullptr;
    // atomics
    struct Cell *cell = nullptr; int hop = -1; };
struct Cell { Obj *o; int tgt; size_t off; TI t; V init; std::vector<HOp> h; int open = 0; bool tainted = false; };
struct Team { int id; std::vector<int> mem[MAXPE]; void *h[MAXPE]; bool have[MAXPE]; bool destroyed[MAXPE]; };
struct Space { int id; void *h[MAXPE]; size_t size; int nctx; bool attached = false, destroyed = false; };
struct Ctx { int id, space; void *h[MAXPE]; bool ok[MAXPE]; };
struct CI { uint32_t entered = 0, exited = 0; std::vector<WOp *> ops; };
enum { MAXTH = 4 };
struct Gate { uint32_t arrived = 0; long want[MAXPE]; int th[MAXPE]; };

static RunSpec *RS; static Program *PG;
static std::map<int, Obj *> objs; static std::map<int, Team *> teams; static std::map<int, Space *> spaces; static std::map<int, Ctx *> ctxs;
static std::vector<WOp *> ops; static std::vector<WOp *> pend[MAXPE];
static std::map<std::tuple<int, int, size_t>, std::set<uint8_t>> cand;
static std::map<std::tuple<int, int, size_t>, Cell *> cells;
static std::map<int, CI> cis; static std::map<std::pair<int, int>, Gate> gates; static long gcount[MAXPE][MAXTH];
static std::map<std::tuple<int, int, int, int>, int> fepoch;      // pe, th, ctx, tgt(-1 all)
static uint32_t evtctr; static uint64_t tick; static int nth[MAXPE]; static int level_of[MAXPE]; static int hostmx[MAXPE]; static bool fin_done[MAXPE]; static int thr_done[MAXPE];
struct FW { WOp *b; std::vector<WOp *> as; };
static std::vector<FW> fws;
struct Watch { int pe; char *at; TI t; std::vector<V> seen; };
static std::vector<Watch *> watches;
static Obj *heapref; static int digest_ok = 1; static uint64_t results;

static uint64_t mix(uint64_t a, uint64_t b, uint64_t c = 0) { uint64_t h = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7f4a7c15) * 0xC2B2AE3D27D4EB4Full ^ (c + 1) * 0x165667B19E3779F9ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; return h; }
static uint8_t patt(int pe, int id, size_t off) { return (uint8_t) (mix((uint64_t) pe + 17, (uint64_t) id + 3, off) >> 11); }
static Obj *obj(long id) { auto i = objs.find((int) id); return i == objs.end() || !i->second->live ? nullptr : i->second; }
static char *hostp(Obj * o, int pe, size_t off) { return P(pe, o->base[pe] + off); }
static std::string steptext(int idx) { return idx >= 0 && idx < (int) PG->steps.size() ? "step " + std::to_string(idx) + " [" + PG->steps[(size_t) idx].text() + "]" : std::string("start"); }
static std::string opname(WOp * w) { return "pe" + std::to_string(w->pe) + (w->th ? "." + std::to_string(w->th) : "") + " " + steptext(w->step); }

struct Call {
    const char *sv; bool ser, cnt;
    Call(const std::string & n, bool count = true) : cnt(count) {
        static std::set<std::string> names; sv = cur->oshmem; cur->oshmem = names.insert(n).first->c_str();
        ser = level_of[cur->pe] == 2 && nth[cur->pe] > 1;
        if (ser) { int p = cur->pe; block_until("(application serializes its threads)", [p] { return hostmx[p] == 0; }); hostmx[p] = 1; }
        LOG("-> %s", cur->oshmem);
    }
    ~Call() { LOG("<- %s", cur->oshmem); cur->oshmem = sv; if (ser) { hostmx[cur->pe] = 0; note_progress(); } if (cnt) { done_ops++; probe(P_OPS); } }
};
template <class R, class... A> static R callf(const std::string & n, A... a) { void *f = pe_sym(cur->pe, n); Call c(n); return ((R (*)(A...)) f)(a...); }

// ---------------------------------------------------------------------------------------- shadow
static bool in_range(Obj * o, size_t off, size_t len) { return off + len <= o->size && off + len >= off; }
template <class F> static void each(const std::vector<std::pair<size_t, size_t>> & segs, F f) { size_t k = 0; for (auto & s : segs) for (size_t i = 0; i < s.second; i++) f(s.first + i, k++); }
static void taint_cells(Obj * o, int tgt, size_t off, size_t len, Cell * except)
{
    auto i = cells.lower_bound(std::make_tuple(o->id, tgt, off >= 16 ? off - 16 : 0));
    for (; i != cells.end() && std::get<0>(i->first) == o->id && std::get<1>(i->first) == tgt && std::get<2>(i->first) < off + len; ++i) {
        Cell *c = i->second; if (c != except && c->off + (size_t) c->t.size > off) { c->tainted = true; }
    }
}
static void issue(WOp * w)
{
    w->id = (int) ops.size(); ops.push_back(w); pend[w->pe].push_back(w); w->evts.clear();
    auto fe = fepoch.find(std::make_tuple(w->pe, w->th, w->ctx, -1)); w->fep = fe == fepoch.end() ? 0 : fe->second;
    if (w->read) {
        each(w->segs, [&](size_t off, size_t) { BS & b = w->o->sh[w->tgt][off]; bool st = b.known && b.npend == 0 && !b.unman; w->stable.push_back(st); w->exp.push_back(b.val); w->evts.push_back(b.evt); });
        return;
    }
    w->old.resize(w->data.size(), -1);
    for (auto & s : w->segs) taint_cells(w->o, w->tgt, s.first, s.second, w->cell);
    each(w->segs, [&](size_t off, size_t k) {
        BS & b = w->o->sh[w->tgt][off]; uint8_t nv = k < w->data.size() ? w->data[k] : 0;
        if (b.npend == 0) { b.conflict = 0; b.any = 0; if (b.known && k < w->old.size()) w->old[k] = b.val; }
        else {
            WOp *l = ops[(size_t) b.last]; bool ord = !b.conflict && l->pe == w->pe && l->th == w->th && l->ctx == w->ctx && l->fep < w->fep;
            if (!ord) { auto & c = cand[std::make_tuple(w->o->id, w->tgt, off)]; if (!b.conflict) { c.clear(); c.insert(b.pv); b.conflict = 1; } c.insert(nv); }
        }
        if (w->any || (k < w->mask.size() && w->mask[k])) { b.any = 1; if (!w->cell) b.nodig = 1; }
        b.pv = nv; b.last = w->id; b.npend++; b.evt = ++evtctr; });
    // fence pairs
    if ((!w->any || w->fdata) && w->fep > 0 && fws.size() < 12) {
        FW f; f.b = w;
        for (auto a : pend[w->pe]) if (a != w && !a->read && !a->done && (!a->any || a->fdata) && a->th == w->th && a->ctx == w->ctx && a->tgt == w->tgt && a->fep < w->fep) f.as.push_back(a);
        if (f.as.size() > 8) f.as.erase(f.as.begin(), f.as.end() - 8);
        if (!f.as.empty()) { fws.push_back(f); probe(P_FENCEWATCH); }
    }
}
static void close_cell(Cell * c)
{
    if (c->open) return;
    V v; memcpy(v.b, hostp(c->o, c->tgt, c->off), (size_t) c->t.size);
    if (!c->tainted && !c->h.empty()) {
        HOp p; p.op = -1; p.ret = v; p.hasret = true; p.inv = p.res = ++tick; p.pe = c->tgt; c->h.push_back(p);
        std::string why; probe(P_LINCHK);
        if (lin_check(c->t, c->init, c->h, why) == 0) violation("atomic", "atomic operations on a %s variable at pe%d are not linearizable: %s", c->t.name, c->tgt, why.c_str());
    }
    bool ok = true; for (int i = 0; i < c->t.size; i++) { BS & b = c->o->sh[c->tgt][c->off + (size_t) i]; if (b.npend || !b.known || b.unman) ok = false; }
    c->tainted = !ok; c->init = v; c->h.clear();
}
static void release_read(WOp * w)
{
    probe(P_CHECKS); size_t n = 0;
    std::vector<uint8_t> isd(w->dsize, 0);
    std::vector<size_t> dpos; each(w->dsegs, [&](size_t off, size_t) { dpos.push_back(off); isd[off] = 1; });
    each(w->segs, [&](size_t off, size_t k) {
        BS & b = w->o->sh[w->tgt][off];
        if (!w->stable[k] || b.evt != w->evts[k] || !w->o->live) return;
        if (w->dty && w->dty->k == 'l' && k % 16 >= 10) return;
        n++;
        uint8_t got = ((uint8_t *) w->dbuf)[dpos[k]];
        if (got != w->exp[k]) violation("read", "%s returned %02x for byte %zu (offset %zu of object %d on pe%d), which holds %02x", opname(w).c_str(), got, k, off, w->o->id, w->tgt, w->exp[k]);
    });
    for (size_t i = 0; i < w->dsize; i++) if (!isd[i] && ((uint8_t *) w->dbuf)[i] != 0xC3) violation("read", "%s wrote byte %zu of its local buffer, outside the requested elements", opname(w).c_str(), i);
    SH->probes[P_BYTES] += n;
}
static void complete(WOp * w, const char *how)
{
    if (w->done) return;
    w->done = true;
    auto & pv = pend[w->pe]; for (size_t i = 0; i < pv.size(); i++) if (pv[i] == w) { pv.erase(pv.begin() + (long) i); break; }
    if (w->read) release_read(w);
    else if (w->o->live) {
        probe(P_CHECKS);
        each(w->segs, [&](size_t off, size_t k) {
            BS & b = w->o->sh[w->tgt][off];
            b.npend--; b.evt = ++evtctr;
            if (b.npend || b.unman) return;
            uint8_t m = *(uint8_t *) hostp(w->o, w->tgt, off); SH->probes[P_BYTES]++;
            if (b.any) ;
            else if (b.conflict) { auto & c = cand[std::make_tuple(w->o->id, w->tgt, off)]; if (!c.count(m)) violation("delivery", "offset %zu of object %d on pe%d holds %02x, which none of the concurrent writers wrote (last completed: %s by %s)", off, w->o->id, w->tgt, m, opname(w).c_str(), how); cand.erase(std::make_tuple(w->o->id, w->tgt, off)); digest_ok = 0; }
            else if (m != b.pv) violation("delivery", "after %s, offset %zu of object %d on pe%d holds %02x instead of %02x written by %s", how, off, w->o->id, w->tgt, m, b.pv, opname(ops[(size_t) b.last]).c_str());
            b.val = m; b.known = 1; b.conflict = 0; b.any = 0; });
    }
    if (w->cell) {
        Cell *c = w->cell; c->open--;
        if (w->hop >= 0 && !c->h.empty()) {
            HOp & h = c->h[(size_t) w->hop]; h.res = ++tick;
            if (w->dbuf) { memcpy(h.ret.b, w->dbuf, (size_t) c->t.size); h.hasret = true; }
        }
        if (w->o->live) close_cell(c);
    }
    for (auto p : w->owned) pe_free(w->pe, p);
    w->owned.clear(); w->dbuf = nullptr;
}
static std::vector<WOp *> snapshot(int pe, int th, int ctx) { std::vector<WOp *> r; for (auto w : pend[pe]) if ((ctx == -2 || w->ctx == ctx) && (th < 0 || w->th == th || w->synced)) r.push_back(w); return r; }
static void complete_all(const std::vector<WOp *> & v, const char *how) { for (auto w : v) complete(w, how); }
static void stray_check(const char *when)
{
    for (auto & kv : objs) {
        Obj *o = kv.second; if (!o->live) continue;
        for (int p = 0; p < NPES; p++) {
            if (!o->base[p] || o->sh[p].empty()) continue;
            const uint8_t *m = (const uint8_t *) hostp(o, p, 0); BS *s = o->sh[p].data();
            for (size_t i = 0; i < o->size; i++) if (s[i].known && !s[i].npend && !s[i].unman && m[i] != s[i].val)
                violation("stray", "%s: offset %zu of object %d (%s) on pe%d changed from %02x to %02x although nothing was written there", when, i, o->id, o->kind.c_str(), p, s[i].val, m[i]);
            SH->probes[P_BYTES] += o->size;
        }
    }
    probe(P_CHECKS);
}
static void host_store(Obj * o, int pe, size_t off, const void *p, size_t n)
{   // a store of the PE to its own memory
    taint_cells(o, pe, off, n, nullptr);
    for (size_t i = 0; i < n; i++) {
        uint8_t v = ((const uint8_t *) p)[i]; BS & b = o->sh[pe][off + i];
        if (b.npend) { auto & c = cand[std::make_tuple(o->id, pe, off + i)]; if (!b.conflict) { c.clear(); c.insert(b.pv); b.conflict = 1; } c.insert(v); }
        *(uint8_t *) hostp(o, pe, off + i) = v; b.val = v; b.known = b.npend == 0; b.evt = ++evtctr;
    }
    note_progress();
}
static void unmanage(Obj * o, int pe, size_t off, size_t n) { for (size_t i = 0; i < n; i++) { BS & b = o->sh[pe][off + i]; b.unman = 1; b.evt = ++evtctr; } taint_cells(o, pe, off, n, nullptr); }
static void adopt(Obj * o, int pe, size_t off, size_t n) { for (size_t i = 0; i < n; i++) { BS & b = o->sh[pe][off + i]; b.unman = 0; b.evt = ++evtctr; if (!b.npend) { b.val = *(uint8_t *) hostp(o, pe, off + i); b.known = 1; } } }
static bool quietbytes(Obj * o, int pe, size_t off, size_t n) { for (size_t i = 0; i < n; i++) if (o->sh[pe][off + i].npend || o->sh[pe][off + i].unman) return false; return true; }

static void monitor()
{
    for (size_t i = 0; i < fws.size();) {
        FW & f = fws[i]; WOp *b = f.b; bool drop = b->done || !b->o->live, vis = false;
        if (!drop) {
            size_t n = 0;
            each(b->segs, [&](size_t off, size_t k) {
                if (vis || n >= 64) return;
                BS & s = b->o->sh[b->tgt][off];
                if (s.last != b->id || s.conflict || s.unman || (b->any && s.npend != 1) || k >= b->old.size() || b->old[k] < 0 || b->old[k] == b->data[k]) return;
                n++; if (*(uint8_t *) hostp(b->o, b->tgt, off) == b->data[k]) vis = true; });
            if (vis) {
                for (auto a : f.as) if (!a->done && a->o->live)
                    each(a->segs, [&](size_t off, size_t k) {
                        BS & s = a->o->sh[a->tgt][off];
                        if (s.last != a->id || s.conflict || s.unman || (a->any && s.npend != 1) || (k < a->mask.size() && a->mask[k])) return;
                        uint8_t m = *(uint8_t *) hostp(a->o, a->tgt, off);
                        if (m != a->data[k]) violation("fence", "pe%d sees the effect of %s but not that of the fence-ordered earlier %s (offset %zu of object %d is %02x, not %02x)", a->tgt, opname(b).c_str(), opname(a).c_str(), off, a->o->id, m, a->data[k]); });
                drop = true;
            }
        }
        if (drop) { fws[i] = fws.back(); fws.pop_back(); } else i++;
    }
    for (auto w : watches) { V v; memcpy(v.b, P(w->pe, w->at), (size_t) w->t.size); if (w->seen.empty() || memcmp(v.b, w->seen.back().b, (size_t) w->t.size)) w->seen.push_back(v); }
}

// ---------------------------------------------------------------------------------------- synchronization helpers
static void *sbase(int pe, int off) { return static_base[pe] + off; }
static void gate(uint32_t mask, int idx, int no)
{   // participants meet inside the library
    int pe = cur->pe; Gate & g = gates[{ idx, no }];
    if (g.arrived == 0) memset(g.want, 0, sizeof g.want);
    g.arrived |= 1u << pe; g.th[pe] = cur->tid % MAXTH; g.want[pe] = ++gcount[pe][g.th[pe]]; long want = g.want[pe]; char *cell = (char *) sbase(pe, OFF_GATE + 8 * g.th[pe]);
    if ((g.arrived & mask) == mask) { for (int p = 0; p < NPES; p++) if (mask >> p & 1) *(long *) P(p, sbase(p, OFF_GATE + 8 * g.th[p])) = g.want[p]; note_progress(); }
    LOG("gate %d.%d want %ld", idx, no, want);
    callf<void, long *, int, long>("shmem_long_wait_until", (long *) cell, cmp_code[3], want);
    if (*(long *) P(pe, cell) < want) violation("wait", "pe%d: shmem_long_wait_until(GE %ld) returned while the variable was %ld", pe, want, *(long *) P(pe, cell));
}
static void enter(int key, bool completes) { CI & c = cis[key]; c.entered |= 1u << cur->pe; if (completes) { auto v = snapshot(cur->pe, cur->tid, 0); c.ops.insert(c.ops.end(), v.begin(), v.end()); } }
static void kill_obj(Obj * o);
static void settle(Obj * o, const std::vector<WOp *> & v)
{   // the block is gone: what it must have held follows from the completed operations
    for (auto w : v) if (w->o == o && !w->done && !w->read && o->live)
        each(w->segs, [&](size_t off, size_t) { BS & b = o->sh[w->tgt][off]; if (--b.npend || b.unman) return; b.known = !b.conflict && !b.any; b.val = b.pv; b.conflict = b.any = 0; });
}
static void leave(int key, uint32_t mask, const char *cls, bool completes, const char *what, Obj *dying = nullptr)
{
    CI & c = cis[key]; probe(P_CHECKS);
    if ((c.entered & mask) != mask) {
        std::string miss; for (int p = 0; p < NPES; p++) if (mask >> p & 1 && !(c.entered >> p & 1)) miss += " pe" + std::to_string(p);
        violation(cls, "pe%d left %s before%s entered it (%s)", cur->pe, what, miss.c_str(), steptext(key / 16).c_str());
    }
    if (completes && !c.exited) { if (dying && dying->live) { settle(dying, c.ops); kill_obj(dying); } complete_all(c.ops, what); c.ops.clear(); stray_check(what); }
    c.exited |= 1u << cur->pe;
}
static uint32_t allmask() { return (1u << NPES) - 1; }
static std::set<std::tuple<long, long, long>> asets_used;
static std::vector<int> aset(const Step & s) { std::vector<int> v; asets_used.insert({ s.g("start"), s.g("log"), s.g("size") }); long st = 1L << s.g("log"); for (int i = 0; i < s.g("size"); i++) v.push_back((int) (s.g("start") + i * st)); return v; }
static uint32_t maskof(const std::vector<int> & v) { uint32_t m = 0; for (int p : v) m |= 1u << p; return m; }
static bool aset_ok(const Step & s) { long last = s.g("start") + (s.g("size") - 1) * (1L << s.g("log")); return s.g("size") >= 1 && s.g("start") >= 0 && last < NPES; }
static Team *team(long id) { auto i = teams.find((int) id); return i == teams.end() ? nullptr : i->second; }
static long *psync(int pe) { return (long *) sbase(pe, OFF_PSYNC) + 16 * (cur->tid % MAXTH); }

// ---------------------------------------------------------------------------------------- one-sided steps
static bool ctx_handle(const Step & s, int pe, Obj * o, bool & useh, void *&h, int & cid)
{
    long c = s.g("ctx", -1); useh = c >= 0; cid = c <= 0 ? 0 : (int) c; h = (void *) 0x80000;
    if (c > 0) { auto i = ctxs.find((int) c); if (i == ctxs.end() || !i->second->ok[pe]) return false; if (o && o->space != i->second->space) return false; h = i->second->h[pe]; }
    return true;
}
static bool usable(Obj * o, int pe, int tgt) { return o && o->live && !o->hold && !o->failed && o->base[pe] && o->base[tgt] && (o->space < 0 || spaces[o->space]->attached); }
struct Shape { const TI *t = nullptr; size_t es = 1; std::string fn; size_t n; long dst = 1, sst = 1; bool str = false, single = false, nbi = false; };
static Shape shape(const Step & s, const char *dir)
{
    Shape h; std::string ty = s.str("ty"); long bits = s.g("bits");
    h.str = s.g("dst") || s.g("sst"); h.single = s.g("single"); h.nbi = s.g("nbi"); h.n = h.single ? 1 : (size_t) s.g("n", 1);
    if (h.str) { h.dst = s.g("dst", 1); h.sst = s.g("sst", 1); if (h.dst < 1) h.dst = 1; if (h.sst < 1) h.sst = 1; }
    std::string c = s.g("ctx", -1) >= 0 ? "shmem_ctx_" : "shmem_";
    if (!ty.empty()) { h.t = find_type(ty); h.es = (size_t) h.t->size; if (h.single) h.fn = c + ty + "_" + (dir[0] == 'p' ? "p" : "g"); else h.fn = c + ty + "_" + (h.str ? "i" : "") + dir; }
    else if (bits) { h.es = (size_t) bits / 8; h.fn = c + (h.str ? "i" : "") + dir + std::to_string(bits); }
    else h.fn = c + dir + "mem";
    if (h.nbi) h.fn += "_nbi";
    return h;
}
static Bytes elems(const Shape & h, uint64_t v) { Bytes b(h.n * h.es); for (size_t i = 0; i < h.n; i++) if (h.t) { V x = make_val(*h.t, mix(v, i), 0); memcpy(&b[i * h.es], x.b, h.es); } else for (size_t j = 0; j < h.es; j++) b[i * h.es + j] = (uint8_t) (mix(v, i, j) >> 9); return b; }
static void do_put(const Step & s, int idx)
{
    int pe = cur->pe, tgt = (int) s.g("tgt"); Obj *o = obj(s.g("obj")); bool useh; void *h; int cid;
    if (tgt >= NPES || !usable(o, pe, tgt) || !ctx_handle(s, pe, o, useh, h, cid)) return;
    Shape sh = shape(s, "put"); size_t off = (size_t) s.g("off"), span = sh.n ? ((sh.n - 1) * (size_t) sh.dst + 1) * sh.es : 0;
    if (!in_range(o, off, span ? span : 1)) return;
    if (sh.single && !sh.t) return;
    WOp *w = new WOp; w->pe = pe; w->th = cur->tid; w->ctx = cid; w->tgt = tgt; w->o = o; w->step = idx;
    Bytes el = elems(sh, (uint64_t) s.g("v")); char *src = nullptr; size_t ssz = sh.n ? ((sh.n - 1) * (size_t) sh.sst + 1) * sh.es : 1; bool own = true;
    if (s.g("ro", -1) >= 0 && (size_t) s.g("ro") + ssz <= RO_SZ && !sh.single) { src = static_base[pe] + OFF_RO + s.g("ro"); own = false; for (size_t i = 0; i < sh.n; i++) memcpy(&el[i * sh.es], P(pe, src + i * (size_t) sh.sst * sh.es), sh.es); if (sh.t && sh.t->k == 'l') { } }
    else if (!sh.single) { src = (char *) user_malloc(ssz); memset(src, 0x77, ssz); for (size_t i = 0; i < sh.n; i++) memcpy(src + i * (size_t) sh.sst * sh.es, &el[i * sh.es], sh.es); }
    w->data = el;
    if (sh.t && sh.t->k == 'l') { w->mask.resize(el.size()); for (size_t k = 0; k < el.size(); k++) w->mask[k] = k % 16 >= 10; }
    for (size_t i = 0; i < sh.n; i++) w->segs.push_back({ off + i * (size_t) sh.dst * sh.es, sh.es });
    issue(w);
    void *f = pe_sym(pe, sh.fn); char *dst = o->base[pe] + off;
    {
        Call c(sh.fn);
        if (sh.single) { V v; memcpy(v.b, el.data(), sh.es); call_p(f, useh, h, *sh.t, dst, v, tgt); }
        else if (sh.str) { if (useh) ((void (*)(void *, void *, const void *, ptrdiff_t, ptrdiff_t, size_t, int)) f)(h, dst, src, sh.dst, sh.sst, sh.n, tgt); else ((void (*)(void *, const void *, ptrdiff_t, ptrdiff_t, size_t, int)) f)(dst, src, sh.dst, sh.sst, sh.n, tgt); }
        else { if (useh) ((void (*)(void *, void *, const void *, size_t, int)) f)(h, dst, src, sh.n, tgt); else ((void (*)(void *, const void *, size_t, int)) f)(dst, src, sh.n, tgt); }
    }
    if (own && src) {
        if (sh.nbi && !w->done) w->owned.push_back(src);
        else { if (s.g("keep")) memset(src, 0x5A, ssz); user_free(src); }
    }
    if (sh.n == 0) complete(w, "return");
}
static void do_get(const Step & s, int idx)
{
    int pe = cur->pe, tgt = (int) s.g("tgt"); Obj *o = obj(s.g("obj")); bool useh; void *h; int cid;
    if (tgt >= NPES || !usable(o, pe, tgt) || !ctx_handle(s, pe, o, useh, h, cid)) return;
    Shape sh = shape(s, "get"); size_t off = (size_t) s.g("off"), span = sh.n ? ((sh.n - 1) * (size_t) sh.sst + 1) * sh.es : 0;
    if (!in_range(o, off, span ? span : 1) || (sh.single && !sh.t)) return;
    WOp *w = new WOp; w->pe = pe; w->th = cur->tid; w->ctx = cid; w->tgt = tgt; w->o = o; w->step = idx; w->read = true; w->dty = sh.t;
    for (size_t i = 0; i < sh.n; i++) { w->segs.push_back({ off + i * (size_t) sh.sst * sh.es, sh.es }); w->dsegs.push_back({ i * (size_t) sh.dst * sh.es, sh.es }); }
    w->dsize = sh.n ? ((sh.n - 1) * (size_t) sh.dst + 1) * sh.es : 16;
    char *dst = (char *) user_malloc(w->dsize); memset(dst, 0xC3, w->dsize); w->dbuf = dst; w->owned.push_back(dst);
    issue(w);
    void *f = pe_sym(pe, sh.fn); const char *src = o->base[pe] + off;
    {
        Call c(sh.fn);
        if (sh.single) { V v = call_g(f, useh, h, *sh.t, src, tgt); memcpy(dst, v.b, sh.es); }
        else if (sh.str) { if (useh) ((void (*)(void *, void *, const void *, ptrdiff_t, ptrdiff_t, size_t, int)) f)(h, dst, src, sh.dst, sh.sst, sh.n, tgt); else ((void (*)(void *, const void *, ptrdiff_t, ptrdiff_t, size_t, int)) f)(dst, src, sh.dst, sh.sst, sh.n, tgt); }
        else { if (useh) ((void (*)(void *, void *, const void *, size_t, int)) f)(h, dst, src, sh.n, tgt); else ((void (*)(void *, const void *, size_t, int)) f)(dst, src, sh.n, tgt); }
    }
    if (!sh.nbi || sh.n == 0) complete(w, "return");
}
static const char *depname(int op) { switch (op) { case A_FETCH: return "fetch"; case A_SET: return "set"; case A_SWAP: return "swap"; case A_CSWAP: return "cswap"; case A_FINC: return "finc"; case A_INC: return "inc"; case A_FADD: return "fadd"; case A_ADD: return "add"; } return nullptr; }
static V do_amo_at(int op, const TI & t, Obj * o, size_t off, int tgt, int cid, bool useh, void *h, bool nbi, bool dep, const V & val, const V & cond, int idx, bool managed)
{
    int pe = cur->pe; std::string fn = useh ? "shmem_ctx_" : "shmem_"; bool d = dep && !useh && !nbi && depname(op);
    fn += std::string(t.name) + "_" + (d ? depname(op) : (std::string("atomic_") + aop_name[op])) + (nbi ? "_nbi" : "");
    Cell *c = nullptr; WOp *w = nullptr;
    if (managed) {
        auto key = std::make_tuple(o->id, tgt, off); auto i = cells.find(key);
        bool ok = quietbytes(o, tgt, off, (size_t) t.size); for (int k = 0; k < t.size; k++) if (!o->sh[tgt][off + (size_t) k].known) ok = false;
        if (i != cells.end()) { c = i->second; if (strcmp(c->t.name, t.name)) { if (c->t.size != t.size || c->t.k != t.k) { c->tainted = true; if (c->open == 0) { c->t = t; } } } }
        else { c = new Cell; c->o = o; c->tgt = tgt; c->off = off; c->t = t; c->tainted = true; cells[key] = c; }
        if (c->open == 0 && ok) { c->t = t; c->tainted = false; c->h.clear(); memcpy(c->init.b, hostp(o, tgt, off), (size_t) t.size); memset(c->init.b + t.size, 0, sizeof c->init.b - (size_t) t.size); }
        if (c->h.size() >= 58) { c->tainted = true; c->h.clear(); }
        w = new WOp; w->pe = pe; w->th = cur->tid; w->ctx = cid; w->tgt = tgt; w->o = o; w->step = idx; w->cell = c; w->any = true; c->open++;
        if (op == A_FETCH) w->segs = { }; else w->segs = { { off, (size_t) t.size } };
        if (ok && op != A_FETCH) { V now; memcpy(now.b, hostp(o, tgt, off), (size_t) t.size); V nv = amo_apply(t, op, now, val, cond); w->data.assign(nv.b, nv.b + t.size); w->fdata = true; } else w->data.assign(op == A_FETCH ? 0 : (size_t) t.size, 0);
        issue(w);
        if (!c->tainted) { HOp hp; hp.op = op; hp.val = val; hp.cond = cond; hp.inv = ++tick; hp.pe = pe; hp.grp = 1 + pe * 64 + cur->tid * 16 + (cid & 15); hp.fep = w->fep; w->hop = (int) c->h.size(); c->h.push_back(hp); }
        for (int k = 0; k < t.size && op != A_FETCH; k++) o->sh[tgt][off + (size_t) k].any = 1;
    }
    void *f = pe_sym(pe, fn); V ret; probe(P_AMO);
    if (nbi) {
        char *fb = (char *) user_malloc((size_t) t.size); memset(fb, 0xC3, (size_t) t.size);
        { Call cc(fn); call_amo_nbi(f, useh, h, t, op, fb, o->base[pe] + off, val, cond, tgt); }
        if (w && !w->done) { w->dbuf = fb; w->owned.push_back(fb); }
    } else {
        { Call cc(fn); ret = call_amo(f, useh, h, t, op, o->base[pe] + off, val, cond, tgt); }
        if (w && aop_fetches(op)) {
            if (w->hop >= 0 && !c->h.empty()) { c->h[(size_t) w->hop].ret = ret; c->h[(size_t) w->hop].hasret = true; }
            if (!w->done) complete(w, "return");
        }
    }
    return ret;
}
static void do_amo(const Step & s, int idx)
{
    int pe = cur->pe, tgt = (int) s.g("tgt"); Obj *o = obj(s.g("obj")); bool useh; void *h; int cid;
    if (tgt >= NPES || !usable(o, pe, tgt) || !ctx_handle(s, pe, o, useh, h, cid)) return;
    const TI & t = *find_type(s.str("ty", "int")); int op = (int) s.g("k"); size_t off = (size_t) s.g("off");
    if (!in_range(o, off, (size_t) t.size) || off % (size_t) t.size) return;
    V val = make_val(t, (uint64_t) s.g("v"), (int) s.g("small")), cond = make_val(t, (uint64_t) s.g("cv"), (int) s.g("small"));
    if (op == A_CSWAP && s.g("hit")) { memcpy(cond.b, hostp(o, tgt, off), (size_t) t.size); }      // the application guesses the current value
    if (s.g("x")) { int64_t x = s.g("x"); memcpy(val.b, &x, (size_t) t.size); }
    do_amo_at(op, t, o, off, tgt, cid, useh, h, s.g("nbi") && aop_fetches(op), s.g("dep"), val, cond, idx, true);
}
static void do_quiet(const Step & s)
{
    bool useh; void *h; int cid; if (!ctx_handle(s, cur->pe, nullptr, useh, h, cid)) return;
    auto v = snapshot(cur->pe, cur->tid, cid);
    if (useh) callf<void, void *>("shmem_ctx_quiet", h); else callf<void>("shmem_quiet");
    complete_all(v, useh ? "shmem_ctx_quiet" : "shmem_quiet");
}
static void do_fence(const Step & s)
{
    bool useh; void *h; int cid; if (!ctx_handle(s, cur->pe, nullptr, useh, h, cid)) return;
    if (useh) callf<void, void *>("shmem_ctx_fence", h); else callf<void>("shmem_fence");
    fepoch[std::make_tuple(cur->pe, cur->tid, cid, -1)]++;
}

// ---------------------------------------------------------------------------------------- heap
static Obj *newobj(int id, const std::string & kind, size_t size, int space)
{
    auto i = objs.find(id); if (i != objs.end()) return i->second;
    Obj *o = new Obj; o->id = id; o->kind = kind; o->size = size; o->space = space; o->live = false; o->failed = true; memset(o->base, 0, sizeof o->base); objs[id] = o; return o;
}
struct Res { std::map<int, void *> r; };
static std::map<int, Res> allocres;
// A PE may access a new block on all PEs as soon as its own call returned: one PE writes a mark at once.
struct Poke { int who = -1; size_t off = 0, n = 0; uint8_t v = 0; bool at(int pe, size_t i) const { return who >= 0 && pe != who && i >= off && i < off + n; } };
static Poke poke_of(const Step & s, size_t size) { Poke k; if (!s.g("poke") || size < 8 || size > 65536) return k; k.who = (int) (s.g("poke") - 1) % NPES; k.n = 1 + (size_t) s.g("pn") % 8; k.off = (size_t) s.g("poff") % (size - k.n + 1); k.v = (uint8_t) (0x80 | s.g("poff") | s.g("pn") << 3); return k; }
static void poke(const Poke & k, char *p, const char *fn, Obj * o, int idx)
{
    int pe = cur->pe; if (k.who < 0 || !p) return;
    if (pe == k.who) {
        char *b = (char *) user_malloc(8); memset(b, k.v, 8);
        for (int i = 0; i < NPES; i++) { int q = (pe + 1 + i) % NPES; if (q != pe) callf<void, void *, const void *, size_t, int>("shmem_putmem", p + k.off, b, k.n, q); }
        callf<void>("shmem_quiet"); user_free(b);
    }
    gate(allmask(), idx, 6); probe(P_CHECKS);
    if (pe != k.who) { for (size_t i = k.off; i < k.off + k.n; i++) if (*(uint8_t *) P(pe, p + i) != k.v) violation("heap", "pe%d wrote to the new block on pe%d after its %s had returned: byte %zu is %02x instead of %02x (%s)", k.who, pe, fn, i, *(uint8_t *) P(pe, p + i), k.v, steptext(idx).c_str()); adopt(o, pe, k.off, k.n); }
    gate(allmask(), idx, 5);
    o->hold = false;
}
static void alloc_result(int idx, int id, const char *kind, size_t size, int space, char *p, size_t align, bool zero, const std::string & fn, Obj * from, const Poke & pk, size_t hole = 0)
{
    int pe = cur->pe; auto & R = allocres[idx]; R.r[pe] = p;
    for (auto & kv : R.r) if ((kv.second == nullptr) != (p == nullptr)) violation("heap", "%s(%zu) failed on pe%d but succeeded on pe%d (%s)", fn.c_str(), size, p ? kv.first : pe, p ? pe : kv.first, steptext(idx).c_str());
    Obj *o = newobj(id, kind, size - hole, space); o->hole = hole;
    if (!p) { probe(P_OOM); return; }
    if (align && (uintptr_t) p % align) violation("heap", "%s returned %p, which is not aligned to %zu bytes (%s)", fn.c_str(), p, align, steptext(idx).c_str());
    for (auto & kv : objs) { Obj *q = kv.second; if (q == o || q == from || !q->live || !q->base[pe]) continue; if (p < q->base[pe] + q->size && q->base[pe] - q->hole < p + size) violation("heap", "%s returned a block overlapping live object %d (%s)", fn.c_str(), q->id, steptext(idx).c_str()); }
    p += hole; size -= hole; o->base[pe] = p; o->failed = false; o->live = true; if (pk.who >= 0) o->hold = true;      // no other use of the block while a mark is being checked
    if (o->sh[pe].size() != size) o->sh[pe].assign(size, BS());
    for (int q = 0; q < NPES; q++) if (o->base[q]) {
        Obj *ref = nullptr; for (auto & kv : objs) if (kv.second != o && kv.second->space == space && kv.second->kind != "static" && !kv.second->failed && kv.second->base[q] && kv.second->base[pe] && (kv.second->live || kv.second->hint)) { ref = kv.second; break; }
        if (ref && p - ref->base[pe] != o->base[q] - ref->base[q]) violation("heap", "%s returned blocks at different offsets on pe%d and pe%d (%s)", fn.c_str(), pe, q, steptext(idx).c_str());
    }
    o->hint = 1;
    if (zero) for (size_t i = 0; i < size; i++) if (*P(pe, p + i) && !(pk.at(pe, i) && *(uint8_t *) P(pe, p + i) == pk.v)) violation("heap", "%s returned a block whose byte %zu is %02x, not zero (%s)", fn.c_str(), i, *(uint8_t *) P(pe, p + i), steptext(idx).c_str());
    if (from) {
        size_t n = std::min(size, from->size);
        for (size_t i = 0; i < n; i++) { BS & b = from->sh[pe][i]; if (b.known && !b.npend && !b.unman && !pk.at(pe, i) && *(uint8_t *) P(pe, p + i) != b.val) violation("heap", "%s did not preserve byte %zu (%02x instead of %02x; %s)", fn.c_str(), i, *(uint8_t *) P(pe, p + i), b.val, steptext(idx).c_str()); }
    }
    // the application initializes its new block
    for (size_t i = 0; i < size; i++) { BS & b = o->sh[pe][i]; if (b.npend || b.known || pk.at(pe, i)) continue; uint8_t v = patt(pe, id, i); *(uint8_t *) P(pe, p + i) = v; b.val = v; b.known = 1; b.evt = ++evtctr; }
    if (from) note_progress();
}
static size_t live_bytes(int space) { size_t t = 0; for (auto & kv : objs) if (kv.second->live && kv.second->space == space && kv.second->kind != "static") t += kv.second->size + kv.second->hole; return t; }
// a PE which keeps the others waiting for a long time, and then needs an answer from one of them before it goes on
static void dawdle(long n, int t, bool amo, const std::string & what)
{
    int pe = cur->pe; void *f = pe_sym(pe, "shmem_long_test"); long *z = (long *) sbase(pe, OFF_LATE);
    { Call c("shmem_long_test", false); for (long i = 0; i < n; i++) { if (((int (*)(long *, int, long)) f)(z, 0x100001, 1L)) violation("wait", "pe%d: shmem_long_test found 1 in a variable that holds 0 (%s)", pe, what.c_str()); if (i % 8 == 0) { done_ops++; note_progress(); } } }
    if (callf<long, const long *, int>(amo ? "shmem_long_atomic_fetch" : "shmem_long_g", z, t)) violation(amo ? "atomic" : "read", "pe%d: a read of a zero at pe%d returned something else (%s)", pe, t, what.c_str());
}
// one PE is late: it still needs an answer from another PE, which may have entered the collective call already
static void tardy(const Step & s)
{
    int pe = cur->pe; if (s.g("late") != pe + 1) return;
    int t = (int) s.g("lt") % NPES; probe(P_OPS); if (s.g("spin")) dawdle(s.g("spin"), t, s.g("lk"), s.text());
    for (long i = 1 + s.g("lt") % 3; i > 0; i--) if (callf<long, const long *, int>(s.g("lk") ? "shmem_long_atomic_fetch" : "shmem_long_g", (const long *) sbase(pe, OFF_LATE), t)) violation(s.g("lk") ? "atomic" : "read", "pe%d: a read of a zero at pe%d returned something else (%s)", pe, t, s.text().c_str());
}
static void do_malloc(const Step & s, int idx)
{
    int pe = cur->pe; size_t size = (size_t) s.g("size"); long how = s.g("how"); size_t al = (size_t) s.g("align", 64); std::string fn; char *p = nullptr; bool sync = size > 0 && size != (size_t) -1;
    size_t hole = (size_t) s.g("hole"); if (s.g("huge")) { size = (size_t) 1 << s.g("huge"); if (PRM("far")) { hole = size - 64; size = 64; how = 0; } }
    bool empty = live_bytes(-1) == 0;
    Poke pk = poke_of(s, size); size += hole;
    enter(idx * 32, true);
    if (how == 1) { fn = "shmem_calloc"; size_t cn = (size_t) s.g("cnt", 1); if (size % cn) cn = 1; p = (char *) callf<void *, size_t, size_t>(fn, cn, size / cn); al = 8; }
    else if (how == 2) { fn = s.g("dep") ? "shmemalign" : "shmem_align"; p = (char *) callf<void *, size_t, size_t>(fn, al, size); }
    else if (how == 3) { fn = "shmem_malloc_with_hints"; p = (char *) callf<void *, size_t, long>(fn, size, s.g("hints")); al = 8; }
    else if (how == 4) { fn = s.g("dep") ? "shrealloc" : "shmem_realloc"; p = (char *) callf<void *, void *, size_t>(fn, nullptr, size); al = 8; }
    else { fn = s.g("dep") ? "shmalloc" : "shmem_malloc"; p = (char *) callf<void *, size_t>(fn, size); al = 8; }
    if (size) leave(idx * 32, allmask(), "heap-sync", true, fn.c_str());
    if (size == 0) { if (p) violation("heap", "%s(0) returned %p", fn.c_str(), p); return; }
    long heapsz = PRM("heapsize");
    if (p && heapsz && size > (size_t) heapsz + 33 * (size_t) PRM("pagesz", 4096)) violation("heap", "%s(%zu) succeeded although the heap has only %ld bytes", fn.c_str(), size, heapsz);
    if (!p && heapsz && empty && how != 2 && size <= (size_t) heapsz) violation("heap", "%s(%zu) failed although the heap of %ld bytes is empty", fn.c_str(), size, heapsz);
    // bases that differ modulo the alignment leave no block that is aligned on every PE: null is right then
    bool amb = how == 2 && al > (VARIANT == "dyn" || VARIANT == "mtdyn" ? PRM("mapfail") || PRM("addrtaken") ? 16 : (size_t) 1 << 40 : PRM("winskew") ? PRM("winalign", 4096) : 4096);
    if (!p && !amb && heapsz && size < (size_t) heapsz && live_bytes(-1) + 64 * (objs.size() + 2) + size + (how == 2 ? 3 : 1) * al + 256 < (size_t) heapsz / 4) violation("heap", "%s(%zu) failed although less than a quarter of the heap (%zu of %ld bytes) is in use", fn.c_str(), size, live_bytes(-1), heapsz);
    alloc_result(idx, (int) s.g("id"), "heap", size, -1, p, al, how == 1, fn, nullptr, pk, hole); if (p) p += hole;
    poke(pk, p, fn.c_str(), obj((int) s.g("id")), idx); gate(allmask(), idx, 0);
}
static void kill_obj(Obj * o) { for (int p = 0; p < NPES; p++) { auto v = pend[p]; for (auto w : v) if (w->o == o && !w->done) { w->done = true; auto & pv = pend[p]; for (size_t i = 0; i < pv.size(); i++) if (pv[i] == w) { pv.erase(pv.begin() + (long) i); break; } } } o->live = false; std::vector<std::tuple<int, int, size_t>> ks; for (auto & kv : cells) if (kv.second->o == o) ks.push_back(kv.first); for (auto & k : ks) cells.erase(k); }
static void do_free(const Step & s, int idx)
{
    auto it = objs.find((int) s.g("id")); if (it == objs.end() || it->second->failed || it->second->kind == "static") return;
    Obj *o = it->second; if (o->space >= 0 && (spaces[o->space]->destroyed)) return;
    char *b = o->base[cur->pe]; if (!b) return; b -= o->hole;
    bool rz = s.g("rz") && o->space < 0; std::string fn = rz ? (s.g("dep") ? "shrealloc" : "shmem_realloc") : s.g("dep") ? "shfree" : "shmem_free";
    enter(idx * 32, true);
    if (!rz) callf<void, void *>(fn, b);
    else if (void *q = callf<void *, void *, size_t>(fn, b, (size_t) 0)) violation("heap", "%s of a block to a size of zero returned %p instead of freeing it (%s)", fn.c_str(), q, steptext(idx).c_str());
    leave(idx * 32, allmask(), "heap-sync", true, fn.c_str(), o);
    o->base[cur->pe] = nullptr;
}
static void do_realloc(const Step & s, int idx)
{
    auto it = objs.find((int) s.g("id")); if (it == objs.end() || it->second->failed || it->second->space >= 0 || it->second->hole) return;
    Obj *o = it->second; size_t size = (size_t) s.g("size"); if (!size) return;
    static std::map<int, Obj *> shrunk; int pe = cur->pe; char *b = o->base[pe]; if (!b) return;
    std::string fn = s.g("dep") ? "shrealloc" : "shmem_realloc";
    enter(idx * 32, true);
    char *p = (char *) callf<void *, void *, size_t>(fn, b, size);
    leave(idx * 32, allmask(), "heap-sync", true, fn.c_str(), p ? o : nullptr);
    Poke pk = poke_of(s, size);
    if (p) { alloc_result(idx, (int) s.g("nid"), "heap", size, -1, p, 8, false, fn, o, pk); poke(pk, p, fn.c_str(), obj((int) s.g("nid")), idx); }
    else allocres[idx].r[pe] = p;
    gate(allmask(), idx, 0);
    if (p) o->base[pe] = nullptr;
}

// ---------------------------------------------------------------------------------------- spaces
struct SpaceCfg { size_t sheap_size; int num_contexts; int memkind; void *device_handle; long hints; };
static void do_space(const Step & s, int idx)
{
    int pe = cur->pe, id = (int) s.g("sp"); long k = s.g("k"); auto it = spaces.find(id); Space *sp = it == spaces.end() ? nullptr : it->second;
    // all space operations are called by every PE in the same order; k: 0 create 1 attach 2 detach 3 destroy 4 malloc 5 calloc 6 align 7 ctx create 8 ctx destroy
    if (k == 0) {
        if (!sp) { sp = new Space; sp->id = id; memset(sp->h, 0, sizeof sp->h); sp->size = (size_t) s.g("size"); sp->nctx = (int) s.g("nctx"); spaces[id] = sp; }
        SpaceCfg c; memset(&c, 0, sizeof c); c.sheap_size = (size_t) s.g("size"); c.num_contexts = (int) s.g("nctx"); c.hints = s.g("hints");
        tardy(s); callf<void, SpaceCfg, void **>("shmemx_space_create", c, &sp->h[pe]);
        if (!sp->h[pe]) violation("space", "shmemx_space_create returned no space (%s)", steptext(idx).c_str());
        return;
    }
    if (!sp || !sp->h[pe]) return;
    gate(allmask(), idx, 1);
    if (k == 1) { static std::map<int, uint32_t> done; if (sp->destroyed || (done[idx] == 0 && sp->attached)) return; done[idx] |= 1u << pe; tardy(s); callf<void, void *>("shmemx_space_attach", sp->h[pe]); sp->attached = true; gate(allmask(), idx, 0); return; }
    if (k == 2) {
        static std::map<int, uint32_t> done; if (!done[idx] && !sp->attached) return; done[idx] |= 1u << pe;
        for (auto & kv : ctxs) if (kv.second->space == id && kv.second->ok[pe]) { kv.second->ok[pe] = false; callf<void, void *>("shmem_ctx_destroy", kv.second->h[pe]); }
        // the program completes its own traffic before it detaches
        auto v = snapshot(pe, cur->tid, -2); callf<void>("shmem_quiet"); complete_all([&] { std::vector<WOp *> r; for (auto w : v) if (w->ctx == 0) r.push_back(w); return r; }(), "shmem_quiet");
        gate(allmask(), idx, 0);
        tardy(s); callf<void, void *>("shmemx_space_detach", sp->h[pe]);
        sp->attached = false;
        gate(allmask(), idx, 2); return;
    }
    if (k == 3) { static std::map<int, uint32_t> done; if (!done[idx] && (sp->attached || sp->destroyed)) return; done[idx] |= 1u << pe; if (!sp->destroyed) { sp->destroyed = true; for (auto & kv : objs) if (kv.second->space == id && kv.second->live) kill_obj(kv.second); } tardy(s); callf<void, void *>("shmemx_space_destroy", sp->h[pe]); gate(allmask(), idx, 0); sp->h[pe] = nullptr; return; }
    if (k >= 4 && k <= 6) {
        if (sp->destroyed) return;
        size_t size = (size_t) s.g("size"), al = 8; std::string fn; char *p; if (!size) return;
        size_t hole = (size_t) s.g("hole"); if (s.g("huge")) { size = (size_t) 1 << s.g("huge"); if (PRM("far")) { hole = size - 64; size = 64; k = 4; } }
        size_t pgm = (size_t) PRM("pagesz", 4096) - 1; size += hole;
        enter(idx * 32, true);
        tardy(s);
        if (k == 4) { fn = "shmemx_space_malloc"; p = (char *) callf<void *, void *, size_t>(fn, sp->h[pe], size); }
        else if (k == 5) { fn = "shmemx_space_calloc"; size_t cn = (size_t) s.g("cnt", 1); if (size % cn) cn = 1; p = (char *) callf<void *, void *, size_t, size_t>(fn, sp->h[pe], cn, size / cn); }
        else { fn = "shmemx_space_align"; al = (size_t) s.g("align", 64); p = (char *) callf<void *, void *, size_t, size_t>(fn, sp->h[pe], al, size); }
        leave(idx * 32, allmask(), "heap-sync", true, fn.c_str());
        if (p && size > ((sp->size + pgm) & ~pgm)) violation("space", "%s(%zu) succeeded although the space has only %zu bytes", fn.c_str(), size, sp->size);
        if (!p && live_bytes(id) == 0 && size + (k == 6 ? al : 0) <= sp->size) violation("space", "%s(%zu) failed although the space of %zu bytes is empty", fn.c_str(), size, sp->size);
        Poke pk; if (sp->attached) pk = poke_of(s, size - hole);
        alloc_result(idx, (int) s.g("id"), "space", size, id, p, al, k == 5, fn, nullptr, pk, hole); if (p) p += hole; poke(pk, p, fn.c_str(), obj((int) s.g("id")), idx);
        gate(allmask(), idx, 0); return;
    }
    if (k == 7) {
        if (sp->destroyed || !sp->attached) return;
        int cid = (int) s.g("ctx"); auto & c = ctxs[cid]; if (!c) { c = new Ctx; c->id = cid; c->space = id; memset(c->h, 0, sizeof c->h); memset(c->ok, 0, sizeof c->ok); }
        int used = 0; for (auto & kv : ctxs) if (kv.second->space == id && kv.second->ok[pe]) used++;
        void *h = nullptr; int rc = callf<int, void *, long, void **>("shmemx_space_create_ctx", sp->h[pe], s.g("opt"), &h);
        if (rc == 0) {
            if (!h) violation("context", "shmemx_space_create_ctx reported success without a context");
            if (used >= sp->nctx) violation("context", "pe%d got context number %d of a space that has %d", pe, used + 1, sp->nctx);
            for (auto & kv : ctxs) if (kv.second->ok[pe] && kv.second->h[pe] == h) violation("context", "pe%d was handed a context that is still in use (%s)", pe, steptext(idx).c_str());
            c->h[pe] = h; c->ok[pe] = true;
        } else { probe(P_OOM); if (used < sp->nctx) violation("context", "pe%d: no context although only %d of %d are in use (%s)", pe, used, sp->nctx, steptext(idx).c_str()); }
        return;
    }
    if (k == 8) {
        auto i = ctxs.find((int) s.g("ctx")); if (i == ctxs.end() || !i->second->ok[pe]) return;
        auto v = snapshot(pe, cur->tid, i->second->id); i->second->ok[pe] = false;
        callf<void, void *>("shmem_ctx_destroy", i->second->h[pe]);
        complete_all(v, "shmem_ctx_destroy");
        return;
    }
}

// ---------------------------------------------------------------------------------------- teams
static Team *newteam(int id) { Team *t = team(id); if (!t) { t = new Team; t->id = id; memset(t->h, 0, sizeof t->h); memset(t->have, 0, sizeof t->have); memset(t->destroyed, 0, sizeof t->destroyed); teams[id] = t; } return t; }
static bool tmember(Team * t, int pe) { return t && t->have[pe] && !t->destroyed[pe]; }
static int rank_in(const std::vector<int> & m, int pe) { for (size_t i = 0; i < m.size(); i++) if (m[i] == pe) return (int) i; return -1; }
static void check_team(Team * t, int idx)
{
    int pe = cur->pe; void *h = t->h[pe]; auto & m = t->mem[pe];
    int n = callf<int, void *>("shmem_team_n_pes", h), r = callf<int, void *>("shmem_team_my_pe", h); probe(P_CHECKS);
    if (n != (int) m.size() || r != rank_in(m, pe)) violation("team", "pe%d is number %d of %d in team %d, expected %d of %zu (%s)", pe, r, n, t->id, rank_in(m, pe), m.size(), steptext(idx).c_str());
}
static void do_split(const Step & s, int idx)
{
    Team *p = team(s.g("parent")); int pe = cur->pe; if (!tmember(p, pe)) return;
    auto & pm = p->mem[pe]; int np = (int) pm.size(); std::vector<int> st; int key = idx * 32 + pm[0];
    if (s.g("late")) tardy(s); else gate(maskof(pm), idx, 100 + pm[0]);
    enter(key, false);
    if (s.op == "split") {
        long start = s.g("start"), stride = s.g("stride", 1), size = s.g("size", 1), bad = s.g("bad"); void *ph = p->h[pe];
        if (start >= np) start = 0;
        if (size < 1) size = 1;
        if (!stride && size > 1) stride = 1;
        auto fits = [&](long z) { long e = start + (z - 1) * stride; return e >= 0 && e < np; };
        while (size > 1 && !fits(size)) size--;
        if (bad == 1) start = np + size - 1; else if (bad == 2) { if (!stride) stride = 1; while (fits(size)) size++; } else if (bad == 3) { stride = 0; size = 2; } else if (bad == 4) size = 0; else if (bad == 5) start = -1; else if (bad == 6) ph = nullptr;
        if (!bad) for (int i = 0; i < size; i++) st.push_back(pm[(size_t) (start + i * stride)]);
        struct { int nctx; } cfg = { (int) s.g("cfg") }, out = { -7 };
        void *h = (void *) 0x1; int rc = callf<int, void *, int, int, int, const void *, long, void **>("shmem_team_split_strided", ph, (int) start, (int) stride, (int) size, s.g("cfg") ? (const void *) &cfg : (const void *) nullptr, s.g("cfg") > 1 ? 0x091001L : 0L, &h);
        if (bad) {
            probe(P_CHECKS);
            if (!rc || h) violation("team", "pe%d: shmem_team_split_strided(start %ld, stride %ld, size %ld) of a team of %d is invalid but returned %d with %s handle (%s)", pe, start, stride, size, np, rc, h ? "a valid" : "the invalid", steptext(idx).c_str());
            return;
        }
        if (rc != 0) violation("team", "pe%d: shmem_team_split_strided(start %ld, stride %ld, size %ld) of a team of %d failed with %d (%s)", pe, start, stride, size, np, rc, steptext(idx).c_str());
        Team *t = newteam((int) s.g("id")); bool in = rank_in(st, pe) >= 0;
        if (in == (h == nullptr)) violation("team", "pe%d %s a member of the new team but got %s handle (%s)", pe, in ? "is" : "is not", h ? "a valid" : "the invalid", steptext(idx).c_str());
        if (in) {
            t->mem[pe] = st; t->h[pe] = h; t->have[pe] = true; t->destroyed[pe] = false; check_team(t, idx);
            int grc = callf<int, void *, long, void *>("shmem_team_get_config", h, 0x091001L, &out);
            if (grc || out.nctx != (s.g("cfg") > 1 ? cfg.nctx : 0)) violation("team", "pe%d: the new team was created with %d contexts, its configuration (result %d) says %d (%s)", pe, s.g("cfg") > 1 ? cfg.nctx : 0, grc, out.nctx, steptext(idx).c_str());
        } else if (callf<int, void *>("shmem_team_my_pe", h) != -1 || callf<int, void *>("shmem_team_n_pes", h) != -1) violation("team", "pe%d: the invalid team has a size or number", pe);
    } else {
        long xr = s.g("xrange", 1); if (xr < 1) xr = 1;
        struct Cfg { int nctx; } cx = { (int) s.g("cfx") }, cy = { (int) s.g("cfy") };     // 0 no configuration, 1 one with an empty mask, else one with a mask
        void *hx = (void *) 1, *hy = (void *) 1; int rc = callf<int, void *, int, const void *, long, void **, const void *, long, void **>("shmem_team_split_2d", p->h[pe], (int) xr, cx.nctx ? (const void *) &cx : (const void *) nullptr, cx.nctx > 1 ? 0x091001L : 0L, &hx, cy.nctx ? (const void *) &cy : (const void *) nullptr, cy.nctx > 1 ? 0x091001L : 0L, &hy);
        if (rc != 0) violation("team", "pe%d: shmem_team_split_2d failed with %d (%s)", pe, rc, steptext(idx).c_str());
        long x = xr > np ? np : xr; int me = rank_in(pm, pe); std::vector<int> mx, my;
        for (int i = 0; i < np; i++) { if (i / x == me / x) mx.push_back(pm[(size_t) i]); if (i % x == me % x) my.push_back(pm[(size_t) i]); }
        if (!hx || !hy) violation("team", "pe%d got an invalid axis team (%s)", pe, steptext(idx).c_str());
        Team *a = newteam((int) s.g("id")), *b = newteam((int) s.g("id2"));
        a->mem[pe] = mx; a->h[pe] = hx; a->have[pe] = true; a->destroyed[pe] = false; b->mem[pe] = my; b->h[pe] = hy; b->have[pe] = true; b->destroyed[pe] = false;
        check_team(a, idx); check_team(b, idx);
        for (int ax = 0; ax < 2; ax++) { Cfg out = { -7 }; int want = (ax ? cy : cx).nctx; if (want < 2) want = 0; int grc = callf<int, void *, long, void *>("shmem_team_get_config", ax ? hy : hx, 0x091001L, &out); if (grc || out.nctx != want) violation("team", "pe%d: the %s axis team was created with %d contexts, its configuration (result %d) says %d (%s)", pe, ax ? "y" : "x", want, grc, out.nctx, steptext(idx).c_str()); }
    }
}
static void do_translate(const Step & s, int idx)
{
    int pe = cur->pe; if (pe != (int) s.g("pe")) return;
    Team *a = team(s.g("t1")), *b = team(s.g("t2")); if (!tmember(a, pe) || !tmember(b, pe)) return;
    int n = (int) a->mem[pe].size(); long src = s.g("src"); if (src >= n) src %= n;
    int r = callf<int, void *, int, void *>("shmem_team_translate_pe", a->h[pe], (int) src, b->h[pe]); probe(P_CHECKS);
    int want = rank_in(b->mem[pe], a->mem[pe][(size_t) src]);
    if (src % 3 == 0) {     // the invalid team
        struct { int nctx; } cfg = { 5 };
        if (callf<int, void *, int, void *>("shmem_team_translate_pe", nullptr, 0, b->h[pe]) != -1 || callf<int, void *, int, void *>("shmem_team_translate_pe", a->h[pe], 0, nullptr) != -1) violation("team", "pe%d: a PE number was translated from or to the invalid team", pe);
        if (!callf<int, void *, long, void *>("shmem_team_get_config", nullptr, 0x091001L, &cfg)) violation("team", "pe%d: the invalid team has a configuration", pe);
        callf<void, void *>("shmem_team_destroy", nullptr);
        if (!callf<int, void *>("shmem_team_sync", nullptr)) violation("team", "pe%d: synchronizing the invalid team is reported as done", pe);
    }
    if (r != want) violation("team", "pe%d: number %ld of team %d translates to %d in team %d, expected %d (%s)", pe, src, a->id, r, b->id, want, steptext(idx).c_str());
}
static void do_tdestroy(const Step & s, int idx)
{
    Team *t = team(s.g("id")); int pe = cur->pe; if (t && t->id > 1 && tmember(t, pe)) {
        auto m = t->mem[pe]; gate(maskof(m), idx, 100 + m[0]);
        tardy(s); t->destroyed[pe] = true; callf<void, void *>("shmem_team_destroy", t->h[pe]);
    }
}

// ---------------------------------------------------------------------------------------- synchronization steps
static void do_sync(const Step & s, int idx)
{
    int pe = cur->pe; const std::string & k = s.op;
    if (k == "barrier_all") { enter(idx * 32, true); callf<void>("shmem_barrier_all"); leave(idx * 32, allmask(), "barrier", true, "shmem_barrier_all"); }
    else if (k == "sync_all") { enter(idx * 32, false); callf<void>("shmem_sync_all"); leave(idx * 32, allmask(), "sync", false, "shmem_sync_all"); }
    else if (k == "barrier" || k == "sync") {
        if (!aset_ok(s)) return;
        auto m = aset(s); if (rank_in(m, pe) < 0) return;
        bool b = k == "barrier"; enter(idx * 32, b);
        callf<void, int, int, int, long *>(b ? "shmem_barrier" : "shmem_sync_aset", (int) s.g("start"), (int) s.g("log"), (int) s.g("size"), psync(pe));
        leave(idx * 32, maskof(m), b ? "barrier" : "sync", b, b ? "shmem_barrier" : "shmem_sync");
    } else if (k == "team_sync") {
        Team *t = team(s.g("team")); if (!tmember(t, pe)) return;
        auto & m = t->mem[pe]; int key = idx * 32 + m[0];
        enter(key, false);
        int rc = callf<int, void *>("shmem_team_sync", t->h[pe]);
        if (rc) violation("sync", "pe%d: shmem_team_sync returned %d (%s)", pe, rc, steptext(idx).c_str());
        leave(key, maskof(m), "sync", false, "shmem_team_sync");
    }
}

// ---------------------------------------------------------------------------------------- collectives
static void do_coll(const Step & s, int idx)
{
    int pe = cur->pe; std::string k = s.str("k"), ty = s.str("ty"); long tm = s.g("team", -1); std::vector<int> m; void *th = nullptr; Team *t = nullptr;
    if (tm >= 0) { t = team(tm); if (!tmember(t, pe)) return; m = t->mem[pe]; th = t->h[pe]; } else { if (!aset_ok(s)) return; m = aset(s); if (rank_in(m, pe) < 0) return; }
    int np = (int) m.size(), me = rank_in(m, pe), lead = m[0];
    Obj *o = obj(s.g("obj")); if (!o || o->failed) return;
    for (int p : m) if (!o->base[p]) return;
    bool red = k == "reduce"; const TI *T = ty.empty() ? nullptr : find_type(ty); size_t es = T ? (size_t) T->size : (size_t) s.g("bits", 8) / 8;
    size_t n = (size_t) s.g("n"), doff = (size_t) s.g("doff"), soff = (size_t) s.g("soff"); size_t dst = (size_t) s.g("dst", 1), sst = (size_t) s.g("sst", 1); uint64_t v = (uint64_t) s.g("v"); int root = (int) s.g("root") % np;
    bool inplace = red && s.g("inplace"); if (inplace) soff = doff;
    auto cnt = [&](int i) -> size_t { if (k != "collect" || !s.g("uneq")) return n; return mix(v, (uint64_t) i, 77) % (n + 1); };
    // sizes
    size_t tot = 0; for (int i = 0; i < np; i++) tot += cnt(i);
    size_t sn, dn;
    if (k == "bcast") { sn = n; dn = n; } else if (k == "collect" || k == "fcollect") { sn = cnt(me); dn = tot; } else if (k == "alltoall") { sn = dn = n * (size_t) np; }
    else if (k == "alltoalls") { sn = n ? (n * (size_t) np - 1) * sst + 1 : 0; dn = n ? (n * (size_t) np - 1) * dst + 1 : 0; } else { sn = dn = n; }
    size_t smax = std::max(sn, n);
    if (!in_range(o, soff, smax * es) || !in_range(o, doff, dn * es) || soff % es || doff % es) return;
    if (!inplace && soff < doff + dn * es && doff < soff + smax * es && smax && dn) return;
    uint32_t mask = maskof(m);
    if (!s.g("nogate")) gate(mask, idx, 100 + lead);
    tardy(s);
    auto val = [&](int rank, size_t i) -> V { V x; if (T) x = make_val(*T, mix(v, (uint64_t) rank * 1000 + 7, i), red ? (int) s.g("small", 3) : 0); else for (size_t j = 0; j < es; j++) x.b[j] = (uint8_t) (mix(v, (uint64_t) rank * 1000 + 9, i * 16 + j) >> 13); return x; };
    Bytes src(sn * es);
    for (size_t i = 0; i < sn; i++) { V x = val(me, i); memcpy(&src[i * es], x.b, es); }
    if (sn) host_store(o, pe, soff, src.data(), src.size());
    // destination is in flux from now on
    WOp *w = new WOp; w->pe = pe; w->th = cur->tid; w->ctx = -5; w->tgt = pe; w->o = o; w->step = idx; w->any = true; if (dn) w->segs = { { doff, dn * es } };
    Bytes before(dn * es); for (size_t i = 0; i < before.size(); i++) before[i] = *(uint8_t *) hostp(o, pe, doff + i);
    std::vector<uint8_t> kn(before.size()); for (size_t i = 0; i < before.size(); i++) { BS & b = o->sh[pe][doff + i]; kn[i] = b.known && !b.npend && !b.unman; }
    w->data.assign(dn * es, 0); issue(w);
    char *d = o->base[pe] + doff, *sp = o->base[pe] + soff; int A = (int) s.g("start"), L = (int) s.g("log"), Z = np; int rc = 0;
    enter(idx * 32 + lead, false);
    if (!red) {
        std::string base = k == "bcast" ? "broadcast" : k;
        if (tm >= 0) {
            std::string fn = ty.empty() ? "shmem_" + base + "mem" : "shmem_" + ty + "_" + base;
            if (k == "bcast") rc = callf<int, void *, void *, const void *, size_t, int>(fn, th, d, sp, n, root);
            else if (k == "alltoalls") rc = callf<int, void *, void *, const void *, ptrdiff_t, ptrdiff_t, size_t>(fn, th, d, sp, (ptrdiff_t) dst, (ptrdiff_t) sst, n);
            else rc = callf<int, void *, void *, const void *, size_t>(fn, th, d, sp, cnt(me));
        } else {
            std::string fn = "shmem_" + base + std::to_string(s.g("bits"));
            if (k == "bcast") callf<void, void *, const void *, size_t, int, int, int, int, long *>(fn, d, sp, n, root, A, L, Z, psync(pe));
            else if (k == "alltoalls") callf<void, void *, const void *, ptrdiff_t, ptrdiff_t, size_t, int, int, int, long *>(fn, d, sp, (ptrdiff_t) dst, (ptrdiff_t) sst, n, A, L, Z, psync(pe));
            else callf<void, void *, const void *, size_t, int, int, int, long *>(fn, d, sp, cnt(me), A, L, Z, psync(pe));
        }
    } else {
        std::string opn = rop_name[s.g("rop")];
        if (tm >= 0) rc = callf<int, void *, void *, const void *, size_t>("shmem_" + ty + "_" + opn + "_reduce", th, d, sp, n);
        else callf<void, void *, const void *, int, int, int, int, void *, long *>("shmem_" + ty + "_" + opn + "_to_all", d, sp, (int) n, A, L, Z, (void *) sbase(pe, OFF_PWRK), psync(pe));
    }
    if (rc) violation(red ? "reduce" : "collective", "pe%d: a team collective returned %d (%s)", pe, rc, steptext(idx).c_str());
    // expected destination; -1: unchanged, -2: unspecified
    std::vector<int> ex(dn * es, -1);
    auto setv = [&](size_t pos, const V & x) { for (size_t j = 0; j < es; j++) ex[pos * es + j] = (T && T->k == 'l' && j >= 10) ? -2 : x.b[j]; };
    if (k == "bcast") { if (me != root || tm >= 0) for (size_t i = 0; i < n; i++) setv(i, val(root, i)); }
    else if (k == "collect" || k == "fcollect") { size_t p = 0; for (int i = 0; i < np; i++) for (size_t j = 0; j < cnt(i); j++) setv(p++, val(i, j)); }
    else if (k == "alltoall") for (int i = 0; i < np; i++) for (size_t j = 0; j < n; j++) setv((size_t) i * n + j, val(i, (size_t) me * n + j));
    else if (k == "alltoalls") for (int i = 0; i < np; i++) for (size_t j = 0; j < n; j++) setv(((size_t) i * n + j) * dst, val(i, ((size_t) me * n + j) * sst));
    else for (size_t i = 0; i < n; i++) { V acc = val(0, i); for (int r = 1; r < np; r++) { V x = val(r, i); red_apply(*T, (int) s.g("rop"), acc.b, x.b); } setv(i, acc); }
    auto cls = red ? "reduce" : "collective"; probe(P_CHECKS); probe(P_COLL);
    for (size_t i = 0; i < ex.size(); i++) {
        BS & b = o->sh[pe][doff + i]; if (b.npend != 1 || b.conflict || b.unman) continue;
        uint8_t got = *(uint8_t *) hostp(o, pe, doff + i);
        if (ex[i] >= 0 && got != ex[i]) violation(cls, "pe%d (number %d of %d): destination byte %zu (element %zu) is %02x instead of %02x (%s)", pe, me, np, i, i / es, got, ex[i], steptext(idx).c_str());
        if (ex[i] == -1 && kn[i] && got != before[i]) violation(cls, "pe%d (number %d of %d): destination byte %zu (element %zu), which the operation does not define, changed from %02x to %02x (%s)", pe, me, np, i, i / es, before[i], got, steptext(idx).c_str());
    }
    complete(w, "return");
    SH->probes[P_BYTES] += ex.size();
}

// ---------------------------------------------------------------------------------------- locks
struct Crit { int holder = -1, hth = -1; bool init = false; V rec; Bytes recb; uint32_t left = 0; Obj *lo = nullptr; bool spun = false; };
static std::map<int, Crit> crits; static std::map<std::pair<int, size_t>, int> lockholder;     // (obj,off)->pe + 1
static std::vector<std::pair<Obj *, size_t>> objlocks;
static void take_lock(long *lk, std::pair<int, size_t> key, bool test, int idx)
{
    int pe = cur->pe; bool got = false;
    if (test) {
        Call cc("shmem_test_lock", false); int rc = ((int (*)(long *)) pe_sym(pe, "shmem_test_lock"))(lk); got = rc == 0;
        if (rc != 0 && rc != 1) violation("lock", "shmem_test_lock returned %d", rc);
    }
    if (got) done_ops++; else callf<void, long *>("shmem_set_lock", lk);
    int & h = lockholder[key]; if (h) violation("lock", "pe%d acquired lock %zu while pe%d holds it (%s)", pe, key.second / 8, h - 1, steptext(idx).c_str());
    h = pe + 1; probe(P_CHECKS);
}
static void release_lock(long *lk, std::pair<int, size_t> key)
{
    int pe = cur->pe, & h = lockholder[key]; if (h != pe + 1) violation("lock", "pe%d lost lock %zu to pe%d", pe, key.second / 8, h - 1);
    h = 0; callf<void, long *>("shmem_clear_lock", lk);
}
static void do_crit(const Step & s, int idx)
{
    int pe = cur->pe; uint32_t mask = (uint32_t) s.g("mask") & allmask(); if (!(mask >> pe & 1)) return;
    Obj *o = obj(s.g("obj")); int tgt = (int) s.g("tgt"); size_t off = (size_t) s.g("off"), len = (size_t) s.g("len", 8); long kind = s.g("kind");
    if (!o || tgt >= NPES || !usable(o, pe, tgt) || !in_range(o, off, len) || off % 8 || len % 8 || !len) return;
    if (kind == 2) len = 8;
    int lock = (int) s.g("lock") & 7, lock2 = (int) s.g("lock2") & 7; Crit & c = crits[idx]; size_t loff = (size_t) s.g("loff");
    gate(mask, idx, 0);
    if (!c.init) { c.init = true; unmanage(o, tgt, off, len); c.recb.resize(len); for (size_t i = 0; i < len; i++) c.recb[i] = *(uint8_t *) hostp(o, tgt, off + i);
        if (s.a.count("lobj")) {       // the lock variable is in allocated memory
            Obj *lo = obj(s.g("lobj")); bool ok = lo && loff % 8 == 0 && in_range(lo, loff, 8); for (int q = 0; ok && q < NPES; q++) ok = usable(lo, pe, q);
            if (ok) { c.lo = lo; objlocks.push_back({ lo, loff }); for (int q = 0; q < NPES; q++) { unmanage(lo, q, loff, 8); memset(hostp(lo, q, loff), 0, 8); for (size_t i = 0; i < 8; i++) lo->sh[q][loff + i].nodig = 1; } }
        }
    }
    gate(mask, idx, 1);
    std::pair<int, size_t> key(c.lo ? c.lo->id : -1, c.lo ? loff : (size_t) lock * 8), key2(-1, (size_t) lock2 * 8); long *lk2 = (long *) sbase(pe, OFF_LOCK + 8 * lock2);
    for (long it = 0; it < s.g("iters", 1); it++) {
        bool got = false; Rng r; r.seed(mix((uint64_t) s.g("v"), (uint64_t) pe, (uint64_t) it)); long *lk = c.lo ? (long *) (c.lo->base[pe] + loff) : (long *) sbase(pe, OFF_LOCK + 8 * lock);
        int how = (int) s.g("how"); if (how == 2) how = (int) r.below(2);
        if (how == 1) for (int tr = 0; tr < (int) s.g("tries", 3) && !got; tr++) {
            Call cc("shmem_test_lock", false); int rc = ((int (*)(long *)) pe_sym(pe, "shmem_test_lock"))(lk); got = rc == 0;
            if (rc != 0 && rc != 1) violation("lock", "shmem_test_lock returned %d", rc);
        }
        if (got) done_ops++;
        if (!got && how == 1 && s.g("giveup")) { done_ops++; continue; }
        if (!got) callf<void, long *>("shmem_set_lock", lk);
        int & own = lockholder[key]; if (own) violation("lock", "pe%d acquired lock %d while pe%d holds it (%s)", pe, lock, own - 1, steptext(idx).c_str());
        own = pe + 1; probe(P_CHECKS);
        if (s.g("spin") && !c.spun) { c.spun = true; for (int q = 0; q < NPES; q++) if (q != pe && mask >> q & 1) { dawdle(s.g("spin"), q, true, steptext(idx)); break; } }
        bool two = lock2 && r.below(2); if (two) take_lock(lk2, key2, r.below(3) == 0, idx);
        bool early = two && r.below(3) == 0;      // locks need not be released in the reverse order
        // the record must be what the last holder left
        Bytes b(len, 0xC3); char *buf = (char *) user_malloc(len); memset(buf, 0xC3, len);
        if (kind == 2) { uint64_t x = callf<uint64_t, const void *, int>("shmem_uint64_atomic_fetch", o->base[pe] + off, tgt); memcpy(b.data(), &x, 8); }
        else { callf<void, void *, const void *, size_t, int>("shmem_getmem", buf, o->base[pe] + off, len, tgt); memcpy(b.data(), buf, len); }
        if (b != c.recb) { size_t i = 0; while (b[i] == c.recb[i]) i++; violation("lock-visibility", "pe%d holds lock %d but reads %02x at byte %zu of the protected record, the last holder wrote %02x (%s)", pe, lock, b[i], i, c.recb[i], steptext(idx).c_str()); }
        int nup = 1 + (int) r.below(2);
        for (int u = 0; u < nup; u++) {
            if (kind == 2) { uint64_t x; memcpy(&x, c.recb.data(), 8); uint64_t a = 1 + r.below(1000); x += a; memcpy(c.recb.data(), &x, 8); callf<void, void *, uint64_t, int>("shmem_uint64_atomic_add", o->base[pe] + off, a, tgt); }
            else {
                if (u) { callf<void>("shmem_quiet"); }
                for (size_t i = 0; i < len; i++) c.recb[i] = (uint8_t) r.next();
                memcpy(buf, c.recb.data(), len);
                if (kind == 1) { for (size_t i = 0; i < len; i += 8) { long x; memcpy(&x, buf + i, 8); callf<void, long *, long, int>("shmem_long_p", (long *) (o->base[pe] + off + i), x, tgt); } }
                else if (kind == 3) callf<void, void *, const void *, ptrdiff_t, ptrdiff_t, size_t, int>("shmem_iput64", o->base[pe] + off, buf, (ptrdiff_t) 1, (ptrdiff_t) 1, len / 8, tgt);
                else if (kind == 4) callf<void, void *, const void *, size_t, int>("shmem_putmem_nbi", o->base[pe] + off, buf, len, tgt);
                else callf<void, void *, const void *, size_t, int>("shmem_putmem", o->base[pe] + off, buf, len, tgt);
                if (kind != 4) memset(buf, 0xEE, len);
            }
        }
        if (s.g("dquiet")) callf<void>("shmem_quiet");
        if (two && !early) release_lock(lk2, key2);
        release_lock(lk, key);
        if (early) release_lock(lk2, key2);
        if (kind != 4) user_free(buf);        // the source of a nonblocking write is kept
    }
    gate(mask, idx, 2);
    if (!c.left) {
        for (size_t i = 0; i < len; i++) if (*(uint8_t *) hostp(o, tgt, off + i) != c.recb[i]) violation("lock-visibility", "the protected record at pe%d lacks an update although every lock was released (%s)", tgt, steptext(idx).c_str());
        adopt(o, tgt, off, len); if (c.lo) for (int q = 0; q < NPES; q++) adopt(c.lo, q, loff, 8);
    }
    c.left |= 1u << pe;
}

// ---------------------------------------------------------------------------------------- point-to-point
static V vmax(const TI & t, bool hi) { V v; if (t.k == 'f') { float x = hi ? 3e38f : -3e38f; memcpy(v.b, &x, 4); } else if (t.k == 'd') { double x = hi ? 1e300 : -1e300; memcpy(v.b, &x, 8); } else if (t.k == 'u') memset(v.b, hi ? 0xFF : 0, (size_t) t.size); else { memset(v.b, hi ? 0xFF : 0, (size_t) t.size); v.b[t.size - 1] = hi ? 0x7F : 0x80; } return v; }
static void do_sig(const Step & s, int idx)
{
    int pe = cur->pe, p = (int) s.g("p"), c = (int) s.g("c"); if (p >= NPES || c >= NPES || (pe != p && pe != c)) return;
    Obj *o = obj(s.g("obj")); size_t off = (size_t) s.g("off"); const TI & t = *find_type(s.str("ty", "long")); size_t ts = (size_t) t.size, pre = (size_t) s.g("pre"), poff = off + 16;
    if (!o || !usable(o, p, c) || !usable(o, c, p) || !in_range(o, off, 16 + pre) || off % 16) return;
    uint32_t mask = 1u << p | 1u << c; int cmp = (int) s.g("cmp"); Rng r; r.seed((uint64_t) s.g("v"));
    long how = s.g("how"), cons = s.g("cons");
    if (cons == 2) cmp = 1;
    // choose comparison operand, initial (not satisfying) and final (satisfying) values
    V x, v0, v1, vm; int edge = (int) r.below(4);
    x = make_val(t, r.next(), edge == 0 ? 0 : edge == 1 ? 2 : 1000);
    if (edge == 2 && r.below(2)) x = vmax(t, r.below(2));
    bool found = false;
    for (int tr = 0; tr < 400 && !found; tr++) {
        auto pickv = [&]() { switch (r.below(5)) { case 0: return x; case 1: return vmax(t, r.below(2)); case 2: return make_val(t, r.next(), 3); default: return make_val(t, r.next(), 0); } };
        v0 = pickv(); v1 = pickv(); vm = pickv();
        if (!cmp_true(t, cmp, v0, x) && cmp_true(t, cmp, v1, x) && !cmp_true(t, cmp, vm, x)) found = true;
        if (!found && tr == 200) x = make_val(t, r.next(), 100);
    }
    if (!found) return;
    bool amo = t.size >= 4; if (t.k == 'f' || t.k == 'd') amo = false;
    if (!amo && (how >= 2 && how <= 5)) how = 0;
    if (!amo && how == 8) how = 0;
    gate(mask, idx, 0);
    if (pe == c) { unmanage(o, c, off, 16); host_store(o, c, off, v0.b, ts); if (pre) { unmanage(o, c, poff, pre); Bytes z(pre, 0x11); host_store(o, c, poff, z.data(), pre); } }
    gate(mask, idx, 1);
    Bytes pb(pre); for (size_t i = 0; i < pre; i++) pb[i] = (uint8_t) (0x80 | r.next());
    char *at = o->base[pe] + off;
    if (pe == p) {
        if (s.g("spin")) dawdle(s.g("spin"), c, s.g("lk"), steptext(idx));
        if (pre) {
            long ph = s.g("ph"); char *b = (char *) user_malloc(pre); memcpy(b, pb.data(), pre);
            if (ph == 1 && pre % 8 == 0) for (size_t i = 0; i < pre; i += 8) { long y; memcpy(&y, b + i, 8); callf<void, long *, long, int>("shmem_long_p", (long *) (o->base[pe] + poff + i), y, c); }
            else if (ph == 2 && pre % 8 == 0) for (size_t i = 0; i < pre; i += 8) { long y; memcpy(&y, b + i, 8); callf<void, long *, long, int>("shmem_long_atomic_set", (long *) (o->base[pe] + poff + i), y, c); }
            else if (ph == 3 && pre % 16 == 0) { callf<void, void *, const void *, ptrdiff_t, ptrdiff_t, size_t, int>("shmem_iput64", o->base[pe] + poff, b, (ptrdiff_t) 2, (ptrdiff_t) 2, pre / 16, c); callf<void, void *, const void *, ptrdiff_t, ptrdiff_t, size_t, int>("shmem_iput64", o->base[pe] + poff + 8, b + 8, (ptrdiff_t) 2, (ptrdiff_t) 2, pre / 16, c); }
            else callf<void, void *, const void *, size_t, int>(ph == 4 ? "shmem_putmem_nbi" : "shmem_putmem", o->base[pe] + poff, b, pre, c);
            if (ph != 4) { memset(b, 0x22, pre); user_free(b); }
            if (s.g("q")) callf<void>("shmem_quiet"); else callf<void>("shmem_fence");
        }
        std::string T = t.name; V cond = v0;
        auto put1 = [&](const V & v) { char *b = (char *) user_malloc(ts); memcpy(b, v.b, ts); callf<void, void *, const void *, size_t, int>("shmem_" + T + "_put", at, b, (size_t) 1, c); memset(b, 0x22, ts); user_free(b); };
        switch (how) {
            case 1: { Call cc("shmem_" + T + "_p"); call_p(pe_sym(pe, "shmem_" + T + "_p"), false, nullptr, t, at, v1, c); break; }
            case 2: do_amo_at(A_SET, t, o, off, c, 0, false, nullptr, false, s.g("dep"), v1, cond, idx, false); break;
            case 3: { V d; uint64_t a = 0, b = 0; memcpy(&a, v1.b, ts); memcpy(&b, v0.b, ts); a -= b; memcpy(d.b, &a, ts); do_amo_at(s.g("fet") ? A_FADD : A_ADD, t, o, off, c, 0, false, nullptr, false, s.g("dep"), d, cond, idx, false); break; }
            case 4: { V q = do_amo_at(A_SWAP, t, o, off, c, 0, false, nullptr, false, s.g("dep"), v1, cond, idx, false); if (memcmp(q.b, v0.b, ts)) violation("atomic", "pe%d: swap returned %s, the variable held %s (%s)", pe, vstr(t, q).c_str(), vstr(t, v0).c_str(), steptext(idx).c_str()); break; }
            case 5: { V q = do_amo_at(A_CSWAP, t, o, off, c, 0, false, nullptr, false, s.g("dep"), v1, cond, idx, false); if (memcmp(q.b, v0.b, ts)) violation("atomic", "pe%d: compare-and-swap returned %s, the variable held %s (%s)", pe, vstr(t, q).c_str(), vstr(t, v0).c_str(), steptext(idx).c_str()); break; }
            case 6: { char *b = (char *) user_malloc(ts); memcpy(b, v1.b, ts); callf<void, void *, const void *, size_t, int>("shmem_" + T + "_put_nbi", at, b, (size_t) 1, c); if (s.g("q2")) callf<void>("shmem_quiet"); break; }
            case 7: { char *b = (char *) user_malloc(ts); memcpy(b, v1.b, ts); callf<void, void *, const void *, ptrdiff_t, ptrdiff_t, size_t, int>("shmem_" + T + "_iput", at, b, (ptrdiff_t) 1, (ptrdiff_t) 1, (size_t) 1, c); user_free(b); break; }
            case 8: do_amo_at(A_SET, t, o, off, c, 0, false, nullptr, false, false, vm, cond, idx, false); callf<void>("shmem_fence"); do_amo_at(A_SET, t, o, off, c, 0, false, nullptr, false, false, v1, cond, idx, false); break;
            default: put1(v1);
        }
    }
    if (pe == c) {
        Watch w; w.pe = pe; w.at = at; w.t = t; std::string T = t.name; bool sat = false;
        auto ok = [&](bool want) { for (auto & v : w.seen) if (cmp_true(t, cmp, v, x) == want) return true; return false; };
        auto seenstr = [&] { std::string r; for (auto & v : w.seen) r += " " + vstr(t, v); return r; };
        auto start = [&] { V v; memcpy(v.b, P(pe, at), ts); w.seen = { v }; watches.push_back(&w); };
        auto stop = [&] { V v; memcpy(v.b, P(pe, at), ts); if (memcmp(v.b, w.seen.back().b, ts)) w.seen.push_back(v); watches.erase(std::find(watches.begin(), watches.end(), &w)); probe(P_CHECKS); };
        static const char *cn[] = { "==", "!=", ">", ">=", "<", "<=" };
        if (cons == 1) {
            std::string fn = "shmem_" + T + "_test"; void *f = pe_sym(pe, fn);
            while (!sat) {
                start(); int rc; { Call cc(fn, false); rc = call_test(f, t, at, cmp, x); } stop();
                if (rc != 0 && rc != 1) violation("wait", "pe%d: %s returned %d", pe, fn.c_str(), rc);
                if (!ok(rc != 0)) violation("wait", "pe%d: %s(%s %s) returned %d, but the variable held%s (%s)", pe, fn.c_str(), cn[cmp], vstr(t, x).c_str(), rc, seenstr().c_str(), steptext(idx).c_str());
                sat = rc; if (!sat) idle_yield();
            }
            done_ops++;
        } else {
            bool dep = cons == 2 && (T == "short" || T == "int" || T == "long" || T == "longlong"); std::string fn = dep ? "shmem_" + T + "_wait" : "shmem_" + T + "_wait_until";
            void *f = pe_sym(pe, fn); start(); { Call cc(fn); if (dep) call_wait_dep(f, t, at, x); else call_wait(f, t, at, cmp, x); } stop();
            if (!ok(true)) violation("wait", "pe%d: %s(%s %s) returned, but the variable held only%s (%s)", pe, fn.c_str(), cn[cmp], vstr(t, x).c_str(), seenstr().c_str(), steptext(idx).c_str());
        }
        for (size_t i = 0; i < pre; i++) { uint8_t g = *(uint8_t *) P(pe, o->base[pe] + poff + i); if (g != pb[i]) violation("fence", "pe%d saw the signal but byte %zu of the data written before the fence is %02x instead of %02x (%s)", pe, i, g, pb[i], steptext(idx).c_str()); }
    }
    if (pe == p) callf<void>("shmem_quiet");
    gate(mask, idx, 2);
    static std::map<int, int> cl; if (!cl[idx]++) { V v; memcpy(v.b, hostp(o, c, off), ts); if (memcmp(v.b, v1.b, ts)) violation("delivery", "the signal variable holds %s after quiet, %s was written (%s)", vstr(t, v).c_str(), vstr(t, v1).c_str(), steptext(idx).c_str()); adopt(o, c, off, 16); if (pre) adopt(o, c, poff, pre); }
}

// a long run of fetching increments by one PE on a variable only it updates
static void do_burst(const Step & s, int idx)
{
    int pe = cur->pe, tgt = (int) s.g("tgt"), who = (int) s.g("pe"); if (who >= NPES || tgt >= NPES || (pe != who && pe != tgt)) return;
    Obj *o = obj(s.g("obj")); size_t off = (size_t) s.g("off"); if (!o || !usable(o, who, tgt) || !in_range(o, off, 8) || off % 8) return;
    uint32_t mask = 1u << who | 1u << tgt; gate(mask, idx, 0);
    if (pe == tgt) { unmanage(o, tgt, off, 8); uint64_t z = (uint64_t) s.g("v"); host_store(o, tgt, off, &z, 8); }
    gate(mask, idx, 1);
    if (pe == who) {
        long n = s.g("n"); uint64_t base = (uint64_t) s.g("v"); char *at = o->base[pe] + off;
        void *fi = pe_sym(pe, "shmem_uint64_atomic_fetch_inc"), *in = pe_sym(pe, "shmem_uint64_atomic_inc");
        void *nb = pe_sym(pe, "shmem_uint64_atomic_fetch_inc_nbi"), *pp = pe_sym(pe, "shmem_uint64_p"), *gg = pe_sym(pe, "shmem_uint64_g"), *qq = pe_sym(pe, "shmem_quiet");
        long kind = s.g("kind"); uint64_t *fb = (uint64_t *) user_malloc(16 * 8);
        Call c(kind == 1 ? "shmem_uint64_p/g" : "shmem_uint64_atomic_fetch_inc");
        for (long i = 0; i < n; i++) {
            if (kind == 1) {        // write and read back
                ((void (*)(void *, uint64_t, int)) pp)(at, base + (uint64_t) i + 1, tgt); ((void (*)()) qq)();
                uint64_t r = ((uint64_t (*)(const void *, int)) gg)(at, tgt); if (r != base + (uint64_t) i + 1) violation("read", "pe%d: read number %ld of a run returned %llu, %llu was written (%s)", pe, i, (unsigned long long) r, (unsigned long long) (base + (uint64_t) i + 1), steptext(idx).c_str());
            } else if (kind == 2) { // many replies outstanding
                long m = std::min(16L, n - i); memset(fb, 0xC3, 16 * 8);
                for (long j = 0; j < m; j++) ((void (*)(uint64_t *, void *, int)) nb)(fb + j, at, tgt);
                ((void (*)()) qq)(); std::sort(fb, fb + m);
                for (long j = 0; j < m; j++) if (fb[j] != base + (uint64_t) (i + j)) violation("atomic", "pe%d: %ld nonblocking fetch-increments from number %ld on fetched %llu where %llu is missing (%s)", pe, m, i, (unsigned long long) fb[j], (unsigned long long) (base + (uint64_t) (i + j)), steptext(idx).c_str());
                i += m - 1;
            } else if (s.g("post") && i % 3 == 2) { ((void (*)(void *, int)) in)(at, tgt); }
            else { uint64_t r = ((uint64_t (*)(void *, int)) fi)(at, tgt); if (s.g("post") ? r < base + (uint64_t) (i - i / 3) || r > base + (uint64_t) i : r != base + (uint64_t) i) violation("atomic", "pe%d: fetch-increment number %ld of a run returned %llu instead of %llu (%s)", pe, i, (unsigned long long) r, (unsigned long long) (base + (uint64_t) i), steptext(idx).c_str()); }
            if (i % 16 == 0 || kind) { done_ops++; note_progress(); }
        }
        user_free(fb); probe(P_CHECKS);
    }
    if (pe == who) callf<void>("shmem_quiet");
    gate(mask, idx, 2);
    if (pe == tgt) { uint64_t z; memcpy(&z, hostp(o, tgt, off), 8); if (z != (uint64_t) s.g("v") + (uint64_t) s.g("n")) violation("atomic", "after %ld increments of %llu the variable holds %llu (%s)", s.g("n"), (unsigned long long) s.g("v"), (unsigned long long) z, steptext(idx).c_str()); adopt(o, tgt, off, 8); }
    gate(mask, idx, 3);
}
// exactly n operations that only the final quiet completes: no number of them may be forgotten
static void do_pile(const Step & s, int idx)
{
    int pe = cur->pe, tgt = (int) s.g("tgt"), who = (int) s.g("pe"); if (who >= NPES || tgt >= NPES || (pe != who && pe != tgt)) return;
    long n = s.g("n"), how = s.g("how"); size_t len = how ? (size_t) (n + 7) & ~7ul : 8; bool fin = s.g("fin"); size_t len0 = len; if (fin) len += 8;
    Obj *o = obj(s.g("obj")); size_t off = (size_t) s.g("off"); if (!o || !usable(o, who, tgt) || !in_range(o, off, len) || off % 8) return;
    const char *say = fin ? "flag written after shmem_fence arrived" : "quiet returned"; bool late = s.g("late2"); uint32_t mask = 1u << who | 1u << tgt; uint64_t v = (uint64_t) s.g("v"); gate(mask, idx, 0);
    if (pe == tgt) { unmanage(o, tgt, off, len); if (how) memset(hostp(o, tgt, off), (int) ~v, len0); if (fin) memset(hostp(o, tgt, off + len0), 0, 8); if (!how) host_store(o, tgt, off, &v, 8); }
    gate(mask, idx, 1);
    if (pe == who) {
        char *at = o->base[pe] + off; uint8_t *src = (uint8_t *) user_malloc((size_t) n + 8); for (long i = 0; i < n; i++) src[i] = (uint8_t) (v + (uint64_t) i);
        const char *fn = how == 0 ? "shmem_uint64_atomic_inc" : how == 1 ? "shmem_uint8_p" : how == 2 ? "shmem_putmem_nbi" : "shmem_uint8_put"; void *f = pe_sym(pe, fn);
        callf<void>("shmem_quiet"); backlog = n;    // working off a long backlog is progress
        { Call c(fn);
        for (long i = 0; i < n; i++) {
            if (how == 0) ((void (*)(void *, int)) f)(at, tgt); else if (how == 1) ((void (*)(void *, uint8_t, int)) f)(at + i, src[i], tgt); else ((void (*)(void *, const void *, size_t, int)) f)(at + i, src + i, 1, tgt);
            if (i % 16 == 0) { done_ops++; note_progress(); }
        } }
        if (fin) { callf<void>("shmem_fence"); callf<void, long *, long, int>("shmem_long_p", (long *) (at + len0), 1L, tgt); if (!late) callf<void>("shmem_quiet"); }
        else callf<void>("shmem_quiet");
        user_free(src); probe(P_CHECKS);
    }
    if (fin && pe == tgt) callf<void, long *, int, long>("shmem_long_wait_until", (long *) (o->base[pe] + off + len0), 0x100001, 1L);   // SHMEM_CMP_EQ
    gate(mask, idx, 2);
    if (pe == tgt) {
        if (!how) { uint64_t z; memcpy(&z, hostp(o, tgt, off), 8); if (z != v + (uint64_t) n) violation("delivery", "pe%d's shmem_%s, but after %ld increments of %llu the variable at pe%d holds %llu (%s)", who, say, n, (unsigned long long) v, tgt, (unsigned long long) z, steptext(idx).c_str()); }
        else for (long i = 0; i < n; i++) { uint8_t w = *(uint8_t *) hostp(o, tgt, off + (size_t) i); if (w != (uint8_t) (v + (uint64_t) i)) violation("delivery", "pe%d's shmem_%s, but byte %ld of %ld written at pe%d is %02x instead of %02x (%s)", who, say, i, n, tgt, w, (uint8_t) (v + (uint64_t) i), steptext(idx).c_str()); }
        adopt(o, tgt, off, len);
    }
    gate(mask, idx, 3);
}
// one PE writes to every PE, in an order of its own, and completes all that with one call: none of the targets may be forgotten
static void do_scat(const Step & s, int idx)
{
    int pe = cur->pe, who = (int) s.g("pe"); if (who >= NPES) return;
    long n = s.g("n"), fin = s.g("fin"); uint64_t v = (uint64_t) s.g("v"); Obj *o = obj(s.g("obj")); size_t off = (size_t) s.g("off"); bool ok = o && off % 8 == 0 && in_range(o, off, 16); for (int q = 0; ok && q < NPES; q++) ok = usable(o, who, q); if (!ok) return;
    gate(allmask(), idx, 0); unmanage(o, pe, off, 16); memset(hostp(o, pe, off), 0, 16); gate(allmask(), idx, 1);
    auto hit = [&](int q) { uint64_t z = mix(v, (uint64_t) q, 0); return (long) (z % 8 < 7); };      // one in eight is left out
    auto val = [&](int q) { return (uint64_t) mix(v, (uint64_t) q, 1); };
    const char *how = s.g("amo") == 1 ? "amo" : s.g("amo") == 2 ? "put" : "mixed";
    if (pe == who) {
        std::vector<int> ord; for (int q = 0; q < NPES; q++) if (hit(q)) ord.push_back(q);
        uint64_t x = v | 1; for (size_t i = ord.size(); i > 1; i--) { x = x * 6364136223846793005ull + 1442695040888963407ull; std::swap(ord[i - 1], ord[(x >> 33) % i]); }
        char *at = o->base[pe] + off; uint64_t *src = (uint64_t *) user_malloc(8 * MAXPE);
        for (long k = 1; k <= n; k++) for (int q : ord) {
            if (s.g("amo") != 2) callf<void, void *, uint64_t, int>("shmem_uint64_atomic_add", at, val(q), q);
            if (s.g("amo") != 1) { src[q] = val(q) + (uint64_t) n; if (k == n) { if (mix(v, (uint64_t) q, 2) & 1) callf<void, void *, const void *, size_t, int>("shmem_uint64_put_nbi", at + 8, src + q, (size_t) 1, q); else callf<void, void *, uint64_t, int>("shmem_uint64_p", at + 8, src[q], q); } }
        }
        if (!fin) callf<void>("shmem_quiet");
        else callf<void>("shmem_barrier_all");
        user_free(src);
    } else if (fin) callf<void>("shmem_barrier_all");
    if (!fin) gate(allmask(), idx, 2);
    uint64_t z[2]; memcpy(z, hostp(o, pe, off), 16); uint64_t w[2] = { s.g("amo") != 2 && hit(pe) ? val(pe) * (uint64_t) n : 0, s.g("amo") != 1 && hit(pe) ? val(pe) + (uint64_t) n : 0 }; probe(P_CHECKS);
    for (int k = 0; k < 2; k++) if (z[k] != w[k]) violation(fin ? "barrier" : "delivery", "pe%d completed its operations (%s) to all PEs with %s, but at pe%d %s is %llx instead of %llx (%s)", who, how, fin ? "shmem_barrier_all" : "shmem_quiet", pe, k ? "the value written" : "the sum", (unsigned long long) z[k], (unsigned long long) w[k], steptext(idx).c_str());
    gate(allmask(), idx, 3); adopt(o, pe, off, 16);
    gate(allmask(), idx, 4);
}
// every PE repeats one collective cycle many times: nothing the library needs may run out
static void do_loop(const Step & s, int idx)
{
    int pe = cur->pe; long n = s.g("n"), kind = s.g("kind"); uint64_t x = (uint64_t) s.g("v") | 1;
    auto rnd = [&](uint32_t m) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (long) ((x >> 33) % m); };
    gate(allmask(), idx, 0);
    long before[6], after_[6]; mpi_live(pe, before); before[5] = mem_live(pe);
    if (kind == 0) {
        std::vector<int> all; for (int i = 0; i < NPES; i++) all.push_back(i);
        for (long i = 0; i < n; i++) {
            long start = rnd((uint32_t) NPES), stride = 1 + rnd(2), size = 1 + rnd((uint32_t) ((NPES - 1 - start) / stride + 1)), ty = rnd(4); void *h[2] = { nullptr, nullptr }; int k = 1;
            if (ty) callf<int, void *, int, int, int, const void *, long, void **>("shmem_team_split_strided", (void *) 0x90000, (int) start, (int) stride, (int) size, nullptr, 0L, &h[0]);
            else { callf<int, void *, int, const void *, long, void **, const void *, long, void **>("shmem_team_split_2d", (void *) 0x90000, (int) (1 + start), nullptr, 0L, &h[0], nullptr, 0L, &h[1]); k = 2; }
            bool in = !ty || (pe >= start && (pe - start) % stride == 0 && (pe - start) / stride < size);
            for (int j = 0; j < k; j++) {
                if (in != (h[j] != nullptr)) violation("team", "pe%d: cycle %ld of creating and destroying a team returned %s handle (%s)", pe, i, h[j] ? "a valid" : "the invalid", steptext(idx).c_str());
                if (!in) continue;
                int np = callf<int, void *>("shmem_team_n_pes", h[j]), me = callf<int, void *>("shmem_team_my_pe", h[j]);
                if (ty && (np != size || me != (pe - start) / stride)) violation("team", "pe%d is number %d of %d in a team of start %ld, stride %ld, size %ld (cycle %ld, %s)", pe, me, np, start, stride, size, i, steptext(idx).c_str());
                if (ty == 2) callf<void, void *>("shmem_team_sync", h[j]);
            }
            for (int j = 0; j < k; j++) if (h[j]) callf<void, void *>("shmem_team_destroy", h[j]);
            note_progress();
        }
    } else if (kind == 1) {
        size_t sz = (size_t) s.g("size"); bool can = true;
        for (long i = 0; i < n; i++) {
            char *q = (char *) (rnd(4) ? callf<void *, size_t>("shmem_malloc", sz) : callf<void *, size_t, size_t>("shmem_calloc", (size_t) 1, sz));
            if (!i) can = q != nullptr;
            if ((q != nullptr) != can) violation("heap", "pe%d: an allocation of %zu bytes %s the first time but %s after %ld cycles of allocating and freeing (%s)", pe, sz, can ? "succeeded" : "failed", can ? "fails" : "succeeds", i, steptext(idx).c_str());
            if (q) { memset(q, (int) i, sz); callf<void, void *>("shmem_free", q); }
            note_progress();
        }
    } else if (kind == 2) {
        struct Kept { void *h; long *q, v; }; std::vector<Kept> kept; long keep = s.g("keep"); int t = (pe + 1) % NPES, f = (pe + NPES - 1) % NPES;
        auto drop = [&](size_t j) { Kept k = kept[j]; if (k.q) { callf<void, void *>("shmem_free", k.q); callf<void, void *>("shmemx_space_detach", k.h); } callf<void, void *>("shmemx_space_destroy", k.h); kept.erase(kept.begin() + (long) j); };
        auto verify = [&](long i) { for (auto & k : kept) if (k.q) { probe(P_CHECKS); long got = k.v & 1 ? callf<long, const long *, int>("shmem_long_atomic_fetch", k.q, t) : callf<long, const long *, int>("shmem_long_g", k.q, t); if (got != k.v - pe * 1000 + ((t + NPES - 1) % NPES) * 1000) violation("delivery", "pe%d: a variable in one of %zu spaces at pe%d reads %ld instead of %ld (cycle %ld, %s)", pe, kept.size(), t, got, k.v - pe * 1000 + ((t + NPES - 1) % NPES) * 1000, i, steptext(idx).c_str()); } };
        for (long i = 0; i < n; i++) {
            SpaceCfg c; memset(&c, 0, sizeof c); c.sheap_size = 4096 + (size_t) rnd(3) * 4096; c.num_contexts = keep > 8 ? 0 : (int) rnd(3); void *h = nullptr; long *q = nullptr, v = i * 100000 + pe * 1000;
            callf<void, SpaceCfg, void **>("shmemx_space_create", c, &h); if (!h) violation("space", "pe%d: no space in cycle %ld of creating and destroying one (%s)", pe, i, steptext(idx).c_str());
            if (rnd(2)) { callf<void, void *>("shmemx_space_attach", h);
                size_t sz = 256 + (size_t) rnd(3000); q = (long *) callf<void *, void *, size_t>("shmemx_space_malloc", h, sz); if (!q) violation("space", "pe%d: %zu bytes do not fit into an empty space of %zu bytes (cycle %ld, %s)", pe, sz, c.sheap_size, i, steptext(idx).c_str());
                *q = -1; callf<void>("shmem_barrier_all"); if (i & 1) callf<void, long *, long, int>("shmem_long_atomic_set", q, v, t); else callf<void, long *, long, int>("shmem_long_p", q, v, t);
                callf<void>("shmem_barrier_all"); probe(P_CHECKS);
                if (*q != i * 100000 + f * 1000) violation("delivery", "pe%d: a value written into a space by pe%d did not arrive (cycle %ld, %s)", pe, f, i, steptext(idx).c_str()); }
            kept.push_back({ h, q, v });
            if ((long) kept.size() > keep) { if (keep && rnd(4) == 0) { verify(i); callf<void>("shmem_barrier_all"); } drop(kept.size() > 1 && rnd(2) ? (size_t) rnd((uint32_t) kept.size()) : 0); }
            note_progress();
        }
        if (!kept.empty()) { verify(n); callf<void>("shmem_barrier_all"); while (!kept.empty()) drop((size_t) rnd((uint32_t) kept.size())); }
    } else if (kind >= 5) {     // everyone writes to the next PE, 5: and reads what the previous one wrote after each barrier; 6: all reads after flags that follow fences
        Obj *o = obj(s.g("obj")); size_t off = (size_t) s.g("off"), len = kind == 5 ? 16 : (size_t) n * 16; int t = (pe + 1) % NPES, f = (pe + NPES - 1) % NPES; long how = s.g("st");
        bool ok = o && off % 8 == 0 && in_range(o, off, len); for (int q = 0; ok && q < NPES; q++) ok = usable(o, pe, q); if (!ok) return;
        unmanage(o, pe, off, len); memset(hostp(o, pe, off), 0, len); gate(allmask(), idx, 1); long *at = (long *) (o->base[pe] + off), *src = (long *) user_malloc((size_t) n * 8);
        auto put = [&](long *a, long v, long i) { switch (how == 3 ? rnd(3) : how) { case 0: callf<void, long *, long, int>("shmem_long_p", a, v, t); break; case 1: callf<void, long *, long, int>("shmem_long_atomic_set", a, v, t); break; default: src[i] = v; callf<void, long *, const long *, size_t, int>("shmem_long_put_nbi", a, src + i, (size_t) 1, t); } };
        for (long i = 0; i < n; i++) {
            long v = pe * 1000000L + i + 1, w = f * 1000000L + i + 1;
            if (kind == 5) { put(at + i % 2, v, i); callf<void>("shmem_barrier_all"); probe(P_CHECKS); long got = *(volatile long *) (at + i % 2); if (got != w) violation("barrier", "pe%d: after barrier number %ld of a run a variable holds %ld, pe%d had written %ld (%s)", pe, i, got, f, w, steptext(idx).c_str()); }
            else { put(at + 2 * i, v, i); callf<void>("shmem_fence"); if (how == 1 || (how == 3 && rnd(2))) callf<void, long *, long, int>("shmem_long_atomic_set", at + 2 * i + 1, v, t); else callf<void, long *, long, int>("shmem_long_p", at + 2 * i + 1, v, t); }
            note_progress();
        }
        if (kind == 6) for (long i = 0; i < n; i++) {
            long w = f * 1000000L + i + 1; callf<void, long *, int, long>("shmem_long_wait_until", at + 2 * i + 1, 0x100001, w); probe(P_CHECKS); long got = *(volatile long *) (at + 2 * i);
            if (got != w) violation("fence", "pe%d: flag number %ld of a run arrived, but the value pe%d wrote before the fence is %ld instead of %ld (%s)", pe, i, f, got, w, steptext(idx).c_str());
        }
        callf<void>("shmem_quiet"); user_free(src); gate(allmask(), idx, 2); adopt(o, pe, off, len);
    } else {
        Obj *o = obj(s.g("obj")); size_t off = (size_t) s.g("off"); int t = (pe + 1) % NPES, f = (pe + NPES - 1) % NPES; long st = 2 + s.g("st") % 3, ne = 5; size_t es = kind == 3 ? 4 : 8;
        bool ok = o && off % 8 == 0; for (int q = 0; ok && q < NPES; q++) ok = usable(o, pe, q) && in_range(o, off, 160); if (!ok) return;
        unmanage(o, pe, off, 160); memset(hostp(o, pe, off), 0, 160); gate(allmask(), idx, 1);
        char *buf = (char *) user_malloc(160), *at = o->base[pe] + off;
        for (long i = 0; i < n; i++) {
            memset(buf, (int) (i + pe), 160);
            if (i % 3 < 2) callf<void, void *, const void *, ptrdiff_t, ptrdiff_t, size_t, int>(es == 4 ? "shmem_iput32" : "shmem_int64_iput", at, buf, (ptrdiff_t) (i % 3 ? 1 : st), (ptrdiff_t) (i % 3 ? st : 1), (size_t) ne, t);
            else { memset(buf, 0x55, 160); callf<void>("shmem_quiet"); callf<void, void *, const void *, ptrdiff_t, ptrdiff_t, size_t, int>(es == 4 ? "shmem_iget32" : "shmem_int64_iget", buf, at, (ptrdiff_t) 1, st, (size_t) ne, t); if (memchr(buf, 0x55, (size_t) ne * es) && (i - 1 + pe) % 256 != 0x55 && (i - 2 + pe) % 256 != 0x55) violation("read", "pe%d: a strided read in cycle %ld left its destination unchanged (%s)", pe, i, steptext(idx).c_str()); }
            callf<void>("shmem_fence"); note_progress();
        }
        callf<void>("shmem_quiet"); user_free(buf); gate(allmask(), idx, 2);
        long l0 = -1; for (long i = 0; i < n; i++) if (i % 3 == 0) l0 = i;      // the last write with a strided target
        if (l0 >= 0) for (long j = 1; j < ne; j++) { unsigned char v = *(unsigned char *) hostp(o, pe, off + (size_t) (j * st) * es); unsigned char w = (unsigned char) ((j * st < ne && n > l0 + 1 ? l0 + 1 : l0) + f); if (v != w) violation("delivery", "pe%d: element %ld of the strided writes by pe%d holds %d instead of %d (%s)", pe, j, f, v, w, steptext(idx).c_str()); }
        probe(P_CHECKS); gate(allmask(), idx, 3); adopt(o, pe, off, 160);
    }
    mpi_live(pe, after_); after_[5] = mem_live(pe);
    static const char *what[6] = { "communicators", "process groups", "datatypes", "info objects", "requests", "memory blocks" };
    if (kind <= 2) for (int k = 0; k < 6; k++) if (after_[k] > before[k] + n / 2 + 8) violation(kind == 0 ? "team" : kind == 1 ? "heap" : "space", "pe%d: %ld cycles of creating and destroying %s left %ld more %s in use than before (%s)", pe, n, kind == 0 ? "teams" : kind == 1 ? "allocations" : "spaces", after_[k] - before[k], what[k], steptext(idx).c_str());
    probe(P_CHECKS); gate(allmask(), idx, 4);
}
// one transfer with more bytes or elements, or with wider strides, than an int can count, in the unused front part of a block of gigabytes
static void do_xfer(const Step & s, int idx)
{
    int pe = cur->pe; gate(allmask(), idx, 0);
    Obj *o = obj(s.g("obj")); if (!o || NPES < 2) return; for (int q = 0; q < NPES; q++) if (!usable(o, q, q)) return;
    int who = (int) s.g("pe") % NPES, tgt = (int) s.g("tgt") % NPES; if (who == tgt) tgt = (who + 1) % NPES;
    long k = s.g("k"), n = s.g("n"), es = s.g("es"), H = (long) o->hole, so = s.g("so"), dof = s.g("do"), ss = s.g("ss", 1), ds = s.g("ds", 1);   // k: 0 put, 1 put_nbi, 2 get, 3 get_nbi, 4 iput, 5 iget
    long slen = ((n - 1) * ss + 1) * es, dlen = ((n - 1) * ds + 1) * es; if (n < 1 || so + slen + 64 > H || dof + dlen + 64 > H || so < 64 || dof < 64) return;
    bool put = k <= 1 || k == 4, str = k >= 4 && (ss > 1 || ds > 1); int X = put ? who : tgt, Y = put ? tgt : who;
    auto at = [&](int q, long off) { return P(q, o->base[q] - H + off); };
    static std::map<int, std::pair<std::map<long, uint8_t>, std::map<long, uint8_t>>> st; auto & S = st[idx].first; auto & D = st[idx].second;    // byte of the source / of the destination -> value
    if (pe == who) {
        Rng r; r.seed(mix((uint64_t) s.g("v"), (uint64_t) n)); auto val = [&] { return (uint8_t) (1 + r.below(255)); }; long B = n * es;
        std::vector<long> ps = { 0, B - 1, B - 8, B / 2 };
        if (str) { for (long i = 0; i < B; i++) ps.push_back(i); }
        else for (long u : { 1L, es }) for (long m = 1; m * (1L << 31) * u <= B + 64 && m < 8; m++) for (long d : { -u - 1, -u, -1L, 0L, 1L, u }) ps.push_back(m * (1L << 31) * u + d);
        for (int i = 0; i < 12; i++) ps.push_back((long) (r.next() % (uint64_t) B));
        auto spos = [&](long b) { return so + (str ? b / es * ss * es + b % es : b); }; auto dpos = [&](long b) { return dof + (str ? b / es * ds * es + b % es : b); };
        for (long b : ps) if (b >= 0 && b < B) { if (!S.count(spos(b))) S[spos(b)] = val(); }
        std::vector<long> qs; for (int i = 0; i < 12; i++) qs.push_back((long) (r.next() % (uint64_t) B)); for (size_t i = 0; i < ps.size(); i += 3) qs.push_back(ps[i]);
        std::map<long, uint8_t> fill; auto prefill = [&](long p) { if (p >= 0 && p < H) fill[p] = val(); };
        for (long b : qs) if (b >= 0 && b < B) { prefill(dpos(b)); D[dpos(b)] = S.count(spos(b)) ? S[spos(b)] : 0; }
        for (long b : ps) if (b >= 0 && b < B) D[dpos(b)] = S[spos(b)];
        std::vector<long> g = { dof - 1, dof - 2, dof + dlen, dof + dlen + 1, dof + dlen + 7 };
        if (str) for (long i = 0; i < n; i++) { g.push_back(dpos(i * es) - 1); g.push_back(dpos(i * es) + es); g.push_back(dof + (long) (int) (i * ds) * es); }
        for (long p : g) if (p >= 0 && p < H && !D.count(p)) { prefill(p); D[p] = fill[p]; }
        for (auto & kv : fill) *(uint8_t *) at(Y, kv.first) = kv.second;
        for (auto & kv : S) *(uint8_t *) at(X, kv.first) = kv.second;
        char *src = o->base[who] - H + so, *dst = o->base[who] - H + dof;    // both as addresses of the caller
        gate(allmask(), idx, 1);
        std::string ty = es == 1 ? (k >= 4 ? "schar" : "mem") : es == 2 ? "short" : es == 4 ? (s.g("v") & 1 ? "32" : "int") : es == 8 ? (s.g("v") & 1 ? "64" : "double") : "128";
        std::string f = put ? "put" : "get"; if (k >= 4) f = "i" + f; bool digit = ty[0] <= '9';
        std::string fn = ty == "mem" ? "shmem_" + f + "mem" : digit ? "shmem_" + f + ty : "shmem_" + ty + "_" + f; if (k == 1 || k == 3) fn += "_nbi"; probe(P_OPS);
        if (k >= 4) callf<void, void *, const void *, ptrdiff_t, ptrdiff_t, size_t, int>(fn, dst, src, (ptrdiff_t) ds, (ptrdiff_t) ss, (size_t) n, tgt);
        else callf<void, void *, const void *, size_t, int>(fn, dst, src, (size_t) n, tgt);
        if (k == 0 || k == 4) { for (auto & kv : S) *(uint8_t *) at(X, kv.first) = (uint8_t) ~kv.second; }        // the source of a blocking put is free for reuse
        if (k != 2 && k != 5) callf<void>("shmem_quiet");
        for (auto & kv : D) { uint8_t v = *(uint8_t *) at(Y, kv.first); if (v != kv.second) violation(put ? "delivery" : "read", "pe%d: %s of %ld elements of %ld bytes (strides %ld and %ld): byte %ld of the destination on pe%d is %d, should be %d (%s)", pe, fn.c_str(), n, es, ds, ss, kv.first - dof, Y, v, kv.second, steptext(idx).c_str()); }
        probe(P_CHECKS); note_progress();
        auto wipe = [&](int q, long off, long len) { huge_zero(at(q, off), (size_t) len); };
        wipe(X, so, slen); wipe(Y, dof - 64, dlen + 128); for (auto & kv : D) *(uint8_t *) at(Y, kv.first) = 0;
    } else gate(allmask(), idx, 1);
    gate(allmask(), idx, 2);
}
// a collective operation on all PEs over more elements than an int can count
static void do_xcoll(const Step & s, int idx)
{
    int pe = cur->pe; gate(allmask(), idx, 0);
    Obj *o = obj(s.g("obj")); if (!o || NPES < 2) return; for (int q = 0; q < NPES; q++) if (!usable(o, q, q)) return;
    long k = s.g("k"), n = s.g("n"), es = s.g("es"), H = (long) o->hole, so = s.g("so"), dof = s.g("do"), tm = s.g("tm"); int root = (int) s.g("root") % NPES;   // k: 0 broadcast, 1 collect, 2 fcollect, 3 alltoall, 4 reduction of a team
    auto cnt = [&](int i) -> long { return k != 1 ? n : std::max(0L, n - (long) (mix((uint64_t) s.g("v"), (uint64_t) i, 5) % 3) * (long) (mix((uint64_t) s.g("v"), (uint64_t) i, 6) % 1000)); };
    std::vector<long> at0(1, 0); for (int i = 0; i < NPES; i++) at0.push_back(at0.back() + cnt(i));
    long sl = (k == 3 ? n * NPES : n) * es, dl = (k == 1 || k == 2 ? at0.back() : k == 3 ? n * NPES : n) * es; if (n < 1 || n > 0x7fffffffL * 3 || so < 64 || dof < so + sl + 64 || dof + dl + 64 > H || (k == 3 && n > 0x7fffffffL)) return;
    auto at = [&](int q, long off) { return P(q, o->base[q] - H + off); };
    typedef std::map<long, uint8_t> M; static std::map<int, std::vector<std::pair<M, M>>> st; auto & V = st[idx];
    if (V.empty()) {        // the first PE here fills in the data of all; bytes not mentioned are zero
        V.resize((size_t) NPES); Rng r; r.seed(mix((uint64_t) s.g("v"), (uint64_t) n)); auto val = [&] { return (uint8_t) (1 + r.below(k == 4 ? 10 : 255)); };
        for (int q = 0; q < NPES; q++) {
            auto & S = V[(size_t) q].first; long B = (k == 3 ? n * NPES : cnt(q)) * es; std::vector<long> ps = { 0, es, B - es, B / 2 };
            for (long u : { 1L, es }) for (long m = 1; m * (1L << 31) * u <= B + 64 && m < 6; m++) for (long d : { -2 * es, -es, 0L, es, 2 * es }) ps.push_back(m * (1L << 31) * u + d);
            for (int i = 0; i < 8; i++) ps.push_back((long) (r.next() % (uint64_t) std::max(1L, B))); if (k == 3) for (int i = 0; i < NPES; i++) for (long d : { -es, 0L, es }) ps.push_back(i * n * es + d);
            for (long b : ps) { b = b / es * es; if (b >= 0 && b < B) { uint8_t v = val(); S[b] = v; *(uint8_t *) at(q, so + b) = v; } }
        }
        for (int q = 0; q < NPES; q++) {
            auto & D = V[(size_t) q].second; auto rd = [&](int p, long b) -> uint8_t { auto i = V[(size_t) p].first.find(b); return i == V[(size_t) p].first.end() ? 0 : i->second; };
            if (k == 0) { if (q != root || tm) for (auto & kv : V[(size_t) root].first) D[kv.first] = kv.second; }
            else if (k <= 2) { for (int p = 0; p < NPES; p++) for (auto & kv : V[(size_t) p].first) D[at0[(size_t) p] * es + kv.first] = kv.second; }
            else if (k == 3) { for (int p = 0; p < NPES; p++) for (auto & kv : V[(size_t) p].first) if (kv.first / (n * es) == q) D[p * n * es + kv.first % (n * es)] = kv.second; }
            else for (int p = 0; p < NPES; p++) for (auto & kv : V[(size_t) p].first) { int x = 0; for (int z = 0; z < NPES; z++) x += rd(z, kv.first); D[kv.first] = (uint8_t) x; }
            for (int i = 0; i < 16; i++) { long b = (long) (r.next() % (uint64_t) dl); if (!D.count(b)) D[b] = 0; }
            for (long b : { -1L, -9L, dl, dl + 7 }) { uint8_t v = val(); D[b] = v; *(uint8_t *) at(q, dof + b) = v; }
            if (k != 0 || q != root || tm) for (int i = 0; i < 6; i++) { long b = (long) (r.next() % (uint64_t) dl); *(uint8_t *) at(q, dof + b) = val(); if (!D.count(b)) D[b] = 0; }
        }
    }
    gate(allmask(), idx, 1);
    char *src = o->base[pe] - H + so, *dst = o->base[pe] - H + dof; void *w = (void *) 0x90000; std::string b = std::to_string(es * 8); probe(P_OPS); size_t c = (size_t) cnt(pe);
    enter(idx * 32, false);
    if (k == 0) { if (tm) callf<int, void *, void *, const void *, size_t, int>("shmem_broadcastmem", w, dst, src, c * (size_t) es, root); else callf<void, void *, const void *, size_t, int, int, int, int, long *>("shmem_broadcast" + b, dst, src, c, root, 0, 0, NPES, psync(pe)); }
    else if (k <= 3) { std::string f = k == 1 ? "collect" : k == 2 ? "fcollect" : "alltoall"; if (tm) callf<int, void *, void *, const void *, size_t>("shmem_" + f + "mem", w, dst, src, c * (size_t) es); else callf<void, void *, const void *, size_t, int, int, int, long *>("shmem_" + f + b, dst, src, c, 0, 0, NPES, psync(pe)); }
    else callf<int, void *, void *, const void *, size_t>(es == 1 ? "shmem_uchar_sum_reduce" : es == 4 ? "shmem_uint_sum_reduce" : "shmem_ulong_sum_reduce", w, dst, src, c);
    for (auto & kv : V[(size_t) pe].second) { uint8_t v = *(uint8_t *) at(pe, dof + kv.first); if (v != kv.second) violation(k == 4 ? "reduce" : "collective", "pe%d: byte %ld of the destination of a collective operation on %ld elements of %ld bytes is %d, should be %d (%s)", pe, kv.first, (long) c, es, v, kv.second, steptext(idx).c_str()); }
    probe(P_CHECKS); note_progress();
    gate(allmask(), idx, 2);
    if (!pe) { for (int q = 0; q < NPES; q++) { huge_zero(at(q, so), (size_t) sl); huge_zero(at(q, dof - 64), (size_t) dl + 128); } V.clear(); }
    gate(allmask(), idx, 3);
}
// one PE ends the job, whatever the others are doing
static void do_stuck(const Step & s)
{   // one PE leaves operations pending and announces the end, the others never call the library again
    static bool leaving; int pe = cur->pe, who = (int) s.g("pe") % NPES;
    if (pe == who) {
        Rng r; r.seed((uint64_t) s.g("v"));
        for (int n = (int) s.g("n"); n > 0; n--) { int q = (int) r.below((uint32_t) NPES); callf<void, int *, int, int>("shmem_int_atomic_add", (int *) sbase(pe, OFF_STUCK), 1, q); }
        leaving = true; note_progress(); return;
    }
    while (!leaving) callf<int, int *, int, int>("shmem_int_test", (int *) sbase(pe, OFF_STUCK), cmp_code[4], 0);
    block_until("an endless computation", [] { return false; });
}
static void do_gexit(const Step & s, int idx)
{
    if (cur->pe != (int) s.g("pe") % NPES) return;
    static int code; code = (int) s.g("code"); static int who; who = cur->pe; static std::string tx; tx = steptext(idx);
    expect_abort = true;
    on_abort = [](int c) {
        if (cur->pe != who) violation("exit", "pe%d ends the job although pe%d called shmem_global_exit (%s)", cur->pe, who, tx.c_str());
        if (c != code) violation("exit", "the job ends with status %d instead of %d (%s)", c, code, tx.c_str());
        probe(P_CHECKS); SH->digest = 0; SH->steps = sched_steps; SH->simtime = now_ns; SH->ops = done_ops; SH->status = ST_OK; _exit(0); };
    callf<void, int>("shmem_global_exit", code);
    violation("exit", "pe%d: shmem_global_exit returned (%s)", cur->pe, tx.c_str());
}

// ---------------------------------------------------------------------------------------- misc steps
static void do_query(const Step & s, int idx)
{
    int pe = cur->pe; if (pe != (int) s.g("pe")) return;
    if (callf<int>("shmem_my_pe") != pe || callf<int>("shmem_n_pes") != NPES) violation("query", "pe%d: wrong PE number or count", pe);
    if ((s.g("t") + s.g("req")) % 3 == 1) {
        if (callf<int>("_my_pe") != pe || callf<int>("_num_pes") != NPES) violation("query", "pe%d: wrong PE number or count", pe);
        int ma = -1, mi = -1; callf<void, int *, int *>("shmem_info_get_version", &ma, &mi); if (ma < 1 || mi < 0) violation("query", "pe%d: version %d.%d", pe, ma, mi);
        char *nm = (char *) user_malloc(4096); callf<void, char *>("shmem_info_get_name", nm); if (!memchr(nm, 0, 4096)) violation("query", "pe%d: the library's name has no end", pe); user_free(nm);
        callf<void>("shmem_set_cache_inv"); callf<void>("shmem_clear_cache_inv"); callf<void>("shmem_udcflush");
        void *d = sbase(pe, OFF_GATE); callf<void, void *>("shmem_set_cache_line_inv", d); callf<void, void *>("shmem_clear_cache_line_inv", d); callf<void, void *>("shmem_udcflush_line", d);
    }
    long k = s.g("k");
    if (k == 0) { int p = -9; callf<void, int *>("shmem_query_thread", &p); if (p != level_of[pe]) violation("thread-level", "pe%d: query reports thread level %d, initialization granted %d", pe, p, level_of[pe]); }
    if (k == 1) { int p = -9; int rq = (int) s.g("req"); int rc = callf<int, int, int *>("shmem_init_thread", rq, &p); if (p != level_of[pe]) violation("thread-level", "pe%d: a second initialization reports thread level %d instead of %d", pe, p, level_of[pe]); if ((rc == 0) != (rq <= p)) violation("thread-level", "pe%d: second initialization: level %d requested, %d provided, result %d", pe, rq, p, rc); }
    if (k == 2) {
        int q = (int) (s.g("t") % NPES); probe(P_CHECKS);
        for (auto & kv : objs) {
            Obj *o = kv.second; if (!o->base[pe]) continue;
            bool sp = o->space >= 0 && !spaces[o->space]->attached;
            if (sp && spaces[o->space]->destroyed) continue;
            if (sp || !usable(o, pe, pe)) { if (sp && callf<int, const void *, int>("shmem_addr_accessible", o->base[pe], q)) violation("query", "pe%d: object %d of a space that is not attached is reported accessible", pe, o->id); continue; }
            for (size_t x : { (size_t) 0, o->size - 1 }) if (!callf<int, const void *, int>("shmem_addr_accessible", o->base[pe] + x, q)) violation("query", "pe%d: byte %zu of symmetric object %d (%s) is reported inaccessible", pe, x, o->id, o->kind.c_str());
            if (callf<int, const void *, int>("shmem_addr_accessible", o->base[pe], NPES) || callf<int, const void *, int>("shmem_addr_accessible", o->base[pe], -1)) violation("query", "pe%d: an object is reported accessible on a PE that does not exist", pe);
        }
        for (uintptr_t a : mpi_edges(pe)) if (callf<int, const void *, int>("shmem_addr_accessible", (const void *) a, q)) violation("query", "pe%d: an address next to the symmetric memory, which no PE can reach, is reported accessible on pe%d", pe, q);
        char *u = (char *) user_malloc(64); if (callf<int, const void *, int>("shmem_addr_accessible", u, q)) violation("query", "pe%d: private memory is reported accessible on pe%d", pe, q); user_free(u);
    }
    if (k == 5) {       // a pointer for direct access must reach the object
        int q = (int) (s.g("t") % NPES); probe(P_CHECKS);
        for (auto & kv : objs) {
            Obj *o = kv.second; if (!usable(o, pe, q)) continue;
            void *p = callf<void *, const void *, int>("shmem_ptr", o->base[pe], q); if (!p) continue;
            if (q == pe ? p != o->base[pe] : (P(pe, p) != hostp(o, q, 0))) violation("query", "pe%d: shmem_ptr for object %d on pe%d returned a pointer that does not reach it", pe, o->id, q);
        }
        void *c1 = (void *) 5; int r1 = callf<int, long, void **>("shmem_ctx_create", 0L, &c1), r2; void *c2 = (void *) 5; r2 = callf<int, void *, long, void **>("shmem_team_create_ctx", (void *) nullptr, 0L, &c2);
        if ((r1 == 0) != (c1 != nullptr)) violation("query", "pe%d: shmem_ctx_create returned %d with %s context", pe, r1, c1 ? "a" : "no");
        if (!r2 || c2) violation("query", "pe%d: a context was created from the invalid team", pe);
        if (!r1 && c1) callf<void, void *>("shmem_ctx_destroy", c1);
        void *tm = nullptr; int r3 = callf<int, void *, void **>("shmem_ctx_get_team", (void *) 0x80000, &tm); if (r3 || tm != (void *) 0x90000) violation("query", "pe%d: the default context is not that of the world team", pe);
    }
    if (k == 3) { Obj *o = obj(0); void *p = callf<void *, const void *, int>("shmem_ptr", o->base[pe] + 4000, pe); if (p && p != o->base[pe] + 4000) violation("query", "pe%d: shmem_ptr to itself returned another address", pe); }
    if (k == 4) { int a = callf<int, int>("shmem_pe_accessible", (int) s.g("t")); if (a != (s.g("t") >= 0 && s.g("t") < NPES)) violation("query", "shmem_pe_accessible(%ld) = %d", s.g("t"), a); }
}
// requests which perform no action (no PE has to wait for another one), and sizes whose product does not fit into a size_t
static void do_null(const Step & s, int idx)
{
    long k = s.g("k"), n = 1 + s.g("v") % 5000; int who = (int) s.g("pe", -1); bool over = k >= 7; if (!over && who >= 0 && who != cur->pe) return;
    void *p = nullptr; const char *fn = ""; probe(P_CHECKS);
    size_t c = (size_t) n + 2, big = ((size_t) -1) / c;        // c * (big + 1) wraps around to less than c
    if (k == 0) p = callf<void *, size_t>(fn = "shmem_malloc", (size_t) 0);
    else if (k == 1) p = callf<void *, size_t, size_t>(fn = "shmem_calloc", (size_t) 0, (size_t) n);
    else if (k == 2) p = callf<void *, size_t, size_t>(fn = "shmem_calloc", (size_t) n, (size_t) 0);
    else if (k == 3) p = callf<void *, size_t, long>(fn = "shmem_malloc_with_hints", (size_t) 0, n % 4);
    else if (k == 4) p = callf<void *, void *, size_t>(fn = "shmem_realloc", nullptr, (size_t) 0);
    else if (k == 5) p = callf<void *, size_t, size_t>(fn = "shmem_align", (size_t) 64, (size_t) 0);
    else if (k == 6) callf<void, void *>("shmem_free", nullptr);
    else if (k == 7) { enter(idx * 32, true); p = callf<void *, size_t, size_t>(fn = "shmem_calloc", s.g("v") & 1 ? big + 1 : c, s.g("v") & 1 ? c : big + 1); leave(idx * 32, allmask(), "heap-sync", true, fn); }
    else { auto it = spaces.find((int) s.g("sp")); if (it == spaces.end() || it->second->destroyed || !it->second->h[cur->pe]) return; p = callf<void *, void *, size_t, size_t>(fn = "shmemx_space_calloc", it->second->h[cur->pe], s.g("v") & 1 ? big + 1 : c, s.g("v") & 1 ? c : big + 1); }
    if (p) violation(k == 8 ? "space" : "heap", over ? "%s returned a block for a number of bytes beyond the range of size_t (%p, %s)" : "%s returned a block for zero bytes (%p, %s)", fn, p, steptext(idx).c_str());
}
// every thread creates, uses and destroys contexts of one space: no context may have two owners
static void do_ctxrace(const Step & s, int idx)
{
    static std::map<std::pair<int, void *>, int> own; int pe = cur->pe, th = cur->tid; auto it = spaces.find((int) s.g("sp")); if (it == spaces.end()) return;
    Space *sp = it->second; if (sp->destroyed || !sp->attached || !sp->h[pe]) return;
    int used = 0; for (auto & kv : ctxs) if (kv.second->space == sp->id && kv.second->ok[pe]) used++;
    for (long i = 0; i < s.g("n"); i++) {
        void *h = nullptr; int rc = callf<int, void *, long, void **>("shmemx_space_create_ctx", sp->h[pe], 0L, &h); probe(P_CHECKS);
        if (rc) { if (used + nth[pe] <= sp->nctx) violation("context", "pe%d thread %d: no context although at most %d of %d are in use (%s)", pe, th, used + nth[pe] - 1, sp->nctx, steptext(idx).c_str()); continue; }
        if (!h) violation("context", "shmemx_space_create_ctx reported success without a context");
        auto k = std::make_pair(pe, h); auto o = own.find(k);
        if (o != own.end()) violation("context", "pe%d thread %d was handed a context that thread %d still uses (%s)", pe, th, o->second, steptext(idx).c_str());
        for (auto & kv : ctxs) if (kv.second->ok[pe] && kv.second->h[pe] == h) violation("context", "pe%d thread %d was handed a context that is still in use (%s)", pe, th, steptext(idx).c_str());
        own[k] = th;
        if ((i + th) & 1) callf<void, void *>("shmem_ctx_quiet", h);
        own.erase(k); callf<void, void *>("shmem_ctx_destroy", h); note_progress();
    }
}
static int effth(int th, int pe) { return th < nth[pe] ? th : 0; }
static std::map<std::pair<int, int>, int> tsyncs;
static void exec(const Step & s, int idx)
{
    int pe = cur->pe, th = cur->tid; const std::string & k = s.op;
    if (k == "tsync") {
        if (nth[pe] > 1) { auto key = std::make_pair(idx, pe); if (++tsyncs[key] == nth[pe]) for (auto w : pend[pe]) w->synced = true; block_until("(application joins its threads)", [key, pe] { return tsyncs[key] >= nth[pe]; }); }
        return;
    }
    if (k == "ctxrace") { LOG("== %s", steptext(idx).c_str()); do_ctxrace(s, idx); return; }
    bool single = k == "put" || k == "get" || k == "amo" || k == "quiet" || k == "fence" || k == "lstore" || k == "work";
    if (single) { if (s.g("pe") != pe || effth((int) s.g("th"), pe) != th) return; }
    else if (th != (level_of[pe] == 3 ? effth((int) s.g("th"), pe) : 0)) return;        // only under SHMEM_THREAD_MULTIPLE can two threads be inside blocking calls
    LOG("== %s", steptext(idx).c_str());
    if (k == "barrier_all" || k == "barrier" || k == "sync_all" || k == "sync" || k == "team_sync" || k == "malloc" || k == "free" || k == "realloc") tardy(s);
    if (k == "put") do_put(s, idx); else if (k == "get") do_get(s, idx); else if (k == "amo") do_amo(s, idx); else if (k == "quiet") do_quiet(s); else if (k == "fence") do_fence(s);
    else if (k == "barrier_all" || k == "barrier" || k == "sync_all" || k == "sync" || k == "team_sync") do_sync(s, idx);
    else if (k == "malloc") do_malloc(s, idx); else if (k == "free") do_free(s, idx); else if (k == "realloc") do_realloc(s, idx);
    else if (k == "space") do_space(s, idx); else if (k == "split" || k == "split2d") do_split(s, idx); else if (k == "trans") do_translate(s, idx); else if (k == "tdestroy") do_tdestroy(s, idx);
    else if (k == "coll") do_coll(s, idx); else if (k == "crit") do_crit(s, idx); else if (k == "sig") do_sig(s, idx); else if (k == "query") do_query(s, idx); else if (k == "null") do_null(s, idx); else if (k == "burst") do_burst(s, idx); else if (k == "pile") do_pile(s, idx); else if (k == "scat") do_scat(s, idx); else if (k == "xfer") do_xfer(s, idx); else if (k == "xcoll") do_xcoll(s, idx); else if (k == "gexit") do_gexit(s, idx); else if (k == "stuck") do_stuck(s); else if (k == "loop") do_loop(s, idx);
    else if (k == "gate") gate(allmask(), idx, 0);
    else if (k == "snap") { gate(allmask(), idx, 0); if (!pe) for (auto & kv : objs) if (kv.second->live && !kv.second->failed) { Obj *o = kv.second; for (int p = 0; p < NPES; p++) for (size_t i = o->id ? 0 : OFF_RO; i < (o->id ? o->size : OFF_PWRK); i++) { BS & b = o->sh[p][i]; if (b.known && !b.npend && !b.nodig && !b.unman) results = mix(results, i + ((uint64_t) p << 32), *(uint8_t *) hostp(o, p, i)); } } gate(allmask(), idx, 1); }
    else if (k == "lstore") { Obj *o = obj(s.g("obj")); size_t off = (size_t) s.g("off"), n = (size_t) s.g("n", 8); if (o && o->base[pe] && in_range(o, off, n)) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t) mix((uint64_t) s.g("v"), i); host_store(o, pe, off, b.data(), n); } }
    else if (k == "work") { uint64_t until = now_ns + (uint64_t) s.g("ns", 1000); bool *d = new bool(false); after(until - now_ns, [d] { *d = true; }); block_until("(application computes)", [d] { return *d; }); delete d; done_ops++; }
    else infra("unknown step %s", k.c_str());
}

// ---------------------------------------------------------------------------------------- life of a PE
static int build_level() { const std::string & v = RS->variant; return v == "mt" || v == "mtdyn" ? 3 : v == "fast" ? 0 : v == "am" ? 1 : 2; }
extern "C" int MPI_Init_thread(int *, char ***, int, int *);
// objects of the message layer and library memory must not pile up with the number of calls
static void resource_check()
{
    for (int p = 0; p < NPES; p++) {
        long v[5]; mpi_live(p, v); long t = 0, sp = 0; for (auto & kv : teams) t += kv.second->have[p] && !kv.second->destroyed[p]; sp = (long) spaces.size();
        long base = 40 + 3 * t + 3 * (long) asets_used.size() + 8 * sp;
        if (v[0] > base) violation("resource", "pe%d: %ld communicators are still allocated at the end although only %ld teams exist and %zu active sets were used", p, v[0], t, asets_used.size());
        if (v[1] > base) violation("resource", "pe%d: %ld MPI groups are still allocated at the end although only %ld teams exist and %zu active sets were used", p, v[1], t, asets_used.size());
        if (v[2] > 12) violation("resource", "pe%d: %ld identical MPI datatypes are still allocated at the end", p, v[2]);
        if (v[3] > 40 + sp) violation("resource", "pe%d: %ld MPI info objects are still allocated at the end", p, v[3]);
        if (v[4] > 60) violation("resource", "pe%d: %ld completed MPI requests were never freed", p, v[4]);
        long m = mem_live(p); if (m > base + 50) violation("resource", "pe%d: %ld internal memory blocks are still allocated at the end although only %ld teams, %ld spaces and %zu active sets were used", p, m, t, sp, asets_used.size());
    }
}
static void pe_main(int pe)
{
    long form = PRM("initform"), req = PRM("req", 2); int prov = -1, rc = 0; 
    if (PRM("mpifirst")) { int p; MPI_Init_thread(nullptr, nullptr, (int) PRM("mpifirst") - 1, &p); }
    enter(-16 * 7, false);
    if (form == 1) { rc = callf<int, int, int *>("shmem_init_thread", (int) req, &prov); }
    else if (form == 2) callf<void, int>("start_pes", (int) PRM("initarg"));
    else callf<void>("shmem_init");
    leave(-16 * 7, allmask(), "init", false, "initialization");
    int q = -1; callf<void, int *>("shmem_query_thread", &q); probe(P_CHECKS);
    if (q < 0 || q > 3) violation("thread-level", "pe%d: query reports thread level %d", pe, q);
    if (form == 1) {
        if (prov != q) violation("thread-level", "pe%d: initialization granted level %d, the query reports %d", pe, prov, q);
        if ((rc == 0) != (req <= prov)) violation("thread-level", "pe%d: level %ld requested, %d provided, initialization returned %d", pe, req, prov, rc);
    }
    if (q > build_level()) violation("thread-level", "pe%d: granted level %d, the library is built for %d", pe, q, build_level());
    if (q > mpi_provided(pe)) violation("thread-level", "pe%d: granted level %d, the message layer supports %d", pe, q, mpi_provided(pe));
    level_of[pe] = q; nth[pe] = q >= 2 ? PG->nthreads : 1;
    for (int p = 0; p < NPES; p++) { long st = PRM("okteam"); (void) st; }
    Team *w = newteam(0), *sh = newteam(1);
    w->h[pe] = (void *) 0x90000; w->have[pe] = true; sh->h[pe] = (void *) 0x90001; sh->have[pe] = true;
    for (int p = 0; p < NPES; p++) { w->mem[pe].push_back(p); if (mpi_node(p) == mpi_node(pe)) sh->mem[pe].push_back(p); }
    for (int t = 1; t < nth[pe]; t++) spawn(pe, t, [pe, t] { for (size_t i = 0; i < PG->steps.size(); i++) exec(PG->steps[i], (int) i); thr_done[pe]++; note_progress(); });
    for (size_t i = 0; i < PG->steps.size(); i++) exec(PG->steps[i], (int) i);
    block_until("(application joins its threads)", [pe] { return thr_done[pe] >= nth[pe] - 1; });
    // finalize
    CI & c = cis[-16 * 9]; c.entered |= 1u << pe; { auto v = snapshot(pe, -1, -2); c.ops.insert(c.ops.end(), v.begin(), v.end()); }
    bool implicit = form == 2 && PRM("implicitfin");
    if (implicit) { Call cc("exit"); run_atexit(pe); } else callf<void>("shmem_finalize");
    if (c.entered != allmask()) violation("finalize", "pe%d left finalize before every PE had entered it", pe);
    if (!c.exited) {
        for (auto & kv : objs) if (kv.second->kind != "static" && kv.second->live) kill_obj(kv.second);
        std::vector<WOp *> v = c.ops; for (auto x : v) if (!x->done) complete(x, "finalize");
        stray_check("after finalize");
    }
    c.exited |= 1u << pe; fin_done[pe] = true;
    if (PRM("fintwice")) callf<void>("shmem_finalize");
    if (!mpi_is_final(pe)) violation("finalize", "pe%d: the message layer is still running after finalize", pe);
}
void run_program(RunSpec & rs)
{
    RS = &rs; PG = &rs.prog; PRM = rs.prm; SIMENV = rs.env; VARIANT = rs.variant; NPES = PG->npes; multi_thread = PG->nthreads > 1;
    SH->nsteps_prog = (int) PG->steps.size(); uint64_t ph = 7; for (auto & s : PG->steps) for (char ch : s.text()) ph = ph * 131 + (uint8_t) ch; SH->programhash = ph;
    choices_init(rs.cm); if (PRM("far")) mem_far();
    mpi_init_world();
    bool symm = rs.variant == "dyn" || rs.variant == "mtdyn";
    Obj *o = newobj(0, "static", STATIC_SZ, -1); o->live = true; o->failed = false;
    for (int p = 0; p < NPES; p++) {
        if (symm) map_symm(p, static_base[p], STATIC_SZ);
        o->base[p] = static_base[p]; o->sh[p].assign(STATIC_SZ, BS()); nth[p] = 1;
        for (size_t i = 0; i < STATIC_SZ; i++) {
            BS & b = o->sh[p][i]; uint8_t v = i < OFF_RO ? 0 : patt(p, 0, i); *(uint8_t *) hostp(o, p, i) = v; b.val = v; b.known = 1;
            if (i < OFF_RO || i >= OFF_PWRK) b.unman = 1;
        }
    }
    rma_exempt = [](int pe, uintptr_t a) { uintptr_t l = (uintptr_t) static_base[pe] + OFF_LOCK; if (a >= l && a < l + 64) return true; for (auto & k : objlocks) { uintptr_t b = (uintptr_t) k.first->base[pe] + k.second; if (a >= b && a < b + 8) return true; } return false; };
    monitors.push_back(monitor); monitors_on = true;
    for (int p = 0; p < NPES; p++) { Fiber *f = spawn(p, 0, [p] { pe_main(p); }); (void) f; }
    run_scheduler();
    cur = nullptr;
    mpi_final_checks(true);
    mem_check("at the end");
    resource_check();
    if (getenv("SIM_LEAK")) for (int p = 0; p < NPES; p++) { long v[5]; mpi_live(p, v); fprintf(stderr, "LEAK pe %d ops %lu comm %ld grp %ld dt %ld info %ld req %ld mem %ld\n", p, (unsigned long) done_ops, v[0], v[1], v[2], v[3], v[4], mem_live(p)); }
    uint64_t dg = 1469598103934665603ull; Obj *so = objs[0];
    for (int p = 0; p < NPES; p++) for (size_t i = OFF_RO; i < OFF_PWRK; i++) if (!so->sh[p][i].nodig) dg = (dg ^ *(uint8_t *) hostp(so, p, i)) * 0x100000001b3ull;
    for (auto & kv : objs) if (kv.second->failed) digest_ok = 0;
    dg = mix(dg, results);
    SH->digest = digest_ok ? dg : 0;
    if (const char *dp = getenv("SIM_DUMP")) if (FILE *df = fopen(dp, "w")) { for (int p = 0; p < NPES; p++) for (size_t i = OFF_RO; i < OFF_PWRK; i++) fprintf(df, "%d %zu %02x\n", p, i, *(uint8_t *) hostp(so, p, i)); fclose(df); }
    SH->steps = sched_steps; SH->simtime = now_ns; SH->ops = done_ops; SH->status = ST_OK;
    _exit(0);
}
