// Seeded generation of runs: swarm parameters, environment and a legal OpenSHMEM program per property.
#include "work.h"

static const std::vector<TI> &amo_types() { return T_AMO_STD; }
static bool has_type(const std::vector<TI> & v, const char *n) { for (auto & t : v) if (!strcmp(t.name, n)) return true; return false; }

struct GObj { int id; long size; int space; };
struct Zone { long lo, hi; };
enum { Z_RMA, Z_AMO, Z_SEQ, Z_COLL };
struct Gen {
    Rng r; RunSpec rs; std::vector<Step> &S; int np = 2, nt = 1; uint32_t amomask = ~0u; bool commute = false, disjoint = true, heavyget = false;
    std::vector<GObj> objs; int nextid = 1, nextteam = 2, nextctx = 1, nextsp = 0; std::map<std::pair<int, int>, long> top;
    struct GTeam { int id; }; std::vector<int> teams; struct GSp { int id; long size; int nctx; bool attached; }; std::vector<GSp> sps; struct GCtx { int id, sp; }; std::vector<GCtx> ctxs; int allopen = 0;
    int astotal = 0; bool big = false, far = false; int bigid = -1; std::set<int> holes, farsp;
    Gen() : S(rs.prog.steps) { objs.push_back({ 0, 16384, -1 }); teams = { 0, 1 }; }
    Step & add(const char *op) { S.emplace_back(); S.back().op = op; return S.back(); }
    bool p(int pct) { return r.chance(pct, 100); }
    Zone zone(const GObj & o, int z) {
        if (o.id == 0) { static const Zone t[] = { { 3072, 8192 }, { 8192, 9216 }, { 9216, 11264 }, { 11264, 14336 } }; return t[z]; }
        long s = o.size & ~15L;
        if (s >= 2048) { long a = s * 3 / 8 & ~15L, b = a + 256, c = (b + s / 4) & ~15L; Zone t[] = { { 0, a }, { a, b }, { b, c }, { c, s } }; if (z == Z_RMA && p(20)) return { 0, a }; return t[z]; }
        if (s >= 256) { Zone t[] = { { 0, s - 64 }, { s - 64, s }, { 0, 0 }, { 0, 0 } }; if (z == Z_RMA && o.size != s && p(30)) return { s, o.size }; return t[z]; }
        Zone t[] = { { 0, o.size }, { 0, 0 }, { 0, 0 }, { 0, 0 } }; return t[z];
    }
    GObj & pick(int z, long need = 1, int space = -9) {
        if (bigid > 0 && space == -9 && (need > 3000 || p(25))) for (auto & o : objs) if (o.id == bigid) { Zone k = zone(o, z); if (k.hi - k.lo >= need) return o; }
        for (int i = 0; i < 8; i++) { GObj & o = objs[r.below((uint32_t) objs.size())]; if (space != -9 && o.space != space) continue; Zone k = zone(o, z); if (k.hi - k.lo >= need && (o.space < 0 || att(o.space))) return o; }
        return objs[0];
    }
    bool att(int sp) { for (auto & s : sps) if (s.id == sp) return s.attached; return false; }
    long slot(GObj *&o, int z, long size, int space = -9) {
        for (int tr = 0; tr < 2; tr++) {
            for (int i = 0; i < 4; i++) {
                o = &pick(z, size, space); if (space != -9 && o->space != space) continue;
                Zone k = zone(*o, z); long &t = top[{ o->id, z }]; if (t < k.lo) t = k.lo;
                if (t + size <= k.hi) { long x = t; t += (size + 15) & ~15L; return x; }
            }
            join(); add("barrier_all"); join(); top.clear();
        }
        return -1;
    }
    void reset_slots() { if (nt == 1) top.clear(); }     // with several threads only a barrier between two joins ends all uses
    uint64_t val() { return r.next() >> 20; }
    // ---- one-sided operations
    void shape(Step & s, bool put, long area, size_t & es, long & span, int maxn = 400) {
        int k = (int) r.below(10); long n; int f = (int) r.below(20);
        if (k < 5) { const TI & t = r.pick(T_RMA); s.set("ty", t.name); es = (size_t) t.size; }
        else if (k < 8) { static const int b[] = { 8, 16, 32, 64, 128 }; int x = b[r.below(5)]; s.set("bits", x); es = (size_t) x / 8; }
        else es = 1;
        bool typed = k < 8;
        if (f == 0) n = 0; else if (f < 7) n = 1 + r.below(4); else if (f < 16) n = 1 + r.below(40); else n = 1 + r.below((uint32_t) maxn);
        long st = 1;
        if (typed && p(28)) {
            long a = 1 + r.below(p(60) ? 3 : 9), b = 1 + r.below(p(60) ? 3 : 9); s.set("dst", a); s.set("sst", b); st = put ? a : b;
            if (n > 60) n = 60;
            long mx = std::max(a, b); while (n > 1 && (n - 1) * mx * (long) es > 4000) n /= 2;
        } else if (k < 5 && p(20)) { s.set("single", 1); n = 1; }
        else if (p(30)) s.set("nbi", 1);
        if (big && area > 12000 && !s.g("single") && p(35)) { n = 1 + (long) r.below((uint32_t) (area / (st * (long) es))); if (p(40)) { long q = 1; while (q * 2 <= n) q *= 2; n = q - (p(30) ? 1 : 0); } if (n * (s.g("sst", 1) + s.g("dst", 1)) * (long) es > 400000) n = 1 + n / 8; }
        while (n > 0 && ((n - 1) * st + 1) * (long) es > area) n /= 2;
        if (!s.g("single")) s.set("n", n);
        span = n ? ((n - 1) * st + 1) * (long) es : (long) es;
    }
    int target(int pe) { if (p(12)) return pe; return (int) r.below((uint32_t) np); }
    Zone slice(Zone z, int pe, int th) { long per = ((z.hi - z.lo) / (np * nt)) & ~15L; if (per < 16) return { 0, 0 }; long lo = z.lo + (pe * nt + th) * per; return { lo, lo + per }; }
    void put(int pe, int th, int tgt = -1, long ctx = -1, int space = -9) {
        GObj & o = pick(Z_RMA, 1, space); if (space != -9 && o.space != space) return;
        Zone z = zone(o, Z_RMA); if (disjoint) { Zone q = slice(z, pe, th); if (q.hi > q.lo) z = q; else if (commute) return; }
        Step s; s.op = "put"; size_t es; long span; shape(s, true, z.hi - z.lo, es, span); if (span > z.hi - z.lo) return;
        long room = z.hi - z.lo - span, off = z.lo + (room > 0 ? (long) r.below((uint32_t) room + 1) : 0); long al = (long) es; off = off / al * al; if (off < z.lo) off += al; if (off + span > z.hi) return;
        s.set("pe", pe).set("tgt", tgt >= 0 ? tgt : target(pe)).set("obj", o.id).set("off", off).set("v", (long) val()); if (nt > 1) s.set("th", th);
        if (ctx >= 0) s.set("ctx", ctx);
        if (!s.g("single") && p(15)) { long ssz = (s.g("sst", 1) * s.g("n", 1) + 1) * (long) es; if (ssz < 2000) s.set("ro", (long) r.below((uint32_t) (2048 - ssz)) / al * al); }
        if (!s.g("nbi")) s.set("keep", 1);
        S.push_back(s);
    }
    void get(int pe, int th, int tgt = -1, long ctx = -1, int space = -9) {
        GObj & o = pick(Z_RMA, 1, space); if (space != -9 && o.space != space) return;
        Zone z = zone(o, Z_RMA); if (p(50)) { Zone q = slice(z, pe, th); if (q.hi > q.lo) z = q; } 
        Step s; s.op = "get"; size_t es; long span; shape(s, false, z.hi - z.lo, es, span); if (span > z.hi - z.lo) return;
        long room = z.hi - z.lo - span, off = z.lo + (room > 0 ? (long) r.below((uint32_t) room + 1) : 0); long al = (long) es; off = off / al * al; if (off < z.lo) off += al; if (off + span > z.hi) return;
        s.set("pe", pe).set("tgt", tgt >= 0 ? tgt : target(pe)).set("obj", o.id).set("off", off); if (nt > 1) s.set("th", th);
        if (ctx >= 0) s.set("ctx", ctx);
        S.push_back(s);
    }
    int ncells = 3;
    bool amo(int pe, int th, int tgt = -1, long ctx = -1, int space = -9) {
        if (!amomask) return false;
        GObj & o = pick(Z_AMO, 16, space); Zone z = zone(o, Z_AMO); if (z.hi - z.lo < 16 || (space != -9 && o.space != space)) return false;
        int nc = (int) std::min<long>(ncells, (z.hi - z.lo) / 16); int c = (int) r.below((uint32_t) nc); long off = z.lo + 16 * c;
        auto & ts = amo_types(); const TI *t = &ts[(size_t) (o.id * 5 + c * 7 + astotal) % ts.size()]; bool fl = !commute && (o.id + c + astotal) % 9 == 4;
        static const TI F = { "float", 'f', 4 }, D = { "double", 'd', 8 }; if (fl) t = astotal & 1 ? &F : &D;
        std::vector<int> ok;
        for (int k = 0; k < A_NOP; k++) {
            if (!(amomask >> k & 1)) continue;
            bool bit = k >= A_FAND; if (bit && !has_type(T_AMO_BIT, t->name)) continue; if (fl && k != A_FETCH && k != A_SET && k != A_SWAP) continue;
            if (commute && !(k == A_FINC || k == A_INC || k == A_FADD || k == A_ADD || k == A_FETCH)) continue;
            ok.push_back(k);
        }
        if (ok.empty()) return false;
        int k = r.pick(ok);
        Step & s = add("amo"); s.set("pe", pe).set("tgt", tgt >= 0 ? tgt : p(60) ? (int) r.below(std::min(2, np)) : target(pe)).set("obj", o.id).set("off", off).set("k", k).set("ty", t->name);
        if (nt > 1) s.set("th", th);
        int sm = p(50) ? 3 : 0; if (sm) s.set("small", sm);
        if (k != A_FETCH && k != A_INC && k != A_FINC) s.set("v", (long) val());
        if (k == A_CSWAP) { if (p(60)) s.set("hit", 1); s.set("cv", (long) val()); }
        if (aop_fetches(k) && p(25)) s.set("nbi", 1);
        if (p(20)) s.set("dep", 1);
        if (ctx >= 0) s.set("ctx", ctx);
        return true;
    }
    void quiet(int pe, int th, long ctx = -1) { Step & s = add("quiet"); s.set("pe", pe); if (nt > 1) s.set("th", th); if (ctx >= 0) s.set("ctx", ctx); }
    void fence(int pe, int th, long ctx = -1) { Step & s = add("fence"); s.set("pe", pe); if (nt > 1) s.set("th", th); if (ctx >= 0) s.set("ctx", ctx); }
    void work(int pe, long ns = 0) { add("work").set("pe", pe).set("ns", ns ? ns : (long) (200 + r.below(p(20) ? 60000 : 5000))); }
    long anyctx(int pct, int & space) { space = -9; if (ctxs.empty() || !p(pct)) return p(8) ? 0 : -1; auto & c = r.pick(ctxs); space = c.sp; return c.id; }
    // a mix of traffic; weights: put get amo quiet fence work
    struct Mix { int put, get, amo, quiet, fence, work; int ctx = 30; };
    void traffic(int n, Mix m) {
        for (int i = 0; i < n; i++) {
            int pe = (int) r.below((uint32_t) np), th = (int) r.below((uint32_t) nt), sp; long c = anyctx(m.ctx, sp);
            int tot = m.put + m.get + m.amo + m.quiet + m.fence + m.work, x = (int) r.below((uint32_t) tot);
            if ((x -= m.put) < 0) put(pe, th, -1, c, sp);
            else if ((x -= m.get) < 0) get(pe, th, -1, c, sp);
            else if ((x -= m.amo) < 0) { if (!amo(pe, th, -1, c, sp)) put(pe, th, -1, c, sp); }
            else if ((x -= m.quiet) < 0) quiet(pe, th, c);
            else if ((x -= m.fence) < 0) fence(pe, th, c);
            else work(pe);
        }
    }
    // ---- collective steps
    void barrier_all() { join(); add("barrier_all"); join(); top.clear(); }
    void join() { if (nt > 1) add("tsync"); }
    bool wide = false;
    void aset(Step & s) { int lg = (int) r.below(np > 16 ? 5 : np > 8 ? 4 : np > 4 ? 3 : np > 2 ? 2 : 1), st = (int) r.below((uint32_t) np), mx; if (wide && np > 2) { st = (int) r.below((uint32_t) np - 1); if (st + (1 << lg) >= np) lg = 0; } mx = (np - 1 - st) / (1 << lg) + 1; s.set("start", st).set("log", lg).set("size", p(40) ? mx : wide && mx > 1 ? 2 + (int) r.below((uint32_t) mx - 1) : 1 + (int) r.below((uint32_t) mx)); if (p(wide ? 10 : 30)) { s.set("start", 0).set("log", 0).set("size", np); } }
    void barrier_any() { if (p(50)) barrier_all(); else { Step & s = add("barrier"); aset(s); } }
    void poke(Step & s) { if (p(30)) s.set("poke", 1 + (long) r.below((uint32_t) np)).set("poff", (long) r.below(p(50) ? 9 : 60000)).set("pn", (long) r.below(8)); }
    long hole() { static const long b[] = { 1L << 31, 1L << 31, 1L << 32, 1L << 32, 1L << 32, 5L << 30 }; return (b[r.below(6)] + (p(60) ? r.range(-4000, 4000) : r.range(-1000000000, 1000000000)) + (p(50) ? 1000 : 0)) & ~(p(80) ? 15L : 7L); }
    void malloc_(long size, int how = -1) {
        Step & s = add("malloc"); if (how < 0) how = (int) r.below(5); int id = nextid++; long hl = 0; if (far && size > 1 << 20) { if (how == 1 || how == 4) how = 0; hl = (size - r.range(1, 6000)) & ~7L; size -= hl; }
        s.set("id", id).set("size", size).set("how", how); if (hl) { s.set("hole", hl); holes.insert(id); }
        else if (far && holes.empty() && (how == 0 || how == 2 || how == 3)) { s.set("hole", hole()); holes.insert(id); }
        if (how == 2) s.set("align", !commute && p(12) ? 1024L << r.below(5) : 8L << r.below(7)); if (how == 1) { long c = 1 + r.below(8); if (size % c == 0) s.set("cnt", c); } if (how == 3) s.set("hints", (long) r.below(4)); if (p(15)) s.set("dep", 1); poke(s);
        objs.push_back({ id, size, -1 }); reset_slots();
    }
    long objsize() { int k = (int) r.below(4); return k == 0 ? 1 + (long) r.below(200) : k == 1 ? 256 + (long) r.below(1000) : 2048 + (long) r.below(4000); }
    void free_(size_t i) { if (objs[i].id == bigid) bigid = -1; Step & s = add("free"); s.set("id", objs[i].id); if (p(15)) s.set("dep", 1); if (objs[i].space < 0 && p(12)) s.set("rz", 1); for (auto it = top.begin(); it != top.end();) if (it->first.first == objs[i].id) it = top.erase(it); else ++it; objs.erase(objs.begin() + (long) i); reset_slots(); }
    void realloc_(size_t i, long size) { if (holes.count(objs[i].id)) return; if (far) size = std::min(size, 20000L); if (objs[i].id == bigid) bigid = -1; Step & s = add("realloc"); int id = nextid++; s.set("id", objs[i].id).set("nid", id).set("size", size); if (p(15)) s.set("dep", 1); poke(s); objs[i] = { id, size, -1 }; reset_slots(); }
    int space_create(long size, int nctx, bool attach) { if (nctx > 1 && r.below(12) == 0) nctx = r.range(4, 10); int id = nextsp++; if (far && farsp.empty() && p(50)) { farsp.insert(id); size += (6L << 30) + (long) r.below(100000); } add("space").set("sp", id).set("k", 0).set("size", size).set("nctx", nctx).set("hints", (long) r.below(4)); if (attach) add("space").set("sp", id).set("k", 1); sps.push_back({ id, size, nctx, attach }); return id; }
    void space_alloc(int sp, long size, int k = -1) { Step & s = add("space"); if (k < 0) k = 4 + (int) r.below(3); int id = nextid++; bool h = farsp.count(sp) && k != 5; if (far && size > 1 << 20) { if (k == 5) k = 4; h = false; long hl = (size - r.range(1, 6000)) & ~7L; s.set("hole", hl); size -= hl; holes.insert(id); } if (h) { farsp.erase(sp); farsp.insert(-1); s.set("hole", hole()); holes.insert(id); } s.set("sp", sp).set("k", k).set("size", size).set("id", id); if (k == 6) s.set("align", 8L << r.below(6)); if (k == 5) { long c = 1 + r.below(6); if (size % c == 0) s.set("cnt", c); } poke(s); objs.push_back({ id, size, sp }); reset_slots(); }
    // detach and attach a space, or detach and destroy it
    void space_cycle(size_t j) {
        int id = sps[j].id;
        if (sps[j].attached) { add("space").set("sp", id).set("k", 2L); sps[j].attached = false; for (size_t q = ctxs.size(); q-- > 0;) if (ctxs[q].sp == id) ctxs.erase(ctxs.begin() + (long) q); reset_slots(); if (p(30)) traffic(1 + (int) r.below(3), { 4, 3, 4, 1, 1, 1 }); }
        if (p(60)) { add("space").set("sp", id).set("k", 1L); sps[j].attached = true; }
        else { free_space_objs(id); add("space").set("sp", id).set("k", 3L); sps.erase(sps.begin() + (long) j); drop_space_objs(id); }
    }
    int ctx_create(int sp) { int id = nextctx++; static const long opts[] = { 0, 0, 0x1001, 0x1002 }; add("space").set("sp", sp).set("k", 7).set("ctx", id).set("opt", nt == 1 ? opts[r.below(4)] : 0L); ctxs.push_back({ id, sp }); return id; }
    void ctx_destroy(size_t i) { add("space").set("sp", ctxs[i].sp).set("k", 8).set("ctx", ctxs[i].id); ctxs.erase(ctxs.begin() + (long) i); }
    void free_space_objs(int sp) { for (size_t i = objs.size(); i-- > 0;) if (objs[i].space == sp) free_(i); }
    void drop_space_objs(int sp) { for (size_t i = objs.size(); i-- > 0;) if (objs[i].space == sp) objs.erase(objs.begin() + (long) i); for (size_t i = ctxs.size(); i-- > 0;) if (ctxs[i].sp == sp) ctxs.erase(ctxs.begin() + (long) i); reset_slots(); }
    void split() {
        int parent = r.pick(teams);
        if (p(65)) {
            Step & s = add("split"); int st = (int) r.below((uint32_t) np); long sd = 1 + (long) r.below(np > 8 && p(50) ? (uint32_t) np - 1 : 3); if (p(25)) sd = -sd; if (p(6)) sd = 0;
            s.set("parent", parent).set("start", sd < 0 ? (p(50) ? np - 1 : st) : p(60) ? 0 : st).set("stride", sd).set("size", 1 + (long) r.below((uint32_t) np)).set("id", nextteam);
            if (p(30)) s.set("cfg", 1 + (long) r.below(5));
            if (p(10)) { s.set("bad", 1 + (long) r.below(6)); return; }
            teams.push_back(nextteam++);
        }
        else { Step & s = add("split2d"); s.set("parent", parent).set("xrange", 1 + (long) r.below((uint32_t) np + 1)).set("id", nextteam).set("id2", nextteam + 1); if (p(40)) s.set("cfx", (long) r.below(5)).set("cfy", (long) r.below(5)); teams.push_back(nextteam); teams.push_back(nextteam + 1); nextteam += 2; }
    }
    void sync_any(bool teamsync = true) {
        int k = (int) r.below(4);
        if (k == 0) add("sync_all"); else if (k == 1 || !teamsync) { Step & s = add("sync"); aset(s); } else add("team_sync").set("team", r.pick(teams));
    }
    int spins = 0;                 // 1: let a PE keep others waiting for a long time
    int ctm = -1, ckind = -1;      // a phase may stay with one form of collective
    void coll(bool red, bool fresh = false) {
        bool tm = ctm < 0 ? p(50) : ctm == 1; Step s; s.op = "coll"; static const char *kn[] = { "bcast", "collect", "fcollect", "alltoall", "alltoalls" }; std::string k = red ? "reduce" : kn[ckind < 0 ? r.below(5) : (uint32_t) ckind]; s.set("k", k);
        size_t es;
        if (red) {
            int op = (int) r.below(R_NOPS); s.set("rop", op);
            auto & L = op <= R_PROD ? (tm ? T_SUMPROD_TEAM : T_SUMPROD_ASET) : op <= R_MAX ? (tm ? T_MINMAX_TEAM : T_MINMAX_ASET) : (tm ? T_BIT_TEAM : T_BIT_ASET);
            const TI & t = r.pick(L); s.set("ty", t.name); es = (size_t) t.size; s.set("small", t.k == 's' || t.k == 'u' ? (op == R_PROD ? 5 : p(50) ? 0 : 100) : 3);
        } else if (tm && p(70)) { const TI & t = r.pick(T_RMA); s.set("ty", t.name); es = (size_t) t.size; }
        else if (tm) { s.set("bits", 8); es = 1; }
        else { int b = p(50) ? 32 : 64; s.set("bits", b); es = (size_t) b / 8; }
        if (tm) { s.set("team", r.pick(teams)); } else aset(s);
        long n = p(8) ? 0 : 1 + (long) r.below(p(70) ? 8 : 24); if (red && n == 0 && !tm) n = 1; s.set("n", n);
        long dst = 1, sst = 1; if (k == "alltoalls") { dst = 1 + (long) r.below(3); sst = 1 + (long) r.below(3); if (r.below(20) == 0) { dst = r.range(1, 300); sst = p(30) ? dst : r.range(1, 300); n = 1 + (long) r.below(2); s.set("n", n); } s.set("dst", dst).set("sst", sst); }
        if (k == "bcast") s.set("root", (long) r.below((uint32_t) np));
        if (k == "collect" && p(60)) s.set("uneq", 1);
        bool inp = red && p(25); if (inp) s.set("inplace", 1);
        auto need = [&](long n) { long np_ = np, ss, dd; if (k == "bcast" || k == "reduce") ss = dd = n; else if (k == "collect" || k == "fcollect") { ss = n; dd = n * np_; } else if (k == "alltoall") ss = dd = n * np_; else { ss = n * np_ * sst; dd = n * np_ * dst; } return std::make_pair(ss * (long) es, dd * (long) es); };
        long cap = wide ? 250 : 2600; if (big && p(60)) { cap = 60000; static const long T[] = { 64, 128, 256, 512, 1024, 2048, 4096, 8192 }; n = p(75) ? T[r.below(8)] + (p(40) ? 0 : (long) r.below(3) - 1) : 1 + (long) r.below(6000); if (red && s.g("rop") == R_PROD) n = std::min(n, 1100L); }
        auto nd = need(n); while (nd.first + nd.second > cap && n > 1) { n /= 2; nd = need(n); } s.set("n", n);
        // destination and source in one slot of one object
        long a = (nd.second + 15) & ~15L; if (!a) a = 16; long b = (std::max(nd.first, (long) (n * (long) es)) + 15) & ~15L; if (!b) b = 16; long gap = p(50) ? 16 : 0;
        GObj *o; long off = slot(o, Z_COLL, a + b + gap); if (off < 0) return;
        if (p(50)) s.set("doff", off).set("soff", off + a + gap); else s.set("soff", off).set("doff", off + b + gap);
        if (inp) s.set("soff", s.g("doff"));
        s.set("obj", o->id).set("v", (long) val());
        if (tm && fresh && p(50)) s.set("nogate", 1);
        S.push_back(s);
    }
    // several threads are inside blocking calls at the same time, each on teams, active sets and locks of its own
    int asth(const Step & s) { return s.g("start") == 0 && s.g("log") == 0 && s.g("size") == np ? 0 : (int) ((s.g("start") * 7 + s.g("log") * 3 + s.g("size")) % nt); }
    void tcolls(int n) {
        std::vector<int> later; int theme = p(50) ? (p(40) ? 0 : (int) r.below(11)) : -1; if (p(60)) { ctm = p(70) ? 0 : 1; if (p(70)) ckind = (int) r.below(5); } wide = p(80); if (theme >= 0) n += 5;
        for (; n > 0; n--) {
            size_t at = S.size(); int k = theme >= 0 && p(75) ? theme : (int) r.below(12);
            if (k < 3) coll(false, true); else if (k == 3) coll(true, true); else if (k == 4) sync_any(); else if (k == 5) { Step & s = add("barrier"); aset(s); } else if (k == 6) crit(p(50), 1 + (int) r.below(2)); else if (k < 9) sig(); else if (k == 9) query();
            else if (k == 10) { size_t had = teams.size(); split(); while (teams.size() > had) { later.push_back(teams.back()); teams.pop_back(); } }       // nobody uses the new team before the threads are joined
            else if (teams.size() > 2) { size_t j = 2 + r.below((uint32_t) teams.size() - 2); add("tdestroy").set("id", teams[j]); teams.erase(teams.begin() + (long) j); }
            for (; at < S.size(); at++) {
                Step & s = S[at]; const std::string & o = s.op; int t = 0;
                if (o == "crit") { t = (int) r.below((uint32_t) nt); if (t) { s.set("lock", 2 + t); if (s.a.count("lock2")) s.set("lock2", 5 + t); } } else if (o == "sig" || o == "query") t = (int) r.below((uint32_t) nt);
                else if (o == "barrier" || o == "sync") t = asth(s); else if (o == "team_sync" || o == "coll") t = s.g("team", -1) >= 0 ? (int) (s.g("team") % nt) : asth(s);
                else if (o == "split" || o == "split2d") t = (int) (s.g("parent") % nt); else if (o == "tdestroy") t = (int) (s.g("id") % nt);
                if (t) s.set("th", t);
            }
            if (p(30)) traffic(1 + (int) r.below(3), { 5, 3, 5, 2, 1, 1 });
        }
        teams.insert(teams.end(), later.begin(), later.end()); ctm = ckind = -1; wide = false;
    }
    void crit(bool data, int iters) {
        GObj *o; static const int lens[] = { 8, 16, 64, 200 }; long len = data ? lens[r.below(4)] : 8; long off = slot(o, Z_SEQ, len); if (off < 0) return;
        uint32_t mask = (1u << np) - 1; if (p(30)) { mask = r.below((1u << np) - 1) + 1; }
        Step & s = add("crit"); long kind = data ? (long) r.below(5) : (long) r.below(2); bool addok = (amomask >> A_ADD & 1) && (amomask >> A_FETCH & 1); if (kind == 2 && !addok) kind = 0; if (commute) kind = 2;
        s.set("mask", (long) mask).set("lock", (long) r.below(p(60) ? 1 : 3)).set("iters", iters).set("obj", o->id).set("tgt", (long) r.below((uint32_t) np)).set("off", off).set("len", len).set("kind", kind).set("how", (long) r.below(3)).set("tries", 1 + (long) r.below(4)).set("v", (long) val());
        if (p(30) && !commute) s.set("giveup", 1); if (!data && p(80)) s.set("dquiet", 1);
        if ((amomask >> A_FETCH & 1) && np <= 6 && !commute && r.below(spins == 1 ? 8 : 100) == 0) { s.set("spin", r.range(300, spins ? 6000 : 2000)); spins = 2; }
        if (p(30)) s.set("lock2", 5 + (long) r.below(nt > 1 ? 1 : 3));
        if (p(30)) { GObj *lo; size_t at = S.size(); long x = slot(lo, Z_SEQ, 8); if (x >= 0 && S.size() == at) s.set("lobj", lo->id).set("loff", x); }
    }
    void sig() {
        GObj *o; bool pre = p(70); static const int pl[] = { 8, 16, 32, 128, 400 }; long n = pre ? pl[r.below(5)] : 0; long off = slot(o, Z_SEQ, 16 + n); if (off < 0 || off % 16) return;
        const TI & t = r.pick(T_P2P); int how = (int) r.below(9); int a = (int) r.below((uint32_t) np), b = (int) r.below((uint32_t) np); if (a == b) b = (a + 1) % np;
        auto ok = [&](int k) { return (amomask >> k & 1) != 0; };
        if (how == 2 && !ok(A_SET)) how = 0; if (how == 8 && !ok(A_SET)) how = 1; if (how == 3 && !(ok(A_ADD) && ok(A_FADD))) how = 0; if (how == 4 && !ok(A_SWAP)) how = 1; if (how == 5 && !ok(A_CSWAP)) how = 7;
        int ph = (int) r.below(5); if (ph == 2 && !ok(A_SET)) ph = 0;
        Step & s = add("sig"); s.set("p", a).set("c", b).set("obj", o->id).set("off", off).set("ty", t.name).set("cmp", (long) r.below(6)).set("how", how).set("cons", (long) r.below(3)).set("pre", n).set("ph", ph).set("q", (long) p(30)).set("q2", (long) p(30)).set("fet", (long) p(40)).set("dep", (long) p(20)).set("v", (long) val());
        if (ok(A_FETCH) && np <= 6 && r.below(spins == 1 ? 12 : 150) == 0 && !commute) s.set("spin", r.range(300, spins ? 6000 : 2000)).set("lk", 1); if (s.g("spin")) spins = 2;
        // the consumer may itself be a target of other PEs' traffic meanwhile
        if (p(30)) work(a);
    }
    void burst(long n) {
        GObj *o; long off = slot(o, Z_SEQ, 16); if (off < 0) return; int a = (int) r.below((uint32_t) np), b = (int) r.below((uint32_t) np); if (a == b) b = (a + 1) % np;
        Step & s = add("burst"); s.set("pe", a).set("tgt", b).set("obj", o->id).set("off", off).set("n", n).set("v", (long) (val() >> 4)); int k = (int) r.below(3); if (k) s.set("kind", k); else if (p(40)) s.set("post", 1);
    }
    void scat() {
        GObj *o; long off = slot(o, Z_SEQ, 16); if (off < 0) return; long a = amomask >> A_ADD & 1 ? (long) r.below(3) : 2;
        add("scat").set("pe", (long) r.below((uint32_t) np)).set("obj", o->id).set("off", off).set("n", (long) r.range(1, 3)).set("amo", a).set("fin", (long) p(40)).set("v", (long) (val() >> 4));
    }
    void pile(bool big, bool fin = false) {       // counts at which a counter of a fixed width would wrap
        static const long N[] = { 255, 256, 256, 256, 257, 511, 512, 512, 768, 1024 }; bool inc = (amomask >> A_INC & 1) && p(60); long n = N[r.below(10)]; if (big) n = p(80) ? 65536 : 65535 + 2 * (long) r.below(2); if (big && !inc) return;
        GObj *o; long off = slot(o, Z_SEQ, (inc ? 16 : (n + 15) & ~15L) + (fin ? 16 : 0)); if (off < 0) return; int a = (int) r.below((uint32_t) np), b = (int) r.below((uint32_t) np); if (a == b) b = (a + 1) % np;
        add("pile").set("pe", a).set("tgt", b).set("obj", o->id).set("off", off).set("n", n).set("how", inc ? 0 : 1 + (long) r.below(3)).set("v", (long) (val() >> 4)); if (fin) S.back().set("fin", 1).set("late2", (long) p(50));
    }
    void loop(int kind, long n) {
        if (kind < 0) kind = (int) r.below(7);
        if (kind == 2 && n > 30 && n < 250) n = 30;
        long off = 0; GObj *o = nullptr; if (kind >= 3) { off = slot(o, Z_SEQ, kind == 6 ? n * 16 : 160); if (off < 0) return; }
        Step & s = add("loop"); s.set("kind", kind).set("n", n).set("v", (long) (val() >> 4)); if (kind >= 3) s.set("obj", o->id).set("off", off).set("st", kind < 5 ? (long) r.below(3) : amomask >> A_SET & 1 ? (long) r.below(4) : 2 * (long) r.below(2)); if (kind == 2 && p(50)) s.set("keep", p(30) ? r.range(8, 40) : r.range(1, 7)); if (kind == 1) s.set("size", 64 + (long) r.below(p(50) ? 3000 : 20000));
    }
    long loopn() { return p(12) ? r.range(60, 150) : r.range(3, 30); }
    void xfer(bool put, int id, long hole, bool str)
    {
        static const long EB[] = { 1, 1, 1, 2, 4, 8, 16 }; long es = EB[r.below(7)], n, ss = 1, ds = 1, k = put ? 0 : 2; if (!str && p(50)) k++; if (!str && es == 2) es = 1;
        long room = hole - 20000, lim = 1L << 31, pick[] = { lim, lim, lim * es, lim * es, 2 * lim, 2 * lim * es, lim / es }; if (str) k = put ? 4 : 5;
        if (!str) { long b = pick[r.below(7)] + (p(70) ? (r.range(-3, 3)) * es : r.range(0, 1 << 20)); if (b > room || p(10)) b = std::min(room, 2 * lim + 8 * (long) r.below(100)); n = std::max(1L, b / es); }
        else {
            n = r.range(2, 4); auto st = [&] { long w = room / (n - 1) / es; long c = p(60) ? lim + r.range(-2, 200) : p(50) ? 2 * lim + r.range(0, 60) : lim / es + r.range(0, 9); return c < w ? c : p(50) ? w - 1 : 1 + (long) r.below(5); };
            if (p(15)) { es = 1; n = lim + r.range(-3, 1000); ds = ss = 1; if (n > room) n = room; } else
            ds = st(), ss = p(40) ? ds : p(50) ? 1 + (long) r.below(5) : st();
        }
        Step & s = add("xfer"); s.set("pe", (long) r.below((uint32_t) np)).set("tgt", (long) r.below((uint32_t) np)).set("obj", (long) id).set("k", k).set("n", n).set("es", es).set("so", 64 + (long) r.below(500) * 16).set("do", 64 + (long) r.below(500) * 16).set("v", (long) r.below(1 << 20));
        if (str) s.set("ss", ss).set("ds", ds);
    }
    void xcoll(bool red, int id, long hole)
    {
        long lim = 1L << 31, k = red ? 4 : (long) r.below(4), tm = red ? 1 : (long) r.below(2), es = red ? (p(60) ? 1 : p(60) ? 4 : 8) : tm ? 1 : p(70) ? 4 : 8, room = hole - 30000, per = k == 1 || k == 2 ? 1 + np : k == 3 ? 2 * np : 2, n;   // elements in memory for each element of the count
        long pick[] = { lim, lim / es, lim / np, lim / np / es, 2 * lim, 2 * lim / np }; n = pick[r.below(6)] + (p(70) ? r.range(-3, 3) : r.range(0, 100000)); if (k == 3 && n >= lim) n = lim - 1 - (long) r.below(50);
        if (n * es * per > room) n = room / es / per; long so = 64 + (long) r.below(200) * 16, mul = k == 3 ? np : 1;
        Step & s = add("xcoll"); s.set("obj", (long) id).set("k", k).set("n", n).set("es", es).set("tm", tm).set("so", so).set("do", ((so + n * es * mul + 15) & ~15L) + 64 + (long) r.below(200) * 16).set("v", (long) r.below(1 << 20)); if (k == 0) s.set("root", (long) r.below((uint32_t) np));
    }
    void null(bool over) { Step & s = add("null"); int k = (int) r.below(over ? 9 : 7); s.set("k", (long) k).set("v", (long) r.below(1 << 20)); if (k < 7 && p(50)) s.set("pe", (long) r.below((uint32_t) np)); if (k == 8) { if (sps.empty()) s.set("k", 7L); else s.set("sp", r.pick(sps).id); } }
    void query() { add("query").set("pe", (long) r.below((uint32_t) np)).set("k", (long) r.below(6)).set("t", (long) r.below((uint32_t) np + 2) - 1).set("req", (long) r.below(4)); if (S.back().g("k") == 3 || S.back().g("k") == 2 || S.back().g("k") == 5) S.back().set("t", (long) r.below((uint32_t) np)); }
};

static uint64_t hstr(const std::string & s) { uint64_t h = 1469598103934665603ull; for (char c : s) h = (h ^ (uint8_t) c) * 0x100000001b3ull; return h; }

struct Want { int minpe = 2, maxpe = 5; int bigpe = 6; bool threads = false; bool calm = false; };
static void swarm(Gen & g, const std::string & prop, const std::string & var, Rng & r, const Want & w)
{
    auto & P = g.rs.prm; auto pk = [&](std::initializer_list<long> l) { std::vector<long> v(l); return r.pick(v); };
    auto pct = [&](int x) { return r.chance(x, 100); };
    P.set("policy", pct(70) ? 0 : 1); P.set("pswitch", pk({ 50, 200, 500, 900 })); P.set("ticks", pk({ 0, 200, 1000, 5000 })); P.set("prioseed", (long) (r.next() >> 40));
    P.set("netmode", pct(88)); P.set("netscale", pk({ 50, 200, 800, 3000 }));
    if (pct(35)) P.set("slowlink", pk({ 10, 50, 150 }));
    P.set("eagerlimit", pk({ 0, 16, 64, 512, 1 << 20, 1 << 20 }));
    if (pct(30)) P.set("rendezvous", pk({ 100, 400, 1000 }));
    if (pct(45)) P.set("latecapture", pk({ 100, 500, 900 }));
    if (pct(40)) P.set("latecomp", pk({ 100, 500 }));
    if (pct(30)) P.set("spurious", pk({ 50, 300 }));
    if (pct(30)) P.set("torn", pk({ 100, 500 }));
    if (pct(35)) P.set("weak", 1);
    if (pct(10)) P.set("pagesz", pk({ 8192, 16384, 65536 }));
    P.set("winalign", pk({ 16, 64, 4096, 4096 })); if (P("winalign") >= 64 && pct(50)) P.set("winskew", (long) (r.next() >> 24));
    if (pct(30)) P.set("zerocoll", 1);
    P.set("nodes", pk({ 1, 1, 2, 3 })); if (P("nodes") > g.np) P.set("nodes", g.np); P.set("nodecyclic", pct(40));
    if (pct(25)) P.set("stall", pk({ 1, 5, 20 }));
    if (pct(25)) P.set("starve", pk({ 2, 20 }));
    P.set("reuse", pct(50)); P.set("mfill", pk({ 0, 0, 1, 2 })); P.set("skew", pk({ 0, 0, 1000, 5000000 })); P.set("havecvar", pct(20));
    if (pct(20)) P.set("addrtaken", pk({ 100, 500 }));
    if (pct(12)) P.set("mapfail", pk({ 100, 400 }));
    if (pct(25)) P.set("c11", 1);
    P.set("tagub", pk({ 32767, 32767, 65535, (1L << 31) - 1 }));
    P.set("mpilevel", 3); P.set("mpihigher", pct(30)); P.set("initform", pk({ 0, 0, 0, 1, 2 })); P.set("req", (long) r.below(4));
    if (w.calm) for (auto k : { "slowlink", "stall", "starve", "mapfail", "addrtaken" }) P.m.erase(k);
    // environment
    auto & E = g.rs.env; bool debug = var != "fast";
    long heap = pk({ 65536, 131072, 200000, 262144, 1 << 20 }); E["SHMEM_SYMMETRIC_SIZE"] = std::to_string(heap); P.set("heapsize", heap);
    if (var == "mt") { int k = (int) r.below(3); if (k == 1) E["OSHMPI_ENABLE_ASYNC_THREAD"] = "0"; if (k == 2) E["OSHMPI_ENABLE_ASYNC_THREAD"] = "1"; }
    if (debug && var != "am" && var != "direct") {
        if (pct(25)) E["OSHMPI_AMO_DBG_MODE"] = pct(50) ? "am" : "direct";
        if (pct(25)) E["OSHMPI_RMA_DBG_MODE"] = pct(50) ? "am" : "direct";
    }
    if (pct(15)) E["OSHMPI_ENABLE_MPI_T"] = "0";
    if (pct(5)) E["OSHMPI_VERBOSE"] = "1"; if (pct(4)) E["SHMEM_INFO"] = "1"; if (pct(4)) E["SHMEM_VERSION"] = "1"; if (pct(5)) E["SHMEM_DEBUG"] = "1";
}
// which atomics the job declares it uses (drawn before the program, which must keep to it)
static void declare_ops(Gen & g, Rng & r, const std::string & var)
{
    static const struct { const char *s; uint32_t m; } T[] = {
        { "fadd,add,finc,inc", 1u << A_FADD | 1u << A_ADD | 1u << A_FINC | 1u << A_INC }, { "add,fadd,fetch,inc,finc", 1u << A_FADD | 1u << A_ADD | 1u << A_FINC | 1u << A_INC | 1u << A_FETCH },
        { "cswap,fetch", 1u << A_CSWAP | 1u << A_FETCH }, { "swap,set,fetch", 1u << A_SWAP | 1u << A_SET | 1u << A_FETCH }, { "and,fand", 1u << A_AND | 1u << A_FAND }, { "fetch", 1u << A_FETCH }, { "xor,for,or,fxor,fetch", 1u << A_XOR | 1u << A_OR | 1u << A_FOR | 1u << A_FXOR | 1u << A_FETCH },
        { "none", 0 }, { "any_op", ~0u }, { "set,fetch", 1u << A_SET | 1u << A_FETCH }, { "cswap", 1u << A_CSWAP } };
    if (!r.chance(22, 100)) return;
    if (r.chance(50, 100)) {
        static const char *N[] = { "fetch", "set", "swap", "cswap", "finc", "inc", "fadd", "add", "fand", "and", "for", "or", "fxor", "xor" }; std::vector<int> l; for (int k = 0; k < 14; k++) l.push_back(k);
        std::string e; uint32_t m = 0; for (int i = r.range(1, 5); i > 0; i--) { size_t j = r.below((uint32_t) l.size()); int k = l[j]; l.erase(l.begin() + (long) j); m |= 1u << k; e += (e.empty() ? "" : ",") + std::string(N[k]); }
        g.rs.env["OSHMPI_AMO_OPS"] = e; g.amomask = m; return;
    }
    auto & t = T[r.below(sizeof T / sizeof *T)]; g.rs.env["OSHMPI_AMO_OPS"] = t.s; g.amomask = t.m;
}

typedef Gen::Mix Mix;
static void prog_rma(Gen & g, int kind)         // 1 puts, 2 gets, 3 source reuse, 4 quiet
{
    Rng & r = g.r; int ph = r.range(1, 4), pile = kind == 4 && r.below(16) == 0 ? 1 + (r.below(100) == 0) : 0;
    if (pile == 2) { g.np = std::min(g.np, 2); g.rs.prm.set("maxsteps", 24000000L); }
    if (r.chance(60, 100)) for (int i = r.range(1, 3); i > 0; i--) g.malloc_(g.objsize());
    if (r.chance(30, 100)) { int sp = g.space_create(8192 + r.below(20000), r.range(0, 2), true); for (int i = r.range(1, 2); i > 0; i--) g.space_alloc(sp, g.objsize()); if (g.sps.back().nctx && g.p(60)) g.ctx_create(sp); }
    for (int i = 0; i < ph; i++) {
        g.disjoint = r.chance(75, 100); int n = r.range(4, 24);
        Mix m = kind == 1 ? Mix { 12, 2, 2, 2, 1, 1 } : kind == 2 ? Mix { 6, 10, 1, 3, 0, 1 } : kind == 3 ? Mix { 14, 1, 4, 1, 1, 1 } : Mix { 8, 3, 5, 5, 1, 1 };
        g.traffic(n, m);
        if (kind == 2) { for (int pe = 0; pe < g.np; pe++) if (g.p(60)) { g.quiet(pe, 0); g.get(pe, 0); } g.barrier_all(); g.traffic(r.range(3, 12), { 0, 10, 0, 1, 0, 1 }); }
        if ((kind == 4 || kind == 1) && g.np >= 4 && r.below(5) == 0) g.scat();
        if (kind == 4) { for (int pe = 0; pe < g.np; pe++) if (g.p(70)) { g.quiet(pe, 0); if (g.p(50)) g.get(pe, 0); if (g.p(30) && !g.ctxs.empty()) g.quiet(pe, 0, r.pick(g.ctxs).id); } }
        if (g.p(70)) g.barrier_all();
    }
    if (pile) { for (int i = pile > 1 ? 1 : r.range(1, 3); i > 0; i--) g.pile(pile > 1); if (g.p(50)) g.traffic(r.range(2, 8), { 8, 3, 5, 5, 1, 1 }); }
}
static void spaces_setup(Gen & g, int pct)
{
    Rng & r = g.r; if (!r.chance((uint32_t) pct, 100)) return;
    for (int i = r.range(1, 2); i > 0; i--) { int sp = g.space_create(8192 + r.below(12000), r.range(0, 3), true); for (int k = r.range(1, 2); k > 0; k--) g.space_alloc(sp, g.objsize()); for (int k = g.sps.back().nctx; k > 0; k--) if (g.p(60)) g.ctx_create(sp); }
}
static void prog_order(Gen & g)
{
    Rng & r = g.r; if (g.p(50)) g.malloc_(2048 + r.below(3000)); spaces_setup(g, 35);
    for (int ph = r.range(1, 3); ph > 0; ph--) {
        g.disjoint = true; int k = r.range(2, 6);
        for (int i = 0; i < k; i++) {
            if (g.p(35)) { g.sig(); continue; }
            int pe = (int) r.below((uint32_t) g.np), t = (int) r.below((uint32_t) g.np), sp; long c = g.anyctx(35, sp); bool one = g.p(60);
            for (int j = r.range(2, 5); j > 0; j--) { for (int q = r.range(1, 3); q > 0; q--) { int tg = one ? t : -1; if (g.p(25) && g.amo(pe, 0, tg, c, sp)) continue; g.put(pe, 0, tg, c, sp); } g.fence(pe, 0, c); }
            g.put(pe, 0, one ? t : -1, c, sp);
            if (g.p(30)) g.quiet(pe, 0, c);
        }
        if (g.p(60)) g.barrier_all();
    }
    if (r.below(20) == 0) { if (g.p(50)) g.pile(false, true); else g.loop(6, g.loopn()); }
}
static void prog_amo(Gen & g)
{
    Rng & r = g.r; g.ncells = r.range(1, 3); g.astotal = (int) r.below(12); if (g.p(40)) g.malloc_(2048 + r.below(2000)); spaces_setup(g, 25);
    for (int ph = r.range(1, 3); ph > 0; ph--) { g.traffic(r.range(6, 30), { 1, 1, 20, 2, 1, 2 }); if (g.p(70)) g.barrier_all(); }
}
static void prog_barrier(Gen & g)
{
    Rng & r = g.r; if (g.p(50)) g.malloc_(g.objsize()); spaces_setup(g, 45);
    for (int ph = r.range(2, 7); ph > 0; ph--) { g.disjoint = g.p(80); g.traffic(r.range(0, 8), { 8, 2, 5, 1, 1, 3 }); g.barrier_any(); if (g.p(40)) g.traffic(r.range(1, 4), { 1, 6, 1, 0, 0, 1 }); }
    if (g.p(20)) for (int i = r.range(3, 10); i > 0; i--) g.barrier_any();
    if (g.np >= 4 && r.below(6) == 0) g.scat();
    if (r.below(12) == 0) g.loop(5, g.p(80) ? g.loopn() : r.range(257, 600));
}
static void prog_sync(Gen & g)
{
    Rng & r = g.r; int n = r.range(4, 20); for (int i = r.range(0, 4); i > 0; i--) g.split();
    for (int i = 0; i < n; i++) { if (g.p(35)) g.traffic(r.range(1, 3), { 4, 1, 2, 1, 0, 6 }); g.sync_any(); if (g.p(8)) g.split(); if (g.p(5) && g.teams.size() > 3) { size_t k = 2 + r.below((uint32_t) g.teams.size() - 2); g.add("tdestroy").set("id", g.teams[k]); g.teams.erase(g.teams.begin() + (long) k); } }
}
static void prog_coll(Gen & g, bool red)
{
    Rng & r = g.r; for (int i = r.range(0, 3); i > 0; i--) g.split(); if (g.p(50)) g.malloc_(2048 + r.below(6000)); spaces_setup(g, 20);
    for (int n = r.range(3, 14); n > 0; n--) { if (g.p(30)) g.traffic(r.range(1, 4), { 6, 2, 3, 1, 1, 2 }); g.coll(red, true); if (g.p(8)) g.split(); if (g.p(8)) g.barrier_any(); }
}
static void prog_lock(Gen & g, bool data)
{
    Rng & r = g.r; if (g.p(50)) g.malloc_(2048 + r.below(3000)); spaces_setup(g, 30);
    for (int n = r.range(1, 4); n > 0; n--) { if (g.p(30)) g.traffic(r.range(1, 6), { 6, 2, 3, 1, 1, 2 }); g.crit(data, r.range(1, 6)); }
}
static void prog_p2p(Gen & g)
{
    Rng & r = g.r; if (g.p(50)) g.malloc_(2048 + r.below(3000)); spaces_setup(g, 30);
    for (int n = r.range(2, 10); n > 0; n--) { if (g.p(40)) g.traffic(r.range(1, 5), { 4, 4, 4, 1, 1, 2 }); g.sig(); }
}
static long hsize(Gen & g, long heap) { Rng & r = g.r; int k = (int) r.below(10); if (k < 3) return 1 + (long) r.below(100); if (k < 6) return 100 + (long) r.below(3000); if (k < 8) return 1 + (long) r.below((uint32_t) (heap / 6)); if (k == 8) return 1L << r.below(15); return 1 + (long) r.below((uint32_t) (heap / 3)); }
// many small blocks whose sizes add up, so that blocks are split, merged, extended and used up to the last byte
static void heap_churn(Gen & g, long heap)
{
    Rng & r = g.r; std::vector<long> sizes; for (int i = 0; i < 3; i++) sizes.push_back(1 + (long) r.below(i ? 600 : 60)); long lim = std::min(heap / 2, 16000L), used = 0;
    auto sz = [&] { long a = r.pick(sizes); if (g.p(30)) a += r.pick(sizes) + 16; if (g.p(25)) a = (long) r.below(2 + (uint32_t) a); a += 8 * r.range(-3, 4); if (g.p(20)) a += r.range(-7, 7); a = std::min(std::max(1L, a), 3000L); if (g.p(15)) { if (sizes.size() > 8) sizes.erase(sizes.begin()); sizes.push_back(a); } return a; };
    for (int n = r.range(20, 70); n > 0; n--) {
        std::vector<size_t> live; for (size_t j = 1; j < g.objs.size(); j++) if (g.objs[j].space < 0) live.push_back(j);
        int k = (int) r.below(10); if (live.size() > 15 || used > lim) k = 5;
        if (k < 5 || live.empty()) { long a = sz(); g.malloc_(a); used += a; }
        else if (k < 8) { size_t j = r.pick(live); used -= g.objs[j].size; g.free_(j); }
        else { size_t j = r.pick(live); long a = sz(); used += a - g.objs[j].size; g.realloc_(j, a); }
        if (g.p(4)) g.traffic(1, { 8, 4, 2, 1, 1, 2 });
    }
}
static void prog_heap(Gen & g)
{
    Rng & r = g.r; if (g.p(4)) g.loop(1, g.loopn()); long heap = g.rs.prm("heapsize"); long used = 0; int n = r.range(4, 18);
    if (!g.far && g.p(15)) { heap_churn(g, heap); n = r.range(1, 5); }
    for (int i = 0; i < n; i++) {
        int k = (int) r.below(10); std::vector<size_t> live; for (size_t j = 1; j < g.objs.size(); j++) if (g.objs[j].space < 0) live.push_back(j);
        if (live.size() > 12) k = 5;
        if (k < 5 || live.empty()) { long sz = hsize(g, heap); if (used + sz > heap * 3 / 4 && g.p(70)) sz = 1 + r.below(200); if (sz > 12000 && g.p(70)) sz = 1 + r.below(12000); if (g.p(3)) sz = 0; g.malloc_(sz); used += sz; if (!sz) g.objs.pop_back(); }
        else if (k < 7) { size_t j = r.pick(live); used -= g.objs[j].size; g.free_(j); }
        else if (k < 8) { size_t j = r.pick(live); long sz = hsize(g, heap); if (sz > 12000) sz = 12000; used += sz - g.objs[j].size; g.realloc_(j, sz); }
        if (g.p(50)) g.traffic(r.range(1, 6), { 8, 4, 2, 1, 1, 2 });
        if (g.p(12)) g.query(); if (g.p(8)) g.null(false); if (g.p(15)) g.barrier_any();
    }
    if (g.p(30)) {      // fill the heap to its last pages
        for (int i = 0; i < 6; i++) { g.malloc_(std::max<long>(1, heap / (i < 3 ? 4 : 8 << (i - 3)) - (g.p(50) ? 0 : r.below(200))), 0); }
        g.traffic(r.range(4, 10), { 8, 3, 2, 1, 0, 1 });
    }
}
static void prog_exhaust(Gen & g)
{
    Rng & r = g.r; long heap = g.rs.prm("heapsize"); int mode = (int) r.below(3);
    if (g.p(50)) g.malloc_(g.objsize());
    size_t base = g.objs.size();
    if (mode == 0) {
        for (int round = r.range(1, 2); round > 0; round--) {
            long chunk = std::max<long>(heap / r.range(2, 12), 64); int n = (int) std::min<long>(heap / chunk + 3, 16);
            for (int i = 0; i < n; i++) { g.malloc_(g.p(70) ? chunk : 1 + r.below((uint32_t) chunk), g.p(70) ? 0 : (int) r.below(4)); if (g.p(6)) { g.add("malloc").set("id", g.nextid++).set("huge", r.range(31, 63)).set("size", 1L).set("how", (long) (g.p(70) ? 0 : 1)); } if (g.p(5)) g.null(true); if (g.p(25)) g.traffic(r.range(1, 3), { 6, 2, 1, 1, 0, 1 }); }
            if (g.p(30)) { std::vector<size_t> l; for (size_t j = 1; j < g.objs.size(); j++) l.push_back(j); if (!l.empty()) g.realloc_(r.pick(l), heap); }
            while (g.objs.size() > base && g.p(92)) g.free_(base + r.below((uint32_t) (g.objs.size() - base)));
            g.malloc_(g.objsize(), 0); g.traffic(r.range(1, 5), { 6, 3, 1, 1, 0, 1 });
        }
    } else {
        int nsp = r.range(1, 3);
        for (int i = 0; i < nsp; i++) g.space_create(4096 * r.range(1, 5) - (g.p(50) ? 0 : r.below(3000)), r.range(0, 3), g.p(80));
        for (int i = r.range(4, 16); i > 0; i--) {
            auto & sp = r.pick(g.sps); int k = (int) r.below(10);
            if (k < 5) g.space_alloc(sp.id, g.p(10) ? sp.size : 1 + (long) r.below((uint32_t) sp.size), g.p(60) ? 4 : -1);
            else if (k < 8 && mode == 1) { std::vector<size_t> l; for (size_t j = 1; j < g.objs.size(); j++) if (g.objs[j].space >= 0) l.push_back(j); if (!l.empty()) g.free_(r.pick(l)); }
            else if (sp.attached) { if (g.p(60)) g.ctx_create(sp.id); else if (!g.ctxs.empty()) g.ctx_destroy(r.below((uint32_t) g.ctxs.size())); }
            if (g.p(8)) g.add("space").set("sp", sp.id).set("k", 4L).set("id", g.nextid++).set("huge", r.range(31, 62)).set("size", 1L);
            if (g.p(6)) { g.null(true); g.S.back().set("k", 8L).set("sp", sp.id); }
            if (g.p(30)) g.traffic(r.range(1, 4), { 6, 3, 2, 1, 0, 1 });
        }
    }
}
static void prog_space(Gen & g, bool ctx)
{
    Rng & r = g.r; if (g.p(3)) g.loop(2, g.loopn()); int n = r.range(6, 22); if (g.p(40)) g.malloc_(g.objsize());
    if (ctx) { for (int i = r.range(1, 2); i > 0; i--) { int sp = g.space_create(6000 + r.below(12000), r.range(1, 4), true); g.space_alloc(sp, 2048 + r.below(2000)); for (int k = r.range(1, g.sps.back().nctx); k > 0; k--) g.ctx_create(sp); } }
    for (int i = 0; i < n; i++) {
        int k = (int) r.below(12);
        if (k == 0 && g.sps.size() < 4) g.space_create(2000 + r.below(14000), r.range(0, 3), g.p(75));
        else if (k == 1) { std::vector<size_t> l; for (size_t j = 0; j < g.sps.size(); j++) if (!g.sps[j].attached) l.push_back(j); if (!l.empty()) { size_t j = r.pick(l); g.add("space").set("sp", g.sps[j].id).set("k", 1L); g.sps[j].attached = true; } }
        else if (k == 2 && g.p(40) && !g.sps.empty()) { size_t j = r.below((uint32_t) g.sps.size()); if (g.sps[j].attached) { g.add("space").set("sp", g.sps[j].id).set("k", 2L); g.sps[j].attached = false; for (size_t q = g.ctxs.size(); q-- > 0;) if (g.ctxs[q].sp == g.sps[j].id) g.ctxs.erase(g.ctxs.begin() + (long) q); } }
        else if (k == 3 && g.p(40) && !g.sps.empty()) { size_t j = r.below((uint32_t) g.sps.size()); if (!g.sps[j].attached) { int id = g.sps[j].id; g.free_space_objs(id); g.add("space").set("sp", id).set("k", 3L); g.sps.erase(g.sps.begin() + (long) j); g.drop_space_objs(id); } }
        else if (k < 7 && !g.sps.empty()) { auto & s = r.pick(g.sps); g.space_alloc(s.id, g.p(40) ? 1 + (long) r.below(300) : 256 + (long) r.below((uint32_t) std::max<long>(s.size / 3, 10))); }
        else if (k == 7) { std::vector<size_t> l; for (size_t j = 1; j < g.objs.size(); j++) if (g.objs[j].space >= 0) l.push_back(j); if (!l.empty()) g.free_(r.pick(l)); }
        else if (k == 8 && ctx) { for (auto & s : g.sps) if (s.attached && g.p(60)) { g.ctx_create(s.id); break; } }
        else if (k == 9 && ctx && !g.ctxs.empty()) g.ctx_destroy(r.below((uint32_t) g.ctxs.size()));
        g.traffic(r.range(0, 5), ctx ? Mix { 7, 3, 5, 3, 2, 1, 75 } : Mix { 7, 4, 4, 2, 1, 1, 15 });
        if (ctx && !g.ctxs.empty() && g.p(50)) { auto & c = r.pick(g.ctxs); int pe = (int) r.below((uint32_t) g.np); g.put(pe, 0, -1, c.id, c.sp); if (g.p(60)) g.amo(pe, 0, -1, c.id, c.sp); if (g.p(50)) g.quiet(pe, 0, c.id); else { int t = (int) r.below((uint32_t) g.np); g.put(pe, 0, t, c.id, c.sp); g.fence(pe, 0, c.id); g.put(pe, 0, t, c.id, c.sp); } }
        if (g.p(20)) g.barrier_any(); if (!ctx && g.p(10)) g.sig(); if (!ctx && g.p(8)) g.query(); if (!ctx && g.p(8)) g.crit(true, 2);
    }
    if (!ctx && r.below(25) == 0) { g.loop(2, r.range(20, 45)); g.S.back().set("keep", r.range(17, 40)); }
}
static void prog_team(Gen & g)
{
    Rng & r = g.r; if (g.p(6)) g.loop(0, g.loopn()); int n = r.range(3, 16);
    for (int i = 0; i < n; i++) {
        int k = (int) r.below(10);
        if (k < 4) g.split();
        else if (k < 7) g.add("trans").set("pe", (long) r.below((uint32_t) g.np)).set("t1", r.pick(g.teams)).set("t2", r.pick(g.teams)).set("src", (long) r.below(8));
        else if (k == 7) g.add("team_sync").set("team", r.pick(g.teams));
        else if (k == 8) g.coll(g.p(50));
        else if (g.teams.size() > 2) { size_t j = 2 + r.below((uint32_t) g.teams.size() - 2); g.add("tdestroy").set("id", g.teams[j]); g.teams.erase(g.teams.begin() + (long) j); }
        if (g.p(20)) g.traffic(r.range(1, 3), { 5, 2, 3, 1, 1, 2 });
    }
}
static void prog_fin(Gen & g)
{
    Rng & r = g.r; if (g.p(50)) g.malloc_(g.objsize()); spaces_setup(g, 30);
    if (g.p(40)) { g.traffic(r.range(1, 8), { 6, 2, 3, 1, 1, 3 }); if (g.p(50)) g.barrier_any(); }
    if (g.p(60)) g.traffic(r.range(1, 10), { 10, 0, 6, 0, 1, 3 });
    if (g.p(40)) g.work((int) r.below((uint32_t) g.np), 20000 + r.below(200000));
    for (int i = r.range(0, 3); i > 0; i--) { int pe = (int) r.below((uint32_t) g.np); if (g.p(50)) g.put(pe, 0); else g.amo(pe, 0); }
}
static void prog_mixed(Gen & g, int n)
{
    Rng & r = g.r; if (g.p(60)) g.malloc_(2048 + r.below(3000)); spaces_setup(g, 40); for (int i = r.range(0, 2); i > 0; i--) g.split();
    for (int i = 0; i < n; i++) {
        switch (r.below(12)) {
            case 0: g.barrier_any(); break; case 1: g.sync_any(); break; case 2: g.coll(false, true); break; case 3: g.coll(true, true); break; case 4: g.crit(g.p(60), r.range(1, 3)); break;
            case 5: case 6: g.sig(); break; case 7: if (g.objs.size() < 10) g.malloc_(g.objsize()); break; case 8: if (g.teams.size() > 3 && g.p(25)) { size_t k = 2 + r.below((uint32_t) g.teams.size() - 2); g.add("tdestroy").set("id", g.teams[k]); g.teams.erase(g.teams.begin() + (long) k); } else if (g.p(40)) g.split(); break;
            case 9: { std::vector<size_t> l; for (size_t j = 1; j < g.objs.size(); j++) l.push_back(j); if (!l.empty() && g.p(50)) g.free_(r.pick(l)); else if (g.p(20)) g.null(g.p(50)); break; }
            case 10: if (!g.sps.empty() && g.p(35)) g.space_cycle(r.below((uint32_t) g.sps.size())); else if (g.sps.size() < 3 && g.p(40)) { int sp = g.space_create(9000, 1, true); g.space_alloc(sp, 3000); if (g.p(50)) g.ctx_create(sp); } break;
            default: if (g.p(30)) g.query(); break;
        }
        g.traffic(r.range(0, 6), { 6, 4, 5, 2, 1, 2 });
    }
}
static void prog_exit(Gen & g)
{   // one PE ends the job in the middle of whatever the others do
    Rng & r = g.r; static const long codes[] = { 0, 1, 2, 77, 255, -1 };
    prog_mixed(g, r.range(0, 8)); size_t at = r.below((uint32_t) g.S.size() + 1);
    Step s; s.op = "gexit"; s.set("pe", (long) r.below((uint32_t) g.np)).set("code", codes[r.below(6)]); g.S.insert(g.S.begin() + (long) at, s);
    if (g.p(60)) { Step u; u.op = "stuck"; u.set("pe", s.g("pe")).set("n", (long) r.below(4)).set("v", (long) r.below(1 << 20)); g.S.insert(g.S.begin() + (long) at, u); }
}
static void prog_query(Gen & g)
{
    Rng & r = g.r; int n = r.range(2, 12); if (g.p(50)) g.malloc_(g.objsize()); for (int i = r.range(0, 2); i > 0; i--) g.split();
    for (int i = 0; i < n; i++) {
        switch (r.below(8)) {
            case 0: if (g.objs.size() < 12) g.malloc_(g.objsize()); break;
            case 1: { std::vector<size_t> l; for (size_t j = 1; j < g.objs.size(); j++) l.push_back(j); if (!l.empty()) g.free_(r.pick(l)); break; }
            case 2: case 3: if (g.sps.size() < 4) { int sp = g.space_create(3000 + r.below(12000), r.range(0, 1), g.p(60)); if (g.p(80)) g.space_alloc(sp, g.objsize()); } break;
            case 4: { std::vector<size_t> l; for (size_t j = 0; j < g.sps.size(); j++) if (!g.sps[j].attached) l.push_back(j); if (!l.empty()) { size_t j = r.pick(l); g.add("space").set("sp", g.sps[j].id).set("k", 1L); g.sps[j].attached = true; } break; }
            case 5: { std::vector<size_t> l; for (size_t j = 0; j < g.sps.size(); j++) if (g.sps[j].attached) l.push_back(j); if (!l.empty()) { size_t j = r.pick(l); g.add("space").set("sp", g.sps[j].id).set("k", 2L); g.sps[j].attached = false; } break; }
            case 6: { std::vector<size_t> l; for (size_t j = 0; j < g.sps.size(); j++) if (!g.sps[j].attached) l.push_back(j); if (!l.empty()) { size_t j = r.pick(l); int id = g.sps[j].id; g.free_space_objs(id); g.add("space").set("sp", id).set("k", 3L); g.sps.erase(g.sps.begin() + (long) j); g.drop_space_objs(id); } break; }
            default: g.sync_any(); break;
        }
        for (int q = r.range(1, 4); q > 0; q--) g.query();
        g.traffic(r.range(0, 3), { 5, 3, 3, 1, 0, 1 });
    }
}
static void prog_threads(Gen & g)
{
    Rng & r = g.r; if (g.p(50)) g.malloc_(2048 + r.below(2000)); spaces_setup(g, 50); if (g.p(40)) for (int i = r.range(1, 3); i > 0; i--) g.split();
    for (int ph = r.range(1, 4); ph > 0; ph--) {
        g.disjoint = g.p(75); g.ncells = r.range(1, 3); int n = r.range(6, 30);
        g.traffic(n, { 7, 4, 7, 5, 2, 1, 40 });
        // main threads meet while the other threads continue
        if (g.p(40)) switch (r.below(5)) { case 0: g.add("barrier_all"); break; case 1: g.sync_any(); break; case 2: g.sig(); break; case 3: g.coll(g.p(50), true); break; default: g.crit(true, 2); }
        if (g.p(50)) g.traffic(r.range(2, 10), { 7, 4, 7, 5, 2, 1, 40 });
        if (g.p(25)) for (auto & q : g.sps) if (q.attached && q.nctx) { g.join(); g.add("ctxrace").set("sp", q.id).set("n", (long) r.range(1, 8)); g.join(); break; }
        if (g.p(45)) { g.join(); g.tcolls(r.range(2, 9)); g.join(); }
        if (g.p(60)) { g.join(); g.barrier_all(); if (g.p(30)) { g.malloc_(g.objsize()); } }
    }
    g.join();
}
static void prog_long(Gen & g)
{
    Rng & r = g.r; int mode = (int) r.below(5);
    if (r.below(250) == 0) {   // more packets than the message layer has tags
        g.np = std::min(g.np, 3); g.rs.prm.set("tagub", 32767); g.rs.prm.set("maxsteps", 24000000L); g.rs.prm.set("nodes", 1); if (g.rs.prm("ticks") && g.rs.prm("ticks") < 2000) g.rs.prm.set("ticks", 5000); g.rs.prm.set("pswitch", 50);
        for (auto k : { "slowlink", "stall", "starve", "nonatomic" }) g.rs.prm.m.erase(k); g.rs.prm.set("netmode", 0);
        g.burst(33000 + r.below(300)); g.traffic(r.range(1, 12), { 3, 3, 6, 1, 0, 0 });
    } else if (mode == 0) {     // many short operations
        g.ncells = 2; if (g.p(40)) g.loop(-1, g.loopn()); long n = r.range(60, 240); if (g.p(50)) g.burst(r.range(20, 200)); if (g.p(25)) g.pile(false, g.p(30));
        for (long i = 0; i < n; i++) { int pe = g.p(70) ? 0 : (int) r.below((uint32_t) g.np); int x = (int) r.below(10); if (x < 5) g.amo(pe, 0); else if (x < 7) g.get(pe, 0); else if (x < 9) g.put(pe, 0); else g.quiet(pe, 0); }
    } else if (mode == 1) {     // many strided layouts
        if (g.p(20)) g.loop(3 + (int) r.below(2), g.loopn());
        std::vector<std::pair<long, long>> st; for (int i = 0; i < 4; i++) st.push_back({ 1 + (long) r.below(12), 1 + (long) r.below(12) });
        for (int i = r.range(30, 120); i > 0; i--) {
            int pe = (int) r.below((uint32_t) g.np); bool put = g.p(60); size_t at = g.S.size(); g.disjoint = true; if (put) g.put(pe, 0); else g.get(pe, 0);
            if (g.S.size() == at) continue; Step & s = g.S.back(); if (s.g("single") || s.g("nbi") || (s.str("ty").empty() && !s.g("bits"))) continue;
            auto q = g.p(70) ? r.pick(st) : std::make_pair(1 + (long) r.below(40), 1 + (long) r.below(40)); s.a.erase("ro");
            s.set("dst", q.first).set("sst", q.second).set("n", 1 + (long) r.below(6)); size_t es = s.str("ty").empty() ? (size_t) s.g("bits") / 8 : (size_t) find_type(s.str("ty"))->size;
            Zone z = g.slice({ 3072, 8192 }, pe, 0); s.set("obj", 0L); long sp = ((s.g("n") - 1) * (put ? q.first : q.second) + 1) * (long) es; long lo = put ? z.lo : 3072, hi = put ? z.hi : 8192; lo = (lo + (long) es - 1) / (long) es * (long) es; while (s.g("n") > 1 && lo + sp > hi) { s.set("n", s.g("n") - 1); sp = ((s.g("n") - 1) * (put ? q.first : q.second) + 1) * (long) es; } s.set("off", lo);
            if (g.p(15)) g.quiet(pe, 0); if (g.p(8)) g.barrier_all();
        }
    } else if (mode == 2) {     // many active sets
        if (g.p(20)) g.loop(0, g.loopn());
        for (int i = r.range(20, 60); i > 0; i--) { int k = (int) r.below(4); if (k == 0) { Step & s = g.add("barrier"); g.aset(s); } else if (k == 1) { Step & s = g.add("sync"); g.aset(s); } else g.coll(k == 3); }
    } else if (mode == 3) {     // spaces come and go
        if (g.p(3)) { g.np = std::min(g.np, 2); g.rs.prm.set("maxsteps", 24000000L); g.loop(2, r.range(257, 300)); } else if (g.p(20)) g.loop(1 + (int) r.below(2), g.loopn());
        for (int i = r.range(6, 14); i > 0; i--) { int sp = g.space_create(4096 + r.below(6000), r.range(0, 2), true); g.space_alloc(sp, 600 + r.below(1500)); if (g.sps.back().nctx && g.p(50)) g.ctx_create(sp); g.traffic(r.range(1, 6), { 6, 3, 4, 2, 1, 0 }); for (auto & c : g.ctxs) if (c.sp == sp) for (int pe = 0; pe < g.np; pe++) g.quiet(pe, 0, c.id); if (g.p(80)) { g.barrier_all(); g.free_space_objs(sp); g.add("space").set("sp", sp).set("k", 2L); g.add("space").set("sp", sp).set("k", 3L); g.sps.pop_back(); g.drop_space_objs(sp); } }
    } else prog_mixed(g, r.range(20, 40));
}
RunSpec generate(const std::string & prop, uint64_t seed, const std::string & var)
{
    Gen g; Rng & r = g.r; r.seed(seed * 1000003 + hstr(prop)); Rng ve; ve.seed(seed * 7919 + hstr(prop) * 3 + hstr(var));
    g.rs.prop = prop; g.rs.variant = var; g.rs.choice_seed = g.rs.cm.seed = ve.next();
    int id = atoi(prop.c_str() + 1); Want w;
    g.np = r.chance(25, 100) ? 2 : r.chance(85, 100) ? r.range(2, 5) : r.range(4, 8);
    if (id == 8 || id == 9 || id == 10 || id == 18) g.np = r.chance(80, 100) ? r.range(2, 6) : r.range(2, 8);
    if (id == 11) g.np = r.range(2, 6);
    if (((id >= 7 && id <= 10) || id == 18) && r.chance(4, 100)) g.np = r.range(9, r.chance(60, 100) ? 12 : MAXPE);       // active sets with a stride of 8 need more than 8 PEs
    else if (r.chance(1, 100)) g.np = r.range(9, MAXPE);
    bool mtv = var == "mt" || var == "mtdyn";
    if (id == 21) { g.np = r.chance(70, 100) ? r.range(1, 3) : 4; g.nt = r.range(2, 3); } else if (id == 22 && mtv && r.chance(40, 100)) { g.nt = 2; g.np = std::min(g.np, 4); }
    else if (id == 20 && r.chance(40, 100)) { g.nt = 2; g.np = std::min(g.np, 3); }
    if (g.np == 1 && g.p(50)) g.np = 2;
    Rng & env = ve; swarm(g, prop, var, env, w);
    bool direct = var == "direct" || g.rs.env.count("OSHMPI_AMO_DBG_MODE");
    if (id == 24) { g.commute = true; g.disjoint = true; if (r.chance(20, 100)) { g.amomask = 1u << A_FADD | 1u << A_ADD | 1u << A_FINC | 1u << A_INC; if (ve.chance(50, 100)) g.rs.env["OSHMPI_AMO_OPS"] = "add,fadd,inc,finc"; } }
    else declare_ops(g, r, var);
    if (!direct && g.rs.env.count("OSHMPI_AMO_OPS") && ve.chance(70, 100)) { g.rs.prm.set("nonatomic", ve.chance(50, 100) ? 300 : 800); g.rs.prm.set("sameopnoop", 1); }
    auto & PR = g.rs.prm;
    if (id == 24) { static const long nn[] = { 1, 1, 2, 3 }; PR.set("nodes", std::min<long>(g.np, nn[r.below(4)])); PR.set("nodecyclic", (long) r.chance(40, 100)); PR.set("heapsize", 262144); g.rs.env["SHMEM_SYMMETRIC_SIZE"] = "262144"; }
    if (id == 19) { PR.set("implicitfin", ve.chance(50, 100)); if (ve.chance(40, 100)) PR.set("initarg", g.np); PR.set("fintwice", ve.chance(10, 100)); PR.set("initform", (long) ve.below(3)); }
    if (id == 22) { if (ve.chance(70, 100)) PR.set("weak", 1); if (ve.chance(40, 100)) PR.set("rendezvous", 1000); if (ve.chance(50, 100)) PR.set("eagerlimit", 0); PR.set("netmode", 1); PR.set("stall", ve.chance(50, 100) ? 10 : 0); PR.set("mpihigher", 0); }
    if (id == 3) { PR.set("latecapture", ve.chance(50, 100) ? 900 : 500); }
    if (id == 11 && ve.chance(1, 100)) PR.set("hintcheck", 1);
    if (id == 5) { PR.set("netmode", 1); }
    if (id == 15) { PR.set("mapfail", ve.chance(30, 100) ? 300 : 0); }
    if (id == 14 || id == 15) { static const long hs[] = { 4096, 8192, 10000, 20000, 65536, 70000, 131072, 262144 }; long h = hs[r.below(8)]; PR.set("heapsize", h); g.rs.env["SHMEM_SYMMETRIC_SIZE"] = h % 1024 == 0 && ve.chance(30, 100) ? std::to_string(h / 1024) + "K" : std::to_string(h); }
    if (id == 24) PR.m.erase("winskew");
    if (id == 24) { PR.set("addrtaken", ve.chance(40, 100) ? 300 : 0); PR.set("mapfail", ve.chance(30, 100) ? 300 : 0); }
    if (id == 20) {
        PR.set("mpilevel", (long) ve.below(4)); PR.set("initform", (long) ve.below(3)); PR.set("req", (long) ve.below(4)); PR.set("mpihigher", ve.chance(40, 100));
        if (ve.chance(30, 100)) PR.set("mpifirst", 1 + (long) ve.below(4));
    }
    if (id == 21) { PR.set("initform", ve.chance(50, 100) ? 1 : 0); PR.set("req", 3); if (ve.chance(60, 100)) PR.set("ticks", ve.chance(50, 100) ? 60 : 250); }
    if (id == 20) {
        bool async = var == "mtdyn" || (var == "mt" && g.rs.env["OSHMPI_ENABLE_ASYNC_THREAD"] != "0");
        if (async) { PR.set("mpilevel", 3); if (PR("mpifirst")) PR.set("mpifirst", 4); }       // the progress thread needs MPI_THREAD_MULTIPLE: documented requirement
        if (PR("initform") == 1) PR.set("req", (long) ve.below(4));
    }
    static const int bigids[] = { 1, 2, 3, 4, 5, 7, 9, 10, 14, 16, 17, 23, 24 };
    if (std::count(bigids, bigids + sizeof bigids / sizeof *bigids, id) && r.chance(id == 9 || id == 10 ? 8 : 4, 100)) {   // transfers beyond every small-message threshold
        g.big = true; PR.set("heapsize", 1 << 20); g.rs.env["SHMEM_SYMMETRIC_SIZE"] = ve.chance(50, 100) ? "1M" : "1048576";
        g.bigid = g.nextid; g.malloc_(60000 + (long) r.below(140000), 0);
    }
    if (!g.big && id != 19 && id != 20 && id != 22 && id != 24 && id != 27 && (ve.chance(3, 1000) || getenv("SIM_FORCEFAR"))) {      // more than 4 GiB of symmetric memory: offsets and sizes beyond 32 bits
        g.far = true; g.np = std::min(g.np, 4); PR.set("far", 1); PR.set("pagesz", 65536); static const long hs[] = { 7L << 30, (7L << 30) + 4096, 8L << 30, 7600000000L }; long h = hs[r.below(4)]; PR.set("heapsize", h); g.rs.env["SHMEM_SYMMETRIC_SIZE"] = std::to_string(h);
        if (PR("nodes") > g.np) PR.set("nodes", g.np);
    }
    if (((id >= 7 && id <= 14) || id == 18 || id == 22) && r.below(25) == 0) g.spins = 1;
    if (g.far && (id <= 3 || id == 9 || id == 10) && g.np > 1 && (r.chance(25, 100) || getenv("SIM_FORCEFAR"))) {      // transfers which an int cannot count
        long h = r.chance(50, 100) ? 12L << 30 : 20L << 30; PR.set("heapsize", h); g.rs.env["SHMEM_SYMMETRIC_SIZE"] = std::to_string(h); long hl = (h - (r.chance(50, 100) ? 1L << 30 : 6L << 30)) & ~15L;
        int oid = g.nextid; g.malloc_(g.objsize(), 0); g.S.back().set("hole", hl); g.holes.insert(oid);
        for (int i = r.range(1, 3); i > 0; i--) { if (id > 3) g.xcoll(id == 10, oid, hl); else g.xfer(id == 2 ? g.p(15) : g.p(85), oid, hl, g.p(35)); if (g.p(40)) g.traffic(r.range(1, 6), { 6, 3, 2, 2, 1, 0 }); }
    }
    else if (g.far) { if (r.chance(70, 100)) g.malloc_(g.objsize(), 1); g.malloc_(g.objsize(), r.chance(50, 100) ? 0 : 2); g.malloc_(g.objsize()); if (r.chance(50, 100)) g.malloc_(g.objsize()); }
    switch (id) {
        case 1: prog_rma(g, 1); break; case 2: prog_rma(g, 2); break; case 3: prog_rma(g, 3); break; case 4: prog_rma(g, 4); break; case 5: prog_order(g); break; case 6: prog_amo(g); break;
        case 7: prog_barrier(g); break; case 8: prog_sync(g); break; case 9: prog_coll(g, false); break; case 10: prog_coll(g, true); break; case 11: prog_lock(g, false); break; case 12: prog_lock(g, true); break;
        case 13: prog_p2p(g); break; case 14: prog_heap(g); break; case 15: prog_exhaust(g); break; case 16: prog_space(g, false); break; case 17: prog_space(g, true); break; case 18: prog_team(g); break;
        case 19: prog_fin(g); break; case 27: prog_exit(g); break; case 28: prog_query(g); break; case 20: if (g.p(50)) prog_mixed(g, r.range(1, 4)); else { g.traffic(r.range(1, 12), { 6, 4, 5, 3, 1, 1 }); if (g.p(50)) g.barrier_all(); g.query(); g.query(); } break;
        case 21: prog_threads(g); break; case 22: prog_mixed(g, r.range(3, 14)); break; case 23: prog_long(g); break;
        case 24: { prog_mixed(g, r.range(2, 9)); if (g.p(70)) { g.barrier_all(); g.add("snap"); if (g.p(30)) g.traffic(r.range(1, 8), { 6, 3, 4, 2, 1, 0 }); } break; }
        default: infra("no generator for %s", prop.c_str());
    }
    if (id == 20) for (int i = r.range(0, 2); i > 0; i--) g.query();
    // AM tag exhaustion: a message layer whose tag range is as small as the standard allows, and a library that has used most of it
    for (auto & s : g.S) { bool tc = (s.op == "space" && s.g("k") < 7) || s.op == "split" || s.op == "split2d" || s.op == "tdestroy", oc = s.op == "coll" || s.op == "malloc" || s.op == "free" || s.op == "realloc", sy = s.op == "barrier_all" || s.op == "barrier" || s.op == "sync_all" || s.op == "sync" || s.op == "team_sync"; if (!tc && !oc && !sy) continue; if (ve.chance(tc ? 25 : oc ? 10 : 6, 100)) s.set("late", 1 + (long) ve.below((uint32_t) g.np)).set("lt", (long) ve.below((uint32_t) g.np * 3)).set("lk", (long) (g.amomask >> A_FETCH & 1)); if (s.g("late") && id != 24 && g.spins == 1 && g.np <= 6 && ve.below(8) == 0) { s.set("spin", ve.range(300, 6000)); g.spins = 2; } }
    {   // the heap size can be written with a unit, also as a fraction of one
        std::string & v = g.rs.env["SHMEM_SYMMETRIC_SIZE"];
        if (v.find_first_not_of("0123456789") == std::string::npos && ve.chance(30, 100)) {
            static const char un[] = "KkMmGgTt"; int u = (int) ve.below(8); char b[128]; double x = (double) std::stol(v) / (double) (1ll << (10 * (u / 2 + 1))); snprintf(b, sizeof b, ve.chance(70, 100) ? "%.40g%c" : "%.40e%c", x, un[u]); v = b;
            if (!g.far && ve.chance(15, 100)) { v = ve.chance(50, 100) ? "0.1M" : "0.1m"; g.rs.prm.set("heapsize", 104858); }
        }
    }
    // threads which use an object, context or space are joined before it goes away (and before they use what takes its place)
    if (g.nt > 1) {
        std::vector<Step> o; auto join = [&] { if (o.empty() || o.back().op != "tsync") { Step t; t.op = "tsync"; o.push_back(t); } };
        for (auto & s : g.S) { long k = s.op == "space" ? s.g("k") : 0; bool reuse = k >= 1 && k <= 3; if (reuse || k == 8 || s.op == "free" || s.op == "realloc") join(); o.push_back(s); if (reuse) join(); }
        g.S.swap(o);
    }
    g.rs.prog.npes = g.np; g.rs.prog.nthreads = g.nt;
    return std::move(g.rs);
}
