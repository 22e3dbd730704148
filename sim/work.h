// Workload programs, the API they call and the reference model they are judged against.
#pragma once
#include "sim.h"
#include "simmpi.h"
#include <set>
typedef std::vector<uint8_t> Bytes;

// ---- C types of the OpenSHMEM interface, fixed here independently of the repository's tables ----
struct TI { const char *name; char k; int size; };      // k: s u f(float) d(double) l(long double) c z(complex)
extern const std::vector<TI> T_RMA, T_AMO_STD, T_AMO_EXT, T_AMO_BIT, T_P2P, T_MINMAX_ASET, T_SUMPROD_ASET, T_BIT_ASET, T_MINMAX_TEAM, T_SUMPROD_TEAM, T_BIT_TEAM;
const TI *find_type(const std::string & n);
struct V { uint8_t b[32]; V() { memset(b, 0, sizeof b); } };
V make_val(const TI & t, uint64_t seed, int small);     // a valid value of the type
enum AOp { A_FETCH, A_SET, A_SWAP, A_CSWAP, A_FINC, A_INC, A_FADD, A_ADD, A_FAND, A_AND, A_FOR, A_OR, A_FXOR, A_XOR, A_NOP };
extern const char *aop_name[A_NOP];
bool aop_fetches(int op);
V amo_apply(const TI & t, int op, const V & cur, const V & val, const V & cond);
void val_clean(const TI & t, V & v);    // clears padding
void clean_bytes(const TI & t, uint8_t *p, size_t n);
enum ROp { R_SUM, R_PROD, R_MIN, R_MAX, R_AND, R_OR, R_XOR, R_NOPS };
extern const char *rop_name[R_NOPS];
void red_apply(const TI & t, int op, uint8_t *acc, const uint8_t *in);
bool cmp_true(const TI & t, int cmp, const V & a, const V & b);         // cmp 0..5 = EQ NE GT GE LT LE
extern const int cmp_code[6];
std::string vstr(const TI & t, const V & v);
// calls through the real symbols
void call_p(void *fn, bool ctx, void *c, const TI & t, void *dst, const V & v, int pe);
V call_g(void *fn, bool ctx, void *c, const TI & t, const void *src, int pe);
V call_amo(void *fn, bool ctx, void *c, const TI & t, int op, void *dst, const V & val, const V & cond, int pe);
void call_amo_nbi(void *fn, bool ctx, void *c, const TI & t, int op, void *fetch, void *dst, const V & val, const V & cond, int pe);
void call_wait(void *fn, const TI & t, void *var, int cmp, const V & v);
int call_test(void *fn, const TI & t, void *var, int cmp, const V & v);
void call_wait_dep(void *fn, const TI & t, void *var, const V & v);

// ---- programs -----------------------------------------------------------------------------------------
struct Step {
    std::string op; std::map<std::string, long> a; std::map<std::string, std::string> s;
    long g(const char *k, long d = 0) const { auto i = a.find(k); return i == a.end() ? d : i->second; }
    std::string str(const char *k, const char *d = "") const { auto i = s.find(k); return i == s.end() ? d : i->second; }
    Step & set(const char *k, long v) { a[k] = v; return *this; }
    Step & set(const char *k, const std::string & v) { s[k] = v; return *this; }
    std::string text() const;
    static bool parse(const std::string & l, Step & out);
};
struct Program { int npes = 2, nthreads = 1; std::vector<Step> steps; };
struct RunSpec { std::string prop, variant; std::map<std::string, std::string> env; Params prm; Program prog; uint64_t choice_seed = 1; ChoiceMode cm; };
void run_program(RunSpec & rs);         // in the child; never returns normally
RunSpec generate(const std::string & prop, uint64_t seed, const std::string & variant);
// linearizability of one cell's history
struct HOp { int op; V val, cond, ret; bool hasret = false; uint64_t inv = 0, res = 0; int pe = 0, fep = 0, grp = 0; };
int lin_check(const TI & t, const V & init, const std::vector<HOp> & h, std::string & why);       // 1 ok, 0 not linearizable, -1 undecided
