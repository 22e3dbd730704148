#include "work.h"
#include <complex.h>
#undef I
#define B24 {"float",'f',4},{"double",'d',8},{"longdouble",'l',16},{"char",'s',1},{"schar",'s',1},{"short",'s',2},{"int",'s',4},{"long",'s',8},{"longlong",'s',8},\
    {"uchar",'u',1},{"ushort",'u',2},{"uint",'u',4},{"ulong",'u',8},{"ulonglong",'u',8},{"int8",'s',1},{"int16",'s',2},{"int32",'s',4},{"int64",'s',8},\
    {"uint8",'u',1},{"uint16",'u',2},{"uint32",'u',4},{"uint64",'u',8},{"size",'u',8},{"ptrdiff",'s',8}
#define I12 {"int",'s',4},{"long",'s',8},{"longlong",'s',8},{"uint",'u',4},{"ulong",'u',8},{"ulonglong",'u',8},{"int32",'s',4},{"int64",'s',8},{"uint32",'u',4},{"uint64",'u',8},{"size",'u',8},{"ptrdiff",'s',8}
const std::vector<TI> T_RMA = { B24 }, T_AMO_STD = { I12 }, T_AMO_EXT = { {"float",'f',4},{"double",'d',8}, I12 },
    T_AMO_BIT = { {"uint",'u',4},{"ulong",'u',8},{"ulonglong",'u',8},{"int32",'s',4},{"int64",'s',8},{"uint32",'u',4},{"uint64",'u',8} },
    T_P2P = { {"short",'s',2},{"ushort",'u',2}, I12 },
    T_MINMAX_ASET = { {"short",'s',2},{"int",'s',4},{"double",'d',8},{"float",'f',4},{"long",'s',8},{"longdouble",'l',16},{"longlong",'s',8} },
    T_SUMPROD_ASET = { {"complexd",'z',16},{"complexf",'c',8},{"short",'s',2},{"int",'s',4},{"double",'d',8},{"float",'f',4},{"long",'s',8},{"longdouble",'l',16},{"longlong",'s',8} },
    T_BIT_ASET = { {"short",'s',2},{"int",'s',4},{"long",'s',8},{"longlong",'s',8} },
    T_MINMAX_TEAM = { B24 }, T_SUMPROD_TEAM = { B24, {"complexd",'z',16},{"complexf",'c',8} },
    T_BIT_TEAM = { {"uchar",'u',1},{"ushort",'u',2},{"uint",'u',4},{"ulong",'u',8},{"ulonglong",'u',8},{"int8",'s',1},{"int16",'s',2},{"int32",'s',4},{"int64",'s',8},{"uint8",'u',1},{"uint16",'u',2},{"uint32",'u',4},{"uint64",'u',8},{"size",'u',8} };
const TI *find_type(const std::string & n) { for (auto & t : T_SUMPROD_TEAM) if (n == t.name) return &t; infra("type %s", n.c_str()); return nullptr; }
const char *aop_name[A_NOP] = { "fetch", "set", "swap", "compare_swap", "fetch_inc", "inc", "fetch_add", "add", "fetch_and", "and", "fetch_or", "or", "fetch_xor", "xor" };
const char *rop_name[R_NOPS] = { "sum", "prod", "min", "max", "and", "or", "xor" };
const int cmp_code[6] = { 0x100001, 0x100002, 0x100003, 0x100004, 0x100005, 0x100006 };
bool aop_fetches(int op) { return op == A_FETCH || op == A_SWAP || op == A_CSWAP || op == A_FINC || op == A_FADD || op == A_FAND || op == A_FOR || op == A_FXOR; }

// dispatch on the C type
template <class F> static void with_int(char k, int sz, F f)
{
    if (k == 's') { if (sz == 1) f((int8_t) 0); else if (sz == 2) f((int16_t) 0); else if (sz == 4) f((int32_t) 0); else f((int64_t) 0); }
    else { if (sz == 1) f((uint8_t) 0); else if (sz == 2) f((uint16_t) 0); else if (sz == 4) f((uint32_t) 0); else f((uint64_t) 0); }
}
template <class F> static void with_num(const TI & t, F f)
{
    if (t.k == 'f') f((float) 0); else if (t.k == 'd') f((double) 0); else if (t.k == 'l') f((long double) 0); else with_int(t.k, t.size, f);
}
template <class T> static T get(const V & v) { T x; memcpy(&x, v.b, sizeof x); return x; }
template <class T> static V mkv(T x) { V v; memcpy(v.b, &x, sizeof x); return v; }
void val_clean(const TI & t, V & v) { if (t.k == 'l') memset(v.b + 10, 0, 6); }
void clean_bytes(const TI & t, uint8_t *p, size_t n) { if (t.k == 'l') for (size_t i = 0; i + 16 <= n; i += 16) memset(p + i + 10, 0, 6); }
V make_val(const TI & t, uint64_t seed, int small)
{
    Rng r; r.seed(seed); V v;
    if (t.k == 'c') { float _Complex z; float a = (float) r.range(-4, 4), b = (float) r.range(-4, 4); memcpy(&z, &a, 4); memcpy((char *) &z + 4, &b, 4); memcpy(v.b, &z, 8); return v; }
    if (t.k == 'z') { double a = r.range(-4, 4), b = r.range(-4, 4); memcpy(v.b, &a, 8); memcpy(v.b + 8, &b, 8); return v; }
    with_num(t, [&](auto z) {
        typedef decltype(z) T; T x;
        if (t.k == 'f' || t.k == 'd' || t.k == 'l') x = (T) (small ? r.range(-small, small) : (int) (r.next() & 0xfffff) - 0x80000);
        else if (small) x = (T) r.range(t.k == 'u' ? 0 : -small, small);
        else x = (T) r.next();
        v = mkv<T>(x); });
    val_clean(t, v);
    return v;
}
V amo_apply(const TI & t, int op, const V & cur, const V & val, const V & cond)
{
    V out = cur;
    if (t.k == 'f' || t.k == 'd') { if (op == A_SET || op == A_SWAP) out = val; return out; }
    with_int(t.k, t.size, [&](auto z) {
        typedef decltype(z) T; typedef typename std::make_unsigned<T>::type U;
        U c = (U) get<T>(cur), v = (U) get<T>(val), r = c;
        switch (op) {
            case A_FETCH: break; case A_SET: case A_SWAP: r = v; break; case A_CSWAP: if (get<T>(cur) == get<T>(cond)) r = v; break;
            case A_FINC: case A_INC: r = (U) (c + 1); break; case A_FADD: case A_ADD: r = (U) (c + v); break;
            case A_FAND: case A_AND: r = (U) (c & v); break; case A_FOR: case A_OR: r = (U) (c | v); break; case A_FXOR: case A_XOR: r = (U) (c ^ v); break;
        }
        out = mkv<U>(r); });
    return out;
}
template <class T> static void red1(int op, T *a, T b)
{
    switch (op) { case R_SUM: *a = (T) (*a + b); break; case R_PROD: *a = (T) (*a * b); break; case R_MIN: if (b < *a) *a = b; break; case R_MAX: if (b > *a) *a = b; break; default: break; }
}
void red_apply(const TI & t, int op, uint8_t *acc, const uint8_t *in)
{
    if (t.k == 'c') { float _Complex a, b; memcpy(&a, acc, 8); memcpy(&b, in, 8); a = op == R_SUM ? a + b : a * b; memcpy(acc, &a, 8); return; }
    if (t.k == 'z') { double _Complex a, b; memcpy(&a, acc, 16); memcpy(&b, in, 16); a = op == R_SUM ? a + b : a * b; memcpy(acc, &a, 16); return; }
    if (t.k == 'f') { float a, b; memcpy(&a, acc, 4); memcpy(&b, in, 4); red1(op, &a, b); memcpy(acc, &a, 4); return; }
    if (t.k == 'd') { double a, b; memcpy(&a, acc, 8); memcpy(&b, in, 8); red1(op, &a, b); memcpy(acc, &a, 8); return; }
    if (t.k == 'l') { long double a, b; memcpy(&a, acc, 16); memcpy(&b, in, 16); red1(op, &a, b); memcpy(acc, &a, 10); memset(acc + 10, 0, 6); return; }
    with_int(t.k, t.size, [&](auto z) {
        typedef decltype(z) T; typedef typename std::make_unsigned<T>::type U; T a, b; memcpy(&a, acc, sizeof a); memcpy(&b, in, sizeof b);
        switch (op) {
            case R_SUM: a = (T) (U) ((U) a + (U) b); break; case R_PROD: a = (T) (U) ((uint64_t) (U) a * (uint64_t) (U) b); break;
            case R_MIN: if (b < a) a = b; break; case R_MAX: if (b > a) a = b; break;
            case R_AND: a = (T) (a & b); break; case R_OR: a = (T) (a | b); break; case R_XOR: a = (T) (a ^ b); break;
        }
        memcpy(acc, &a, sizeof a); });
}
bool cmp_true(const TI & t, int cmp, const V & a, const V & b)
{
    bool r = false;
    with_num(t, [&](auto z) { typedef decltype(z) T; T x = get<T>(a), y = get<T>(b);
        switch (cmp) { case 0: r = x == y; break; case 1: r = x != y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; } });
    return r;
}
std::string vstr(const TI & t, const V & v)
{
    char b[64];
    if (t.k == 'f') snprintf(b, sizeof b, "%g", (double) get<float>(v)); else if (t.k == 'd') snprintf(b, sizeof b, "%g", get<double>(v)); else if (t.k == 'l') snprintf(b, sizeof b, "%Lg", get<long double>(v));
    else if (t.k == 's' || t.k == 'u') { b[0] = 0; with_int(t.k, t.size, [&](auto z) { typedef decltype(z) T; if (t.k == 's') snprintf(b, sizeof b, "%lld", (long long) get<T>(v)); else snprintf(b, sizeof b, "%llu", (unsigned long long) get<T>(v)); }); }
    else snprintf(b, sizeof b, "(complex)");
    return b;
}
void call_p(void *fn, bool ctx, void *c, const TI & t, void *dst, const V & v, int pe)
{
    with_num(t, [&](auto z) { typedef decltype(z) T; if (ctx) ((void (*)(void *, T *, T, int)) fn)(c, (T *) dst, get<T>(v), pe); else ((void (*)(T *, T, int)) fn)((T *) dst, get<T>(v), pe); });
}
V call_g(void *fn, bool ctx, void *c, const TI & t, const void *src, int pe)
{
    V o; with_num(t, [&](auto z) { typedef decltype(z) T; T r = ctx ? ((T (*)(void *, const T *, int)) fn)(c, (const T *) src, pe) : ((T (*)(const T *, int)) fn)((const T *) src, pe); o = mkv<T>(r); });
    val_clean(t, o); return o;
}
V call_amo(void *fn, bool ctx, void *c, const TI & t, int op, void *dst, const V & val, const V & cond, int pe)
{
    V o;
    with_num(t, [&](auto z) {
        typedef decltype(z) T; T *d = (T *) dst; T r = 0, v = get<T>(val), k = get<T>(cond);
        switch (op) {
            case A_FETCH: case A_FINC: r = ctx ? ((T (*)(void *, T *, int)) fn)(c, d, pe) : ((T (*)(T *, int)) fn)(d, pe); break;
            case A_INC: if (ctx) ((void (*)(void *, T *, int)) fn)(c, d, pe); else ((void (*)(T *, int)) fn)(d, pe); break;
            case A_CSWAP: r = ctx ? ((T (*)(void *, T *, T, T, int)) fn)(c, d, k, v, pe) : ((T (*)(T *, T, T, int)) fn)(d, k, v, pe); break;
            case A_SET: case A_ADD: case A_AND: case A_OR: case A_XOR: if (ctx) ((void (*)(void *, T *, T, int)) fn)(c, d, v, pe); else ((void (*)(T *, T, int)) fn)(d, v, pe); break;
            default: r = ctx ? ((T (*)(void *, T *, T, int)) fn)(c, d, v, pe) : ((T (*)(T *, T, int)) fn)(d, v, pe);
        }
        o = mkv<T>(r); });
    return o;
}
void call_amo_nbi(void *fn, bool ctx, void *c, const TI & t, int op, void *fetch, void *dst, const V & val, const V & cond, int pe)
{
    with_num(t, [&](auto z) {
        typedef decltype(z) T; T *d = (T *) dst, *f = (T *) fetch; T v = get<T>(val), k = get<T>(cond);
        switch (op) {
            case A_FETCH: case A_FINC: if (ctx) ((void (*)(void *, T *, T *, int)) fn)(c, f, d, pe); else ((void (*)(T *, T *, int)) fn)(f, d, pe); break;
            case A_CSWAP: if (ctx) ((void (*)(void *, T *, T *, T, T, int)) fn)(c, f, d, k, v, pe); else ((void (*)(T *, T *, T, T, int)) fn)(f, d, k, v, pe); break;
            default: if (ctx) ((void (*)(void *, T *, T *, T, int)) fn)(c, f, d, v, pe); else ((void (*)(T *, T *, T, int)) fn)(f, d, v, pe);
        } });
}
void call_wait(void *fn, const TI & t, void *var, int cmp, const V & v) { with_num(t, [&](auto z) { typedef decltype(z) T; ((void (*)(T *, int, T)) fn)((T *) var, cmp_code[cmp], get<T>(v)); }); }
int call_test(void *fn, const TI & t, void *var, int cmp, const V & v) { int r = 0; with_num(t, [&](auto z) { typedef decltype(z) T; r = ((int (*)(T *, int, T)) fn)((T *) var, cmp_code[cmp], get<T>(v)); }); return r; }
void call_wait_dep(void *fn, const TI & t, void *var, const V & v) { with_num(t, [&](auto z) { typedef decltype(z) T; ((void (*)(T *, T)) fn)((T *) var, get<T>(v)); }); }
