// Linearizability of one variable's atomic history (Wing & Gong with memoization on done-set and value).
#include "work.h"
#include <unordered_set>
struct Key { uint64_t mask, val, hi; bool operator==(const Key & o) const { return mask == o.mask && val == o.val && hi == o.hi; } };
struct KH { size_t operator()(const Key & k) const { return (k.mask * 0x9E3779B97F4A7C15ull) ^ (k.val * 0xC2B2AE3D27D4EB4Full) ^ k.hi; } };
int lin_check(const TI & t, const V & init, const std::vector<HOp> & h, std::string & why)
{
    size_t n = h.size(); if (n == 0) return 1; if (n > 62) return -1;
    // operation i must follow j when j returned before i was invoked, or when a fence of one PE separates them
    std::vector<uint64_t> pred(n, 0);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != j) {
        if (h[j].res && h[j].res < h[i].inv) pred[i] |= 1ull << j;
        if (h[j].grp && h[j].grp == h[i].grp && h[j].fep < h[i].fep) pred[i] |= 1ull << j;
    }
    std::unordered_set<Key, KH> seen; uint64_t full = n == 64 ? ~0ull : (1ull << n) - 1; size_t budget = 400000; uint64_t best = 0;
    struct Fr { uint64_t mask; V v; size_t next; };
    std::vector<Fr> st; st.push_back({ 0, init, 0 });
    while (!st.empty()) {
        Fr & f = st.back();
        if (f.mask == full) return 1;
        if (__builtin_popcountll(f.mask) > __builtin_popcountll(best)) best = f.mask;
        bool pushed = false;
        for (size_t i = f.next; i < n; i++) {
            if (f.mask >> i & 1 || (pred[i] & ~f.mask)) continue;
            const HOp & o = h[i];
            if (o.hasret && memcmp(o.ret.b, f.v.b, (size_t) t.size)) continue;
            V nv = o.op == -1 ? f.v : amo_apply(t, o.op, f.v, o.val, o.cond);
            Key k; k.mask = f.mask | 1ull << i; memcpy(&k.val, nv.b, 8); memcpy(&k.hi, nv.b + 8, 8);
            if (!seen.insert(k).second) continue;
            if (seen.size() > budget) return -1;
            f.next = i + 1; st.push_back({ k.mask, nv, 0 }); pushed = true; break;
        }
        if (!pushed) st.pop_back();
    }
    why = "initially " + vstr(t, init) + ";";
    for (size_t i = 0; i < n && why.size() < 1200; i++) {
        why += " [" + std::to_string(h[i].inv) + "," + (h[i].res ? std::to_string(h[i].res) : std::string("-")) + "] pe" + std::to_string(h[i].pe) + " " + (h[i].op == -1 ? "observed" : aop_name[h[i].op]);
        if (h[i].op == A_CSWAP) why += "(if " + vstr(t, h[i].cond) + " then " + vstr(t, h[i].val) + ")";
        else if (h[i].op >= 0 && h[i].op != A_FETCH && h[i].op != A_INC && h[i].op != A_FINC) why += "(" + vstr(t, h[i].val) + ")";
        if (h[i].hasret) why += "=" + vstr(t, h[i].ret);
        if (!(best >> i & 1)) why += "*";
        why += ";";
    }
    return 0;
}
