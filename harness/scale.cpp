// The models of C01, C04, C09-C16 and C19 again, at sizes the short histories never reach: a few bulk operations
// over thousands to hundreds of thousands of elements, against a directly addressed array.
#include "types.hpp"
#include <gtl/bit_vector.hpp>
#include <gtl/btree.hpp>
#include <gtl/lru_cache.hpp>
#include <gtl/memoize.hpp>
#include <gtl/phmap.hpp>
#include <gtl/phmap_dump.hpp>
#include <gtl/soa.hpp>
#include <gtl/vector.hpp>
#include <algorithm>
#include <cmath>
#include <deque>
#include <list>
#include <mutex>
#include <numeric>
using namespace pbt;
#ifndef CFG
    #define CFG 0
#endif
enum { cBig, cElems, cLookups, cOpsDone };
static const char* counters[] = { "cases_over_20000_elements", "elements_compared", "lookups", "bulk_operations", nullptr };
const char* const* pbt_counter_names = counters;
const char*        pbt_rule = "A case is a few bulk operations (fills in several orders, mass erasures, copies, moves, range operations, merges) over one or two containers of 1,000 to 260,000 elements, compared completely with a "
                              "directly addressed model after each; non-trivial: a container held more than 5,000 elements";
static u32 order(u32 pat, u32 q, u32 n) { // the q-th of n positions, in one of several orders
    switch (pat % 4) {
        case 0: return q;
        case 1: return n - 1 - q;
        case 2: return (u32)((u64)q * 2654435761u % n);
        default: return (q & 1) ? n - 1 - q / 2 : q / 2;
    }
}
static u32 g_n; // universe / size scale of the case
void pbt_gen(Rng& r, Case& c) {
    constexpr bool slow = CFG == 1 || CFG == 11 || CFG == 21 || CFG == 26 || CFG == 31 || CFG == 70; // strings
    u32 lg = r.range(10, slow ? 14 : CFG >= 30 && CFG < 50 ? 18 : 17);
    c.cfg  = { (1u << lg) + r.below(1u << lg) + (r.chance(1, 4) ? r.range(0, 4) : 0) };
    u32 len = r.range(2, 9);
    for (u32 i = 0; i < len; ++i)
        c.ops.push_back({ i == 0 ? 0u : CFG < 20 && r.chance(1, 5) ? (u32)pbt_num_ops - 1 : r.below(pbt_num_ops), r.u() >> 2, r.chance(1, 2) ? r.u() >> 2 : c.cfg[0] - 1 - r.below(4), r.u() >> 2, r.below(64) });
}

#if CFG < 30
enum { oFill, oErase, oItEr, oCopy, oMove, oSwap, oReserve, oClear, oMerge, oExtract, oRange, oFill2, oErase2, oChurn, oN };
static const char* names[] = { "fill", "erase_run", "erase_iterating", "copy", "move", "swap", "reserve", "clear", "merge", "extract", "range_construct", "fill_other", "erase_most", "churn" };
using Mu = std::mutex;
template<class K, bool Map_, bool Uni, bool Hash_, class C_> struct Cfg_ { using K_ = K; using C = C_; static constexpr bool M = Map_, U = Uni, H = Hash_; };
#if CFG == 0
using G = Cfg_<int, true, true, true, gtl::flat_hash_map<int, int>>;
#elif CFG == 1
using G = Cfg_<std::string, false, true, true, gtl::node_hash_set<std::string>>;
#elif CFG == 2
struct Wide { size_t operator()(long k) const { return (size_t)k; } };
using G = Cfg_<long, false, true, true, gtl::flat_hash_set<long, Wide>>;
#elif CFG == 10
using G = Cfg_<int, true, true, true, gtl::parallel_flat_hash_map<int, int, gtl::Hash<int>, std::equal_to<int>, std::allocator<std::pair<const int, int>>, 4, Mu>>;
#elif CFG == 11
using G = Cfg_<std::string, true, true, true, gtl::parallel_node_hash_map<std::string, int, gtl::Hash<std::string>, std::equal_to<std::string>, std::allocator<std::pair<const std::string, int>>, 2>>;
#elif CFG == 20
using G = Cfg_<int, true, true, false, gtl::btree_map<int, int>>;
#elif CFG == 21
using G = Cfg_<std::string, false, true, false, gtl::btree_set<std::string>>;
#elif CFG == 22
using G = Cfg_<short, false, true, false, gtl::btree_set<short>>; // the largest nodes
#elif CFG == 25
using G = Cfg_<int, true, false, false, gtl::btree_multimap<int, int>>;
#elif CFG == 26
using G = Cfg_<std::string, false, false, false, gtl::btree_multiset<std::string>>;
#endif
using K = G::K_;
using C = G::C;
static constexpr bool M = G::M, U = G::U, HASH = G::H;
#if CFG == 2
static K mk(int i) { return (long)i << 12; }
static int un(const K& k) { return (int)(k >> 12); }
#else
static K mk(int i) { return Conv<K>::mk(i); }
static int un(const K& k) { return Conv<K>::un(k); }
#endif
template<class E> static const K& keyr(const E& e) { if constexpr (M) return e.first; else return e; }
template<class E> static int valof(const E& e) { if constexpr (M) return e.second; else return 0; }
static auto mkval(int k, int v) { if constexpr (M) return std::pair<K, int>(mk(k), v); else return mk(k); }
struct Mod { // unique: the value, or -1; multi: how many
    std::vector<int> v;
    size_t           n = 0;
    explicit Mod(u32 N) : v(N, U ? -1 : 0) {}
    bool has(int k) const { return U ? v[k] >= 0 : v[k] > 0; }
    bool ins(int k, int val) { if (U) { if (v[k] >= 0) return false; v[k] = val; } else ++v[k]; ++n; return true; }
    size_t er(int k) { size_t r = U ? v[k] >= 0 : v[k]; v[k] = U ? -1 : 0; n -= r; return r; }
    void clear() { std::fill(v.begin(), v.end(), U ? -1 : 0); n = 0; }
};
static bool g_big;
template<class C>
static void full(C& x, const Mod& m) {
    const C& cx = x;
    PBT_EQ(cx.size(), m.n);
    PBT_EQ(cx.empty(), m.n == 0);
#ifdef LOAD
    size_t cap = cx.capacity();
    PBT_CHECK(cap < 15 || m.n <= cap - cap / 8, "%zu elements in %zu buckets exceed the 7/8 maximum fill", m.n, cap);
#endif
    if (m.n > 5000) g_big = true;
    if (m.n > 20000) note(cBig);
    std::vector<int> seen(m.v.size(), 0);
    size_t cnt = 0;
    int prev = -1; const K* pk = nullptr;
    for (auto it = cx.begin(); it != cx.end(); ++it) {
        int k = un(keyr(*it));
        PBT_CHECK(k >= 0 && (size_t)k < m.v.size() && m.has(k), "the walk meets element %d, which is not in the container", k);
        ++seen[k];
        PBT_CHECK(seen[k] <= (U ? 1 : m.v[k]), "the walk meets key %d %d times", k, seen[k]);
        if (M && U) PBT_CHECK(valof(*it) == m.v[k], "key %d holds %d, expected %d", k, valof(*it), m.v[k]);
        if (!HASH && pk) { PBT_CHECK(U ? *pk < keyr(*it) : !(keyr(*it) < *pk), "the walk is out of order at key %d after %d", k, prev); }
        prev = k; pk = &keyr(*it);
        PBT_CHECK(++cnt <= m.n, "the walk does not end after %zu elements", m.n);
    }
    PBT_CHECK(cnt == m.n, "the walk meets %zu of %zu elements", cnt, m.n);
    note(cElems, cnt);
    for (u32 k = 0; k < m.v.size(); ++k) {
        K key = mk((int)k);
        auto it = cx.find(key);
        bool in = m.has((int)k);
        PBT_CHECK((it != cx.end()) == in, "find(%u) %s among %zu elements", k, in ? "misses a present key" : "meets an absent key", m.n);
        if (in) PBT_REQUIRE(un(keyr(*it)) == (int)k);
        if ((k & 7) == 0) { PBT_EQ(cx.contains(key), in); PBT_EQ((size_t)cx.count(key), (size_t)(U ? in : m.v[k])); }
    }
    note(cLookups, m.v.size());
    if constexpr (!HASH) { // order queries and the reverse walk
        std::vector<std::pair<K, u32>> keys; u32 rank = 0;
        for (u32 k = 0; k < m.v.size(); ++k) if (m.has((int)k)) keys.emplace_back(mk((int)k), U ? 1 : m.v[k]);
        std::sort(keys.begin(), keys.end());
        (void)rank;
        for (u32 q = 0; q < 500; ++q) {
            K key = mk((int)(mix64(q + m.n) % m.v.size()));
            auto lo = std::lower_bound(keys.begin(), keys.end(), key, [](auto& a, const K& b) { return a.first < b; });
            auto it = cx.lower_bound(key);
            PBT_CHECK((it == cx.end()) == (lo == keys.end()) && (lo == keys.end() || keyr(*it) == lo->first), "lower_bound of key %d among %zu elements is wrong", un(key), m.n);
            auto up = lo; if (up != keys.end() && up->first == key) ++up;
            it = cx.upper_bound(key);
            PBT_CHECK((it == cx.end()) == (up == keys.end()) && (up == keys.end() || keyr(*it) == up->first), "upper_bound of key %d among %zu elements is wrong", un(key), m.n);
            auto er = cx.equal_range(key);
            PBT_EQ((size_t)std::distance(er.first, er.second), (size_t)(up != lo ? lo->second : 0));
        }
        size_t c2 = 0;
        for (auto it = cx.end(); it != cx.begin();) { --it; PBT_CHECK(++c2 <= m.n, "the backward walk does not end"); }
        PBT_EQ(c2, m.n);
    }
}
template<class C>
static void run(const Case& cs, Ctx& ctx) {
    u32 N = std::max(8u, cs.c(0)); if (CFG == 22) N = std::min(N, 32760u);
    if (N > 262144 + 8) N = 262144 + 8;
    g_big = false;
    C   x[2];
    Mod m[2] = { Mod(N), Mod(N) };
    int stamp = 0;
    for (size_t q = 0; q < cs.ops.size(); ++q) {
        ctx.opno = (int)q;
        const Op& o = cs.ops[q];
        int i = o.d & 1, j = 1 - i;
        if (o.code % oN == oFill2) i = 1, j = 0;
        C& c = x[i]; Mod& md = m[i];
        u32 n = o.b % N + 1, at = o.a % N;
        u32 pat = o.d >> 1;
        note(cOpsDone);
        switch (o.code % oN) {
            case oFill: case oFill2:
                for (u32 k = 0; k < n; ++k) {
                    int kk = (int)((at + order(pat, k, n)) % N), v = ++stamp & 0xffff;
                    bool fresh = !md.has(kk);
                    if constexpr (U) {
                        if (k % 3 == 0) { if constexpr (M) { if (k % 2) c[mk(kk)] = v, md.v[kk] = fresh ? md.v[kk] : v; else { auto r = c.try_emplace(mk(kk), v); PBT_EQ(r.second, fresh); } } else { auto r = c.emplace(mk(kk)); PBT_EQ(r.second, fresh); } }
                        else { auto r = c.insert(mkval(kk, v)); PBT_CHECK(r.second == fresh && un(keyr(*r.first)) == kk, "insertion of %s key %d into %zu elements reports %d", fresh ? "absent" : "present", kk, md.n, (int)r.second); }
                    } else { auto it = c.insert(mkval(kk, v)); PBT_REQUIRE(un(keyr(*it)) == kk); }
                    md.ins(kk, M ? v : 0);
                }
                break;
            case oErase: case oErase2: {
                u32 e = o.code % oN == oErase2 ? N - N / 16 : n;
                for (u32 k = 0; k < e; ++k) { int kk = (int)((at + order(pat, k, e)) % N); size_t w = md.er(kk), g = c.erase(mk(kk)); PBT_CHECK(w == g, "erase(%d) among %zu elements returned %zu, expected %zu", kk, md.n + w, g, w); }
                break;
            }
            case oChurn: { // a sliding window: the population stays, deleted slots pile up
                u32 w = (u32)std::max<u64>(2, (u64)N * (o.c % 7 + 1) / 10);
                if (U) { c.clear(); md.clear(); for (u32 k = 0; k < w; ++k) { int kk = (int)((at + k) % N); c.insert(mkval(kk, 1)); md.ins(kk, M ? 1 : 0); } }
                for (u32 k = 0; k < N + n; ++k) {
                    int a = (int)((at + k) % N), b = (int)(((u64)at + k + w) % N);
                    size_t e = md.er(a), g = c.erase(mk(a)); PBT_CHECK(e == g, "erase(%d) among %zu elements returned %zu, expected %zu", a, md.n + e, g, e);
                    c.insert(mkval(b, 2)); md.ins(b, M ? 2 : 0);
                }
                break;
            }
            case oItEr: {
                u32 d = 2 + o.c % 5, vis = 0; size_t n0 = md.n;
                if (!U) for (u32 k = 0; k < N; k += 1) if (k % d == 0) md.er((int)k);
                for (auto it = c.begin(); it != c.end();) {
                    int kk = un(keyr(*it)); PBT_CHECK(++vis <= n0, "erase-while-iterating does not end");
                    if (kk % d == 0) { it = c.erase(it); if (U) md.er(kk); } else ++it;
                }
                PBT_EQ((size_t)vis, n0);
                break;
            }
            case oCopy: if (o.c & 1) x[j] = c; else { C t(c); PBT_REQUIRE(t == c); x[j].swap(t); } m[j] = md; PBT_REQUIRE(x[j] == c); full(x[j], m[j]); break;
            case oMove: if (o.c & 1) x[j] = std::move(c); else { C t(std::move(c)); x[j].swap(t); } c = C(); m[j] = md; md.clear(); full(x[j], m[j]); break;
            case oSwap: x[0].swap(x[1]); std::swap(m[0], m[1]); full(x[j], m[j]); break;
            case oReserve: if constexpr (HASH) { if (o.c % 3 == 0) c.rehash(0); else if (o.c % 3 == 1) c.reserve(n); else c.rehash(n * 2); PBT_REQUIRE(c.capacity() >= md.n); } break;
            case oClear: if (o.c % 3 == 0) { c.clear(); md.clear(); PBT_REQUIRE(c.begin() == c.end()); } break;
            case oMerge:
                if constexpr (requires { c.merge(x[j]); }) {
                    c.merge(x[j]);
                    for (u32 k = 0; k < N; ++k) { if (U) { if (m[j].v[k] >= 0 && md.v[k] < 0) { md.ins((int)k, m[j].v[k]); m[j].er((int)k); } } else { md.v[k] += m[j].v[k]; md.n += m[j].v[k]; m[j].er((int)k); } }
                    full(x[j], m[j]);
                }
                break;
            case oExtract:
                if constexpr (requires { c.extract(mk(0)); }) {
                    for (u32 k = 0; k < std::min(n, 2000u); ++k) {
                        int kk = (int)((at + order(2, k, N)) % N);
                        auto nh = c.extract(mk(kk));
                        PBT_CHECK(nh.empty() == !md.has(kk), "extract(%d) %s", kk, nh.empty() ? "misses a present key" : "gives an absent key");
                        if (nh.empty()) continue;
                        int v = md.v[kk];
                        if (U) md.er(kk); else { --md.v[kk]; --md.n; }
                        auto r = x[j].insert(std::move(nh));
                        if (U ? !m[j].has(kk) : true) m[j].ins(kk, v);
                    }
                    full(x[j], m[j]);
                }
                break;
            case oRange: {
                std::vector<std::decay_t<decltype(mkval(0, 0))>> src;
                for (u32 k = 0; k < n; ++k) src.push_back(mkval((int)((at + order(pat, k, n)) % N), (int)(k & 0xffff)));
                if (o.c & 1) { C t(src.begin(), src.end()); c = std::move(t); md.clear(); } else c.insert(src.begin(), src.end());
                for (u32 k = 0; k < n; ++k) md.ins((int)((at + order(pat, k, n)) % N), M ? (int)(k & 0xffff) : 0);
                break;
            }
        }
        full(c, md);
        if (HASH && md.n == 0) PBT_REQUIRE(c.begin() == c.end());
    }
    ctx.nontrivial = g_big;
}
void pbt_run(const Case& cs, Ctx& ctx) { run<C>(cs, ctx); }
#elif CFG < 40
// ---- vector ------------------------------------------------------------------------------------
enum { oPush, oPop, oInsN, oInsR, oErR, oRes, oRsv, oShr, oCopy, oMove, oAsg, oSelf, oClr, oN };
static const char* names[] = { "push_run", "pop_run", "insert_n", "insert_range", "erase_range", "resize", "reserve", "shrink", "copy", "move", "assign", "push_self", "clear" };
#if CFG == 30
using E = int;
#elif CFG == 31
using E = std::string;
#elif CFG == 32
using E = Big;
#elif CFG == 33
using E = TK;
#endif
using V = gtl::vector<E>;
static E mk(int i) { return Conv<E>::mk(i); }
static int un(const E& e) { return Conv<E>::un(e); }
static bool g_big;
static void full(const V& x, const std::vector<int>& m) {
    PBT_EQ(x.size(), m.size()); PBT_REQUIRE(x.capacity() >= x.size()); PBT_EQ((size_t)(x.end() - x.begin()), m.size());
    for (size_t q = 0; q < m.size(); ++q) PBT_CHECK(un(x[q]) == m[q], "element %zu of %zu is %d, expected %d", q, m.size(), un(x[q]), m[q]);
    note(cElems, m.size()); if (m.size() > 5000) g_big = true; if (m.size() > 20000) note(cBig);
}
void pbt_run(const Case& cs, Ctx& ctx) {
    u32 N = std::max(8u, cs.c(0)); if (N > 524300) N = 524300;
    g_big = false;
    V x[2]; std::vector<int> m[2];
    int stamp = 0;
    for (size_t q = 0; q < cs.ops.size(); ++q) {
        ctx.opno = (int)q;
        const Op& o = cs.ops[q];
        int i = o.d & 1, j = 1 - i;
        V& c = x[i]; auto& md = m[i];
        size_t sz = md.size(), n = o.b % N + 1, p = o.a % (sz + 1);
        bool room = sz + n < 2ull * N + 10;
        size_t cap0 = c.capacity();
        note(cOpsDone);
        switch (o.code % oN) {
            case oPush: if (room) { // amortised constant: reallocations grow with the logarithm
                size_t re = 0, cap = cap0;
                for (size_t k = 0; k < n; ++k) { int v = ++stamp & 0xffff; if (k % 2) c.push_back(mk(v)); else c.emplace_back(mk(v)); md.push_back(v); if (c.capacity() != cap) { ++re; cap = c.capacity(); } }
                double lim = 10 + std::log((double)(sz + n) / std::max<size_t>(1, cap0) + 1) / std::log(1.45);
                PBT_CHECK((double)re <= lim, "%zu push_back from capacity %zu made %zu reallocations: not amortised constant", n, cap0, re);
                break; }
                break;
            case oPop: for (size_t k = 0; k < n && !md.empty(); ++k) { c.pop_back(); md.pop_back(); } break;
            case oInsN: if (room) { int v = ++stamp & 0xffff; auto it = c.insert(c.begin() + p, n, mk(v)); PBT_REQUIRE((size_t)(it - c.begin()) == p); md.insert(md.begin() + p, n, v); } break;
            case oInsR: if (room) { std::vector<int> a; std::vector<E> e; for (size_t k = 0; k < n; ++k) { int v = ++stamp & 0xffff; a.push_back(v); e.push_back(mk(v)); }
                decltype(c.begin()) it; if (o.c & 1) it = c.insert(c.begin() + p, e.begin(), e.end()); else { std::list<E> l(e.begin(), e.end()); it = c.insert(c.begin() + p, l.begin(), l.end()); }
                PBT_REQUIRE((size_t)(it - c.begin()) == p); md.insert(md.begin() + p, a.begin(), a.end()); break; }
                break;
            case oErR: { size_t k = std::min(n, sz - p); auto it = c.erase(c.begin() + p, c.begin() + p + k); PBT_REQUIRE((size_t)(it - c.begin()) == p); md.erase(md.begin() + p, md.begin() + p + k); break; }
            case oRes: { int v = ++stamp & 0xffff; if (o.c & 1) { c.resize(n, mk(v)); md.resize(n, v); } else { c.resize(n, mk(0)); md.resize(n, 0); } break; }
            case oRsv: { c.reserve(n); PBT_REQUIRE(c.capacity() >= n && c.capacity() >= cap0); auto* d = c.data(); size_t k = 0; while (md.size() < n && ++k < 100) { c.push_back(mk(7)); md.push_back(7); } if (sz < n) PBT_CHECK(c.data() == d, "reserve(%zu) did not prevent a reallocation", n); break; }
            case oShr: c.shrink_to_fit(); PBT_REQUIRE(c.capacity() >= sz && c.capacity() <= cap0); break;
            case oCopy: if (o.c & 1) x[j] = c; else { V t(c); PBT_REQUIRE(t == c); x[j].swap(t); } m[j] = md; full(x[j], m[j]); break;
            case oMove: x[j] = std::move(c); c = V(); m[j] = md; md.clear(); full(x[j], m[j]); break;
            case oAsg: { int v = ++stamp & 0xffff; if (o.c & 1) { c.assign(n, mk(v)); md.assign(n, v); } else { std::vector<E> e; md.clear(); for (size_t k = 0; k < n; ++k) { e.push_back(mk((int)k & 0xfff)); md.push_back((int)k & 0xfff); } c.assign(e.begin(), e.end()); } break; }
            case oSelf: if (sz) { // the argument lies in the storage that is being replaced
                while (c.size() < c.capacity() && c.size() < 2ull * N) { c.push_back(mk(3)); md.push_back(3); }
                p %= md.size(); int v = md[p];
                if (o.c & 1) { c.push_back(c[p]); md.push_back(v); } else { size_t at = (o.a / 3) % md.size(); c.insert(c.begin() + at, c[p]); md.insert(md.begin() + at, v); }
                break; }
                break;
            case oClr: if (o.c % 3 == 0) { c.clear(); md.clear(); PBT_EQ(c.capacity(), cap0); } break;
        }
        full(c, md);
    }
    ctx.nontrivial = g_big;
}
#elif CFG < 50
// ---- bit_vector and views of it ------------------------------------------------------------------
enum { oSet, oReset, oFlip, oRand, oShl, oShr, oAnd, oOr, oXor, oSub, oOrNot, oCopy, oResize, oSparse, oWalk, oN };
static const char* names[] = { "set", "reset", "flip", "random", "shift_left", "shift_right", "and", "or", "xor", "and_not", "or_not", "copy", "resize", "sparse", "walk" };
using B = std::vector<uint8_t>;
using BV = gtl::bit_vector;
static void full(const BV& x, const B& m) {
    PBT_EQ(x.size(), m.size());
    size_t c = 0, first = (size_t)-1;
    for (size_t q = 0; q < m.size(); ++q) { PBT_CHECK(x[q] == (bool)m[q], "bit %zu of %zu is %d", q, m.size(), (int)x[q]); if (m[q]) { if (!c) first = q; ++c; } }
    PBT_CHECK(x.count() == c, "count() of %zu bits is %zu, expected %zu", m.size(), x.count(), c);
    PBT_EQ(x.any(), c > 0); PBT_EQ(x.none(), c == 0); PBT_EQ(x.every(), c == m.size());
    PBT_EQ(x.find_first(), c ? first : BV::npos);
    note(cElems, m.size());
}
void pbt_run(const Case& cs, Ctx& ctx) {
    u32 N = std::max(8u, cs.c(0)); if (N > 524300) N = 524300;
    B m[2] = { B(N), B(N) }; BV x[2] = { BV(N), BV(N) };
    for (size_t q = 0; q < cs.ops.size(); ++q) {
        ctx.opno = (int)q;
        const Op& o = cs.ops[q];
        int i = o.d & 1, j = 1 - i;
        note(cOpsDone);
        if (N > 20000) note(cBig);
        if (o.code % oN == oResize) {
            u32 n = o.b % N + 1; bool v = o.c & 1;
            if (v) x[i].resize(n, true); else x[i].resize(n);
            m[i].resize(n, v); full(x[i], m[i]);
            if (o.c & 2) { x[i].resize(N); m[i].resize(N, 0); }
        }
        size_t sz = std::min(m[0].size(), m[1].size());
#if CFG == 40
        auto& t = x[i]; auto& u = x[j];
        size_t f = 0, l = m[i].size(), of = 0; (void)of;
        bool eq = m[0].size() == m[1].size(); // the operators take vectors of one size
#else
        size_t f = sz ? o.a % sz : 0, l = sz ? f + o.b % (sz - f) + 1 : 0, of = sz ? o.c % (sz - (l - f) + 1) : 0;
        if (l == f) continue;
        auto t = x[i].view(f, l); auto u = x[j].view(of, of + (l - f));
        bool eq = true;
#endif
        auto& a = m[i]; auto& b = m[j];
        auto each = [&](auto&& op) { for (size_t k = f; k < l; ++k) a[k] = op(k) ? 1 : 0; };
        size_t w = l - f, sh = w ? o.c % (o.c % 7 == 0 ? w + 10 : w) : 0;
        switch (o.code % oN) {
            case oSet: t.set(); each([](size_t) { return true; }); break;
            case oReset: t.reset(); each([](size_t) { return false; }); break;
            case oFlip: t.flip(); each([&](size_t k) { return !a[k]; }); break;
            case oRand: for (size_t k = f; k < l; ++k) { bool v = mix64(o.c + k) & 1; if (v) t.set(k - f); else t.reset(k - f); a[k] = v; } break;
            case oSparse: t.reset(); each([](size_t) { return false; }); for (u32 k = 0; k < 20; ++k) { size_t p = mix64(o.c + k) % w; t.set(p); a[f + p] = 1; } break;
            case oShl: { B s(a.begin() + f, a.begin() + l); t <<= sh; each([&](size_t k) { return k - f + sh < w && s[k - f + sh]; }); break; }
            case oShr: { B s(a.begin() + f, a.begin() + l); t >>= sh; each([&](size_t k) { return k - f >= sh && s[k - f - sh]; }); break; }
#define OP(name, stmt, expr) case name: if (eq) { stmt; each([&](size_t k) -> bool { bool p = a[k], r = b[of + k - f]; return expr; }); } break;
            OP(oAnd, t &= u, p && r) OP(oOr, t |= u, p || r) OP(oXor, t ^= u, p != r) OP(oSub, t -= u, p && !r) OP(oOrNot, t.or_not(u), p || !r)
            case oCopy: x[j] = x[i]; m[j] = m[i]; PBT_REQUIRE(x[j] == x[i]); if (N) { x[j].flip(o.a % m[j].size()); m[j][o.a % m[j].size()] ^= 1; PBT_CHECK(!(x[j] == x[i]), "bit vectors differing in bit %zu of %zu compare equal", o.a % m[j].size(), m[j].size()); } break;
            case oWalk: {
                size_t p = t.find_first(), exp = f;
                auto nxt = [&](size_t k) { while (k < l && !a[k]) ++k; return k; };
                exp = nxt(f);
                size_t steps = 0;
                while (p != BV::npos && exp < l) { PBT_CHECK(p == exp - f, "find_next gives %zu, expected %zu", p, exp - f); exp = nxt(exp + 1); if (++steps > 20000) { exp = l; p = BV::npos; break; } p = t.find_next(p + 1); }
                PBT_CHECK(p == BV::npos && exp >= l, "the walk over set bits ends at %zu, the next set bit is %zu", p, exp);
                size_t c = 0; for (size_t k = f; k < l; ++k) c += a[k];
                PBT_EQ(t.count(), c);
                break;
            }
        }
        full(x[i], m[i]); full(x[j], m[j]);
    }
    ctx.nontrivial = N > 5000;
}
#elif CFG == 50
// ---- dump and load ---------------------------------------------------------------------------------
enum { oFill, oErase, oRound, oClear, oN };
static const char* names[] = { "fill", "erase_run", "round_trip", "clear" };
struct Mem {
    std::string d; size_t pos = 0;
    bool saveBinary(const void* p, size_t n) { d.append((const char*)p, n); return true; }
    template<class V> bool saveBinary(const V& v) { return saveBinary(&v, sizeof v); }
    bool loadBinary(void* p, size_t n) { PBT_CHECK(pos + n <= d.size(), "load reads %zu bytes at %zu of a dump of %zu bytes", n, pos, d.size()); memcpy(p, d.data() + pos, n); pos += n; return true; }
    template<class V> bool loadBinary(V* v) { return loadBinary(v, sizeof *v); }
};
template<class C>
static bool round(u32 N, const Case& cs, Ctx& ctx) {
    C c[2]; std::vector<int> m[2] = { std::vector<int>(N, -1), std::vector<int>(N, -1) }; bool big = false;
    auto full = [&](int i) {
        size_t n = 0;
        for (u32 k = 0; k < N; ++k) { auto it = c[i].find((int)k); PBT_CHECK((it != c[i].end()) == (m[i][k] >= 0), "key %u is %s after the round trip", k, m[i][k] >= 0 ? "lost" : "new"); if (m[i][k] >= 0) { ++n; PBT_EQ((int)it->second, m[i][k]); } }
        PBT_EQ(c[i].size(), n); size_t w = 0; for (auto& e : c[i]) { (void)e; ++w; } PBT_EQ(w, n);
        note(cElems, n); if (n > 5000) big = true; if (n > 20000) note(cBig);
    };
    for (size_t q = 0; q < cs.ops.size(); ++q) {
        ctx.opno = (int)q; const Op& o = cs.ops[q]; int i = o.d & 1, j = 1 - i; u32 n = o.b % N + 1, at = o.a % N; note(cOpsDone);
        switch (o.code % oN) {
            case oFill: for (u32 k = 0; k < n; ++k) { u32 kk = (at + order(o.d >> 1, k, n)) % N; int v = (int)((k + q) & 0x7fff); c[i].insert_or_assign((int)kk, v); m[i][kk] = v; } break;
            case oErase: for (u32 k = 0; k < n; ++k) { u32 kk = (at + order(o.d >> 1, k, n)) % N; PBT_EQ(c[i].erase((int)kk), (size_t)(m[i][kk] >= 0)); m[i][kk] = -1; } break;
            case oRound: { Mem a; PBT_REQUIRE(c[i].phmap_dump(a)); PBT_REQUIRE(c[j].phmap_load(a)); PBT_EQ(a.pos, a.d.size()); m[j] = m[i]; full(j); PBT_REQUIRE(c[j] == c[i]);
                for (u32 k = 0; k < 300; ++k) { u32 kk = (u32)(mix64(o.c + k) % N); if (k & 1) { c[j].erase((int)kk); m[j][kk] = -1; } else { c[j].insert_or_assign((int)kk, 5); m[j][kk] = 5; } } full(j); break; }
            case oClear: if (o.c % 3 == 0) { c[i].clear(); std::fill(m[i].begin(), m[i].end(), -1); } break;
        }
        full(i);
    }
    return big;
}
void pbt_run(const Case& cs, Ctx& ctx) {
    u32 N = std::min(std::max(8u, cs.c(0)), 262150u);
    if (N & 1) ctx.nontrivial = round<gtl::flat_hash_map<int, int>>(N, cs, ctx);
    else ctx.nontrivial = round<gtl::parallel_flat_hash_map<int, short>>(N, cs, ctx);
}
#elif CFG < 70
// ---- caches at their default capacity of 65536 entries, and others ------------------------------------
enum { oPut, oGet, oClear, oCopy, oSmall, oN };
static const char* names[] = { "put_run", "get_run", "clear", "copy", "resize" };
struct Lru { // exact LRU over [0, N)
    std::vector<u64> st; std::deque<std::pair<u64, int>> q; u64 t = 0; size_t n = 0, cap;
    std::vector<int> v;
    Lru(u32 N, size_t c) : st(N), cap(c), v(N) {}
    bool has(int k) const { return st[k] != 0; }
    void touch(int k) { st[k] = ++t; q.emplace_back(t, k); }
    void put(int k, int val) { bool in = has(k); touch(k); v[k] = val; if (!in && ++n > cap) { for (;;) { auto [s, o] = q.front(); q.pop_front(); if (st[o] == s) { st[o] = 0; --n; break; } } } }
    void clear() { std::fill(st.begin(), st.end(), 0); q.clear(); n = 0; }
};
static long g_calls;
static int fn(int k) { ++g_calls; return k * 7 + 3; }
void pbt_run(const Case& cs, Ctx& ctx) {
    u32 N = std::min(std::max(16u, cs.c(0)), 262150u);
    size_t cap = (N & 3) ? 65536 : std::max(4u, N / 3);
#if CFG == 60
    using C = gtl::lru_cache<int, int>;
    C x = (N & 3) ? C() : C(cap);
#else
    using C = gtl::memoize_lru<decltype(&fn), 0>;
    C x = (N & 3) ? C(&fn) : C(&fn, cap);
    g_calls = 0;
#endif
    Lru m(N, cap), lo(N, CFG == 60 ? cap : cap - 1); // a memoizer retains its configured number of results or one less
    bool big = false;
    for (size_t q = 0; q < cs.ops.size(); ++q) {
        ctx.opno = (int)q; const Op& o = cs.ops[q]; u32 n = o.b % N + 1, at = o.a % N; note(cOpsDone);
        switch (o.code % oN) {
            case oPut: case oGet:
                for (u32 k = 0; k < n; ++k) {
                    int kk = (int)((at + order(o.d, k, n)) % N);
#if CFG == 60
                    if (o.code % oN == oPut) { int v = (int)((k + q) & 0xffff); x.insert(kk, v); m.put(kk, v); }
                    else { auto r = x.get(kk); PBT_CHECK(r.has_value() == m.has(kk), "get(%d) with %zu entries cached %s", kk, m.n, r ? "meets an evicted entry" : "misses a cached entry"); if (r) { PBT_EQ(*r, m.v[kk]); m.touch(kk); } }
#else
                    long c0 = g_calls; bool in = m.has(kk), sure = lo.has(kk); int r = x(kk);
                    PBT_EQ(r, kk * 7 + 3); PBT_CHECK((g_calls - c0) <= (sure ? 0 : 1) && (g_calls - c0) >= (in ? 0 : 1), "call(%d) with %zu results cached evaluated the function %ld time(s)", kk, m.n, g_calls - c0);
                    m.put(kk, r); lo.put(kk, r);
#endif
                }
                break;
            case oClear: if (o.c % 3 == 0) { x.clear(); m.clear(); lo.clear(); } break;
            case oCopy: { C y(x); if (o.c & 1) x = y; else x = std::move(y); break; }
            case oSmall: break;
        }
        if (CFG != 60) PBT_CHECK(x.size() <= m.n && x.size() >= lo.n, "%zu results retained, expected %zu to %zu", x.size(), lo.n, m.n); else PBT_EQ(x.size(), m.n);
        for (u32 k = 0; k < N; ++k) {
#if CFG == 60
            PBT_CHECK(x.exists((int)k) == m.has((int)k), "entry %u is %s with %zu entries cached", k, m.has((int)k) ? "missing" : "present", m.n);
#else
            bool c = x.contains((int)k).has_value(); PBT_CHECK(c ? m.has((int)k) : !lo.has((int)k), "result %u is %s with %zu results cached", k, c ? "present" : "missing", m.n);
#endif
        }
        if (m.n > 5000) big = true;
        if (m.n > 20000) note(cBig);
        note(cLookups, N);
    }
    ctx.nontrivial = big;
}
#elif CFG == 70
// ---- soa --------------------------------------------------------------------------------------------------
enum { oIns, oSort0, oSort1, oSort2, oResize, oClear, oWrite, oN };
static const char* names[] = { "insert_run", "sort_by_0", "sort_by_1_descending", "sort_by_2", "resize", "clear", "write" };
void pbt_run(const Case& cs, Ctx& ctx) {
    u32 N = std::min(std::max(8u, cs.c(0)), 262150u);
    gtl::soa<int, long, std::string> s; using R = std::tuple<int, long, std::string>; std::vector<R> m; bool big = false;
    for (size_t q = 0; q < cs.ops.size(); ++q) {
        ctx.opno = (int)q; const Op& o = cs.ops[q]; u32 n = o.b % N + 1; note(cOpsDone);
        switch (o.code % oN) {
            case oIns: if (m.size() + n < 2ull * N) for (u32 k = 0; k < n; ++k) { u64 h = mix64(o.c + k); R r((int)(h % (o.a % 2 ? 50 : 1000000)), (long)k, Conv<std::string>::mk((int)(h >> 40) % 5000)); s.insert(std::get<0>(r), std::get<1>(r), std::get<2>(r)); m.push_back(r); } break;
            case oSort0: s.sort_by_field<0>(); std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) { return std::get<0>(a) < std::get<0>(b); }); break;
            case oSort1: s.sort_by_field<1>([](auto& a, auto& b) { return a > b; }); std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) { return std::get<1>(a) > std::get<1>(b); }); break;
            case oSort2: s.sort_by_field<2>(); std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) { return std::get<2>(a) < std::get<2>(b); }); break;
            case oResize: s.resize(n); m.resize(n); break;
            case oClear: if (o.c % 3 == 0) { s.clear(); m.clear(); } break;
            case oWrite: if (!m.empty()) for (u32 k = 0; k < 500; ++k) { size_t p = mix64(o.c + k) % m.size(); std::get<1>(s[p]) = (long)k; std::get<1>(m[p]) = (long)k; } break;
        }
        PBT_EQ(s.size(), m.size());
        for (size_t k = 0; k < m.size(); ++k) { auto r = s[k]; PBT_CHECK(std::get<0>(r) == std::get<0>(m[k]) && std::get<1>(r) == std::get<1>(m[k]) && std::get<2>(r) == std::get<2>(m[k]), "row %zu of %zu is not the expected one", k, m.size()); }
        note(cElems, m.size()); if (m.size() > 5000) big = true; if (m.size() > 20000) note(cBig);
    }
    ctx.nontrivial = big;
}
#endif
const char* const* pbt_op_names = names;
int                pbt_num_ops  = oN;
