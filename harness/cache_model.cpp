// C15/C16: LRU caches (CFG 0-4) and memoizers (CFG 10-17) against recency-list models.
#include "types.hpp"
#include <gtl/lru_cache.hpp>
#include <gtl/memoize.hpp>
#include <list>
using namespace pbt;
#ifndef CFG
    #define CFG 0
#endif
enum { cEvict, cHit, cMiss, cCopy, cThrow, cRec };
static const char* counters[] = { "evictions", "hits", "misses", "copies_moves", "exceptions", "recursive_calls", nullptr };
const char* const* pbt_counter_names = counters;
#if CFG < 10
static const char* names[] = { "insert", "insert_rvalue", "get", "exists", "size", "clear", "reserve", "grow", "copy_ctor", "copy_assign", "move_ctor", "move_assign", "insert_run", "get_oldest", "swap_std", "self_assign" };
enum { oIns, oInsR, oGet, oEx, oSize, oClr, oRes, oGrow, oCC, oCA, oMC, oMA, oRun, oOld, oSw, oSelf, oN };
#else
static const char* names[] = { "call", "contains", "clear", "reserve", "size", "call_run", "call_throwing", "copy", "move", "recent", "recursive", "assign" };
enum { oCall, oCont, oClr, oRes, oSize, oRun, oThr, oCopy, oMove, oRecent, oRec, oAsg, oN };
#endif
const char* const* pbt_op_names = names;
int pbt_num_ops = oN;
const char* pbt_rule = "A case is a generated history of 1-150 operations on caches of mostly small capacity (3-40, a few up to 1600 entries), every answer and the full retained set compared with a recency-list model after every operation; non-trivial: at least one hit and "
                       "(for bounded caches) one eviction";
void pbt_gen(Rng& r, Case& c) {
    c.cfg = { r.range(3, r.chance(1, 4) ? 40 : 9), r.below(8), r.range(4, r.chance(1, 3) ? 200 : 30), r.chance(1, 60) ? r.range(8, 40) : 1 };
    u32 len = r.chance(1, 3) ? r.range(1, 20) : r.range(21, c.cfg[3] > 1 ? 40 : 150);
    std::vector<u32> pool;
    for (u32 i = 0; i < oN; ++i) if (r.chance(1, 2)) pool.push_back(i);
    for (int i = 0; i < 4; ++i) { pool.push_back(0); if (CFG < 10) pool.push_back(2); else pool.push_back(1); }
    for (u32 i = 0; i < len; ++i) {
        u32 code = pool[r.below(pool.size())];
        if (names[code] == std::string("clear") && !r.chance(1, 8)) code = 0;
        c.ops.push_back(Op{ code, r.chance(1, 3) ? r.skewed(8) : r.u() >> 8, r.below(1000), r.below(16), r.below(64) });
    }
}
#if CFG < 10
struct CollHash { size_t operator()(int k) const { return (size_t)(k % 4); } };
template<class K_, class V_, class C_> struct Cfg { using K = K_; using V = V_; using C = C_; };
#if CFG == 0
using G = Cfg<int, int, gtl::lru_cache<int, int>>;
#elif CFG == 1
using G = Cfg<std::string, TV, gtl::lru_cache<std::string, TV>>;
#elif CFG == 2
using G = Cfg<int, TV, gtl::lru_cache_impl<int, TV, 2, gtl::Hash<int>, std::equal_to<int>, gtl::NullMutex>>;
#elif CFG == 3
using G = Cfg<int, int, gtl::mt_lru_cache<int, int>>;
#elif CFG == 4
using G = Cfg<int, TV, gtl::lru_cache<int, TV, CollHash>>;
#endif
template<class G>
struct H {
    using C = typename G::C;
    using K = typename G::K;
    using V = typename G::V;
    static K key(int k) { return Conv<K>::mk(k); }
    struct Model { // most recent first; sharded caches: only what is certain
        std::list<std::pair<int, int>> l;
        size_t cap;
        bool exact;
        int* find(int k) { for (auto& e : l) if (e.first == k) return &e.second; return nullptr; }
        size_t rank(int k) { size_t q = 0; for (auto& e : l) { if (e.first == k) return q; ++q; } return (size_t)-1; }
        void touch(int k) { for (auto it = l.begin(); it != l.end(); ++it) if (it->first == k) { l.splice(l.begin(), l, it); return; } }
        void put(int k, int v) { if (int* p = find(k)) { *p = v; touch(k); } else { l.push_front({ k, v }); if (exact && l.size() > cap) { l.pop_back(); note(cEvict); } } }
    };
    static constexpr size_t shards = C::num_submaps;
    static void compare(C& x, Model& m, u32 probe) {
        PBT_CHECK(x.size() <= m.cap * shards, "size() is %zu, the bound is %zu", x.size(), m.cap * shards);
        if (m.exact) {
            PBT_EQ(x.size(), m.l.size());
            for (auto& e : m.l) PBT_CHECK(x.exists(key(e.first)), "key %d is among the %zu most recently used but was evicted", e.first, m.cap);
        } else {
            size_t q = 0, present = 0; std::vector<int> gone;
            for (auto it = m.l.begin(); it != m.l.end();) {
                bool in = x.exists(key(it->first));
                PBT_CHECK(in || q >= m.cap, "key %d was evicted although only %zu other keys were used since (shard capacity %zu)", it->first, q, m.cap);
                ++q;
                if (in) { ++present; ++it; } else { gone.push_back(it->first); ++it; }
            }
            for (int k : gone) { note(cEvict); m.l.remove_if([&](auto& e) { return e.first == k; }); }
            PBT_EQ(x.size(), present);
        }
        PBT_CHECK(!x.exists(key(1000000 + (int)probe)), "a key never inserted exists");
    }
    static void run(const Case& c, Ctx& ctx) {
        long live = TV::live;
        bool hit = false, ev = false;
        {
            u32 sc = std::clamp(c.c(3), 1u, 50u); // a few caches are large
            size_t cap = std::max(3u, c.c(0)) * (shards > 4 ? 1 : sc); bool exact = shards == 1;
            C x[2] = { C(cap * shards), C(cap * shards + shards - 1) };
            Model m[2] = { { {}, cap, exact }, { {}, cap, exact } };
            int space = (int)(std::max(2u, c.c(2)) * (shards > 4 ? 25 : sc));
            auto get = [&](int i, int k) {
                auto r = x[i].get(key(k)); int* p = m[i].find(k);
                if (exact) PBT_CHECK(r.has_value() == (p != nullptr), "get(%d) %s a value, expected %s", k, r ? "returned" : "did not return", p ? "one" : "none");
                if (r) { PBT_CHECK(p, "get(%d) returned a value for a key never inserted", k); PBT_CHECK(Conv<V>::un(*r) == *p, "get(%d) returned %d, the latest value is %d", k, Conv<V>::un(*r), *p); m[i].touch(k); hit = true; note(cHit); }
                else { if (p) { ev = true; note(cEvict); m[i].l.remove_if([&](auto& e) { return e.first == k; }); } note(cMiss); }
            };
            for (size_t n = 0; n < c.ops.size(); ++n) {
                ctx.opno = (int)n; const Op& o = c.ops[n]; int i = o.d & 1, j = !i; int k = o.a % space; int v = o.b;
                size_t before = m[i].l.size(); bool had = m[i].find(k);
                auto put = [&](int kk, int vv) { if (exact && !m[i].find(kk) && m[i].l.size() == m[i].cap) ev = true; m[i].put(kk, vv); };
                (void)before; (void)had;
                switch (o.code % oN) {
                    case oIns: { V val = Conv<V>::mk(v); K kk = key(k); x[i].insert(kk, val); PBT_EQ(Conv<V>::un(val), v); put(k, v); break; }
                    case oInsR: x[i].insert(key(k), Conv<V>::mk(v)); put(k, v); break;
                    case oGet: get(i, k); break;
                    case oEx: { bool e = x[i].exists(key(k)); if (exact) PBT_EQ(e, m[i].find(k) != nullptr); else if (e) PBT_REQUIRE(m[i].find(k)); break; }
                    case oSize: PBT_REQUIRE(x[i].size() <= m[i].cap * shards); break;
                    case oClr: x[i].clear(); m[i].l.clear(); PBT_EQ(x[i].size(), 0u); break;
                    case oRes: x[i].reserve(o.b); break;
                    case oGrow: m[i].cap += o.c % 3; x[i].set_cache_size(m[i].cap * shards); break;
                    case oCC: { C y(x[j]); compare(y, m[j], o.b); C z(y); x[i] = std::move(y); m[i] = m[j]; note(cCopy); break; }
                    case oCA: x[i] = x[j]; m[i] = m[j]; note(cCopy); break;
                    case oMC: { C y(std::move(x[i])); compare(y, m[i], o.b); x[i] = std::move(y); note(cCopy); break; }
                    case oMA: { C y(x[j]); x[j] = std::move(x[i]); m[j] = m[i]; x[i] = C(m[i].cap * shards); m[i].l.clear(); note(cCopy); break; }
                    case oRun: for (u32 q = 0; q < o.c * (shards > 4 ? 25 : sc); ++q) { int kk = (k + (int)q) % space; x[i].insert(key(kk), Conv<V>::mk(v)); put(kk, v); } break;
                    case oOld: if (!m[i].l.empty()) get(i, m[i].l.back().first); break;
                    case oSw: std::swap(x[0], x[1]); std::swap(m[0], m[1]); note(cCopy); break;
                    case oSelf: { C& r = x[i]; x[i] = r; break; }
                }
                compare(x[i], m[i], o.b); compare(x[j], m[j], o.b);
            }
        }
        PBT_EQ(TV::live, live);
        ctx.nontrivial = hit && (ev || shards > 1);
    }
};
void pbt_run(const Case& c, Ctx& ctx) { H<G>::run(c, ctx); }
#else
// ---- memoizers ------------------------------------------------------------------------------
struct Boom { int k; };
static std::map<int, int> g_calls;
static bool g_throw = false;
static int pure(int k) { return (int)(mix64(k) & 0xffffff); }
static int func1(int k) { if (g_throw) throw Boom{ k }; ++g_calls[k]; return pure(k); }
static std::string func2(int a, std::string b) { int k = a * 1000 + (int)b.size(); if (g_throw) throw Boom{ k }; ++g_calls[k]; return std::to_string(pure(k)); }
static const auto lam = [](int k) -> TV { if (g_throw) throw Boom{ k }; ++g_calls[k]; return TV(pure(k)); };
struct Rec; 
#if CFG == 10
    #define LRU 0
using Memo = gtl::memoize<decltype(&func1)>;
static Memo make(size_t) { return Memo(&func1); }
#elif CFG == 11
    #define LRU 0
using Memo = gtl::mt_memoize<decltype(&func1), false>;
static Memo make(size_t) { return Memo(&func1); }
#elif CFG == 12
    #define LRU 0
using Memo = gtl::mt_memoize<std::decay_t<decltype(lam)>, true, 2>;
static Memo make(size_t) { auto l = lam; return Memo(std::move(l)); }
#elif CFG == 13
    #define LRU 0
using Memo = gtl::memoize<decltype(&func2), 0>;
static Memo make(size_t) { return Memo(&func2); }
#elif CFG == 14
    #define LRU 1
using Memo = gtl::memoize_lru<decltype(&func1), 0>;
static Memo make(size_t n) { return Memo(&func1, n); }
#elif CFG == 15
    #define LRU 1
using Memo = gtl::memoize_lru<decltype(&func2), 0>;
static Memo make(size_t n) { return Memo(&func2, n); }
#elif CFG == 16
    #define LRU 1
using Memo = gtl::mt_memoize_lru<std::decay_t<decltype(lam)>, 2>;
static Memo make(size_t n) { auto l = lam; return Memo(std::move(l), n); }
#elif CFG == 17
    #define LRU 1
using Memo = gtl::memoize_lru<std::decay_t<decltype(lam)>>;
static Memo make(size_t n) { auto l = lam; return Memo(std::move(l), n); }
#endif
#if CFG == 12 || CFG == 16 || CFG == 17
static int res(const TV& v) { return v.get(); }
#elif CFG == 13 || CFG == 15
static int res(const std::string& s) { return atoi(s.c_str()); }
#else
static int res(int v) { return v; }
#endif
#if CFG == 13 || CFG == 15
static int norm(int k) { return (k / 7) * 1000 + k % 7; }
    #define ARGS(k) (k) / 7, std::string((k) % 7, 'x')
#else
static int norm(int k) { return k; }
    #define ARGS(k) (k)
#endif
template<class Memo>
struct H {
    static size_t shards() { if constexpr (LRU) return Memo::num_submaps; else return 1; }
    struct Model { // recency list (most recent first) of everything ever computed since the last clear; for LRU, `gone` are the evicted ones
        std::list<int> l;
        bool has(int k) { return std::find(l.begin(), l.end(), k) != l.end(); }
        void touch(int k) { l.remove(k); l.push_front(k); }
    };
    // what the memoizer retains must be the `n` most recently called keys for some n allowed by the capacity
    static bool compare(Memo& x, Model& m, size_t cap) {
        size_t n = 0, q = 0; bool ended = false;
        std::vector<int> gone;
        for (int k : m.l) {
            auto r = x.contains(ARGS(k));
            if (r) {
                PBT_CHECK(res(*r) == pure(norm(k)), "contains() reports %d instead of %d", res(*r), pure(norm(k)));
                if (!LRU || shards() == 1) PBT_CHECK(!ended, "a less recently used result is retained while a more recently used one was evicted");
                ++n;
            } else {
                PBT_CHECK(LRU, "the result for %d was forgotten", k);
                size_t c1 = cap / shards();
                PBT_CHECK(q + 1 >= c1, "the result for %d was evicted although only %zu other keys were used since (capacity %zu)", k, q, c1);
                ended = true; gone.push_back(k);
            }
            ++q;
        }
        for (int k : gone) { m.l.remove(k); note(cEvict); }
        PBT_EQ(x.size(), n);
        if (LRU) PBT_CHECK(n <= cap, "%zu results retained, the bound is %zu", n, cap);
        return !gone.empty();
    }
    static void run(const Case& c, Ctx& ctx) {
        long live = TV::live; bool hit = false, ev = false;
        g_throw = false;
        {
            g_calls.clear();
            u32 sc = std::clamp(c.c(3), 1u, 50u);
            size_t cap = std::max(3u, c.c(0)) * sc * shards(); int space = (int)(std::max(2u, c.c(2)) * sc);
            Memo x = make(cap);
            Model m;
            auto call = [&](int k) {
                int before = g_calls[norm(k)];
                bool had = (bool)x.contains(ARGS(k));
                PBT_CHECK(!had || m.has(k), "contains(%d) is true for arguments never called", k);
                int v = res(x(ARGS(k)));
                PBT_CHECK(v == pure(norm(k)), "memoized f(%d) returned %d, f returns %d", k, v, pure(norm(k)));
                int d = g_calls[norm(k)] - before;
                PBT_CHECK(d == (had ? 0 : 1), "f was called %d times for arguments %s retained", d, had ? "already" : "not");
                if (had) { hit = true; note(cHit); } else note(cMiss);
                m.touch(k);
                auto r = x.contains(ARGS(k));
                PBT_CHECK(r && res(*r) == v, "the result just computed for %d is not retained", k);
            };
            for (size_t n = 0; n < c.ops.size(); ++n) {
                ctx.opno = (int)n; const Op& o = c.ops[n]; int k = o.a % space;
                switch (o.code % oN) {
                    case oCall: call(k); break;
                    case oCont: { auto r = x.contains(ARGS(k)); if (r) { PBT_REQUIRE(m.has(k)); PBT_EQ(res(*r), pure(norm(k))); } else if (!LRU) PBT_REQUIRE(!m.has(k)); break; }
                    case oClr: x.clear(); m.l.clear(); break;
                    case oRes: x.reserve(o.b); break;
                    case oSize: (void)x.size(); break;
                    case oRun: for (u32 q = 0; q < o.c * sc; ++q) call((k + (int)q) % space); break;
                    case oThr: {
                        bool had = (bool)x.contains(ARGS(k)), thrown = false; g_throw = true;
                        try { int v = res(x(ARGS(k))); PBT_EQ(v, pure(norm(k))); } catch (const Boom& b) { thrown = true; PBT_EQ(b.k, norm(k)); }
                        g_throw = false; PBT_EQ(thrown, !had); if (had) m.touch(k);
                        else { note(cThrow); PBT_CHECK(!x.contains(ARGS(k)), "an exception left a result behind"); }
                        break;
                    }
                    case oCopy: { Memo y(x); compare(y, m, cap); int v = res(y(ARGS(k))); PBT_EQ(v, pure(norm(k))); note(cCopy); break; }
                    case oMove: { Memo y(std::move(x)); compare(y, m, cap); x.~Memo(); new (&x) Memo(std::move(y)); note(cCopy); break; }
                    case oRecent: if (!m.l.empty()) call(m.l.back()); break;
                    default: call(k); break;
                }
                if (compare(x, m, cap)) ev = true;
            }
        }
        PBT_EQ(TV::live, live);
        g_calls.clear();
        ctx.nontrivial = hit && (ev || !LRU || shards() > 1);
    }
};
// a recursive function memoized through itself
struct RecFib {
    static gtl::memoize<int (*)(int)>* self;
    static int calls;
    static int f(int n) { ++calls; return n < 2 ? n : (int)((unsigned)(*self)(n - 1) + (unsigned)(*self)(n - 2)) & 0xffffff; }
};
gtl::memoize<int (*)(int)>* RecFib::self = nullptr;
int RecFib::calls = 0;
static void recursive(int n) {
    gtl::memoize<int (*)(int)> fib(&RecFib::f);
    RecFib::self = &fib; RecFib::calls = 0;
    std::vector<int> t(n + 2); t[1] = 1;
    for (int i = 2; i <= n; ++i) t[i] = (t[i - 1] + t[i - 2]) & 0xffffff;
    PBT_EQ(fib(n), t[n]);
    PBT_CHECK(RecFib::calls <= n + 1, "a memoized recursion evaluated %d calls for %d arguments", RecFib::calls, n + 1);
    for (int i = 0; i <= n; ++i) PBT_EQ(fib(i), t[i]);
    PBT_CHECK(RecFib::calls <= n + 1, "results of a memoized recursion were not retained");
    note(cRec, n);
}
void pbt_run(const Case& c, Ctx& ctx) {
    H<Memo>::run(c, ctx);
    if (CFG == 10) for (auto& o : c.ops) if (o.code % oN == oRec) recursive(o.a % 400);
}
#endif
