// C17: the multi-threaded caches and memoizers under generated thread programs and schedules.
#include "fibre_types.hpp"
#include <map>
#include <set>
namespace std { template<> struct hash<pbt::El> { size_t operator()(const pbt::El& e) const { return pbt::HashEl()(e); } }; }
namespace pbt { inline bool operator==(const El& a, const El& b) { return EqEl()(a, b); } }
#include <gtl/lru_cache.hpp>
#include <gtl/memoize.hpp>
#include <mutex>
#include <optional>
#include <shared_mutex>
#ifndef CFG
    #define CFG 0
#endif
using namespace pbt;
static constexpr bool kLru = CFG < 2 || CFG == 8, kMemoLru = CFG == 6 || CFG == 7, kRec = CFG == 4 || CFG == 5, kFib = CFG == 5;
enum { oPut, oGet, oExists, oClear, oReserve, oPreempt, oN };
static const char* names[] = { kLru ? "put" : "call", kLru ? "get" : "contains", kLru ? "exists" : "call2", "clear", "reserve", "PREEMPT" };
const char* const* pbt_op_names = names;
int                pbt_num_ops  = oN;
enum { cSwitch, cBlock, cOverlap, cOps, cCalls };
static const char* cn[]              = { "thread_switches", "blocked_lock_attempts", "pairs_of_overlapping_operations_on_a_key", "operations", "evaluations_of_the_function", nullptr };
const char* const* pbt_counter_names = cn;
const char*        pbt_rule = "A case is a program of 2-4 threads (up to 8 operations each on up to 10 keys of one cache or memoized function) and a schedule over lock, hash, comparison, element and callback points; "
                              "non-trivial: two operations on one key overlapped and at least one of them was a write (or a call)";
static int  nkeys() { return 10; }
static El   fun(El k);
static int  value_of(int k) { if (kFib) { int a = 0, b = 1; for (int i = 0; i < k; ++i) { int c = a + b; a = b; b = c; } return a; } return k * 7 + 1; }
using FP = El (*)(El);
#if CFG == 0
using C = gtl::lru_cache_impl<El, El, 0, HashEl, EqEl, std::mutex>;
#elif CFG == 1
using C = gtl::lru_cache_impl<El, El, 1, HashEl, EqEl, std::mutex>;
#elif CFG == 2
using C = gtl::mt_memoize<FP, false, 0, std::mutex>;
#elif CFG == 3
using C = gtl::mt_memoize<FP, false, 1, std::shared_mutex>;
#elif CFG == 4
using C = gtl::mt_memoize<FP, true, 0, std::mutex>;
#elif CFG == 5
using C = gtl::mt_memoize<FP, true, 1, std::shared_mutex>;
#elif CFG == 6
using C = gtl::mt_memoize_lru<FP, 0, std::mutex>;
#elif CFG == 7
using C = gtl::mt_memoize_lru<FP, 1, std::mutex>;
#elif CFG == 8
using C = gtl::mt_lru_cache<El, El, HashEl, EqEl>;
#endif
static C*          g_c;
static const Case* g_case;
static int         g_calls[fib::kMax + 1][16];
static int         g_total[16];
FIB_NOSAN static int me() { return fib::who(); }
FIB_NOSAN static void called(int k) { ++g_calls[me()][k]; ++g_total[k]; }
static El fun(El e) {
    int k = e.get();
    called(k);
    fib::yield();
#if CFG == 5
    if (k >= 2) {
        El a = (*g_c)(El(k - 1));
        fib::yield();
        El b = (*g_c)(El(k - 2));
        return El(a.get() + b.get());
    }
#endif
    return El(value_of(k));
}
void pbt_gen(Rng& r, Case& c) {
    u32 nt = r.chance(1, 2) ? 2 : r.range(2, 4);
    static const u32 noises[] = { 0, 0, 0, 2, 4, 10, 30, 100 };
    u32 keys = r.chance(1, 2) ? r.range(1, 3) : r.range(3, 10);
    c.cfg = { nt, r.below(4), r.range(3, 14), noises[r.below(8)], r.u() >> 1, keys, r.chance(1, 4) ? 1u : 0u };
    u32 per = r.chance(2, 3) ? r.range(1, 4) : r.range(3, 8);
    u32 pput = r.range(1, 4);
    for (u32 t = 0; t < nt; ++t)
        for (u32 i = 0; i < per; ++i) {
            u32 code = r.chance(pput, 5) ? (u32)oPut : r.chance(1, 2) ? (u32)oGet : r.chance(2, 3) ? (u32)oExists : (u32)oReserve;
            if (c.cfg[6] && r.chance(1, 6)) code = oClear;
            c.ops.push_back({ code, r.below(keys), r.u() >> 8, r.below(8), t });
        }
    u32 pre = c.cfg[3] ? r.below(3) : r.range(1, 8);
    for (u32 i = 0; i < pre; ++i) c.ops.push_back({ oPreempt, r.chance(1, 3) ? r.range(1, 6) : r.range(1, 60), r.below(3), 0, 0 });
}
enum Kind { kPut, kGet, kHas, kCall, kClr };
struct Ev {
    Kind kind;
    int  key, arg, res, obs;
    u64  inv, resp;
    int  op;
};
static Ev  g_hist[fib::kMax][200];
static int g_nh[fib::kMax];
static void rec(int t, int op, Kind kind, int key, int arg, int res, int obs, u64 inv, u64 resp) {
    if (g_nh[t] < 200) g_hist[t][g_nh[t]++] = { kind, key, arg, res, obs, inv, resp, op };
}
template<class X>
static void do_op(X& x, int t, int idx, const Op& o) {
    int k = (int)(o.a % 10), v = 1000 + idx * 10;
    u64 t0 = fib::clock();
    if constexpr (kLru) {
        switch (o.code) {
            case oPut: { El kk(k); if (o.c & 1) x.insert(kk, El(v)); else { El vv(v); x.insert(kk, vv); } rec(t, idx, kPut, k, v, 0, 0, t0, fib::clock()); break; }
            case oGet: { El kk(k); auto r = x.get(kk); int obs = r ? r->get() : -1; rec(t, idx, kGet, k, 0, (bool)r, obs, t0, fib::clock()); break; }
            case oExists: { El kk(k); bool r = x.exists(kk); rec(t, idx, kHas, k, 0, r, 0, t0, fib::clock()); break; }
        }
    } else {
        switch (o.code) {
            case oPut: case oExists: {
                int  c0 = g_calls[t][k];
                El   r  = x(El(k));
                int  c1 = g_calls[t][k];
                if (r.get() != value_of(k)) fail("the memoized function returned %d for %d, expected %d", r.get(), k, value_of(k));
                if (c1 - c0 > 1 && !kFib) fail("the function was evaluated %d times in one call", c1 - c0);
                u64 t1 = fib::clock();
                if (kRec) {
                    rec(t, idx, kHas, k, 0, c1 == c0, 0, t0, t1); // looked up ...
                    if (c1 != c0) rec(t, idx, kPut, k, value_of(k), 0, 0, t0, t1); // ... evaluated outside the lock, then stored
                } else rec(t, idx, kCall, k, value_of(k), c1 == c0, 0, t0, t1);
                break;
            }
            case oGet: { auto r = x.contains(El(k)); if (r && r->get() != value_of(k)) fail("contains returned %d for %d, expected %d", r->get(), k, value_of(k)); rec(t, idx, kHas, k, 0, (bool)r, 0, t0, fib::clock()); break; }
        }
    }
    if (o.code == oClear) { x.clear(); u64 t1 = fib::clock(); for (int i = 0; i < nkeys(); ++i) rec(t, idx, kClr, i, 0, 0, 0, t0, t1); }
    if (o.code == oReserve) x.reserve(o.b % 64);
}
static void job(int t) {
    int idx = 0;
    for (auto& o : g_case->ops) {
        ++idx;
        if (o.code >= oPreempt || (int)(o.d % (u32)fib::S.n) != t) continue;
        do_op(*g_c, t, idx, o);
    }
}
static bool g_evict;
static bool apply(const Ev& e, int& c) { // c: cached value or -1
    bool p = c != -1;
    switch (e.kind) {
        case kPut: c = e.arg; return true;
        case kGet: if (e.res) return p && c == e.obs; if (p && !g_evict) return false; c = -1; return true;
        case kHas: if (e.res) return p; if (p && !g_evict) return false; c = -1; return true;
        case kCall: // res: served from the cache
            if (e.res) return p;
            if (p && !g_evict) return false;
            c = e.arg;
            return true;
        case kClr: c = -1; return true;
    }
    return false;
}
static bool search(const std::vector<Ev>& ev, u64 mask, int s, std::set<std::pair<u64, int>>& memo) {
    if (mask == (1ull << ev.size()) - 1) return true;
    if (!memo.insert({ mask, s }).second) return false;
    u64 lim = ~0ull;
    for (size_t i = 0; i < ev.size(); ++i) if (!(mask >> i & 1)) lim = std::min(lim, ev[i].resp);
    for (size_t i = 0; i < ev.size(); ++i) {
        if ((mask >> i & 1) || ev[i].inv > lim) continue;
        int n = s;
        if (apply(ev[i], n) && search(ev, mask | 1ull << i, n, memo)) return true;
    }
    return false;
}
template<class X>
static void go(const Case& cs, Ctx& ctx) {
    u32 nt = std::min<u32>(std::max(1u, cs.c(0)), fib::kMax);
    g_case = &cs;
    g_hash = cs.c(1) % 4;
    g_objs = 0;
    for (int& n : g_nh) n = 0;
    memset(g_calls, 0, sizeof g_calls);
    memset(g_total, 0, sizeof g_total);
    {
        std::optional<X> c;
        u32              cap = 0, shards = 1;
        FP               fp  = fun;
        if constexpr (kLru || kMemoLru) {
            shards = (u32)X::num_submaps;
            cap    = std::max(3u, cs.c(2)) * shards;
        }
        if constexpr (kLru) c.emplace(cap);
        else if constexpr (kMemoLru) c.emplace(fp, cap);
        else c.emplace(fp);
        g_c = &*c;
        // an entry can only be evicted where more keys than a shard holds can meet in it (the lru memoizer keeps one less)
        std::map<size_t, std::set<int>> perShard;
        for (auto& o : cs.ops) if (o.code == oPut || o.code == oExists) perShard[shards == 1 ? 0 : HashEl::hash_of((int)(o.a % 10)) * 0].insert((int)(o.a % 10));
        size_t most = 0;
        for (auto& p : perShard) most = std::max(most, p.second.size());
        g_evict = cap && most + 1 >= cap / shards;
        auto& S = fib::S;
        S.np    = 0;
        for (auto& o : cs.ops) if (o.code == oPreempt && S.np < 32) { S.pre_delta[S.np] = o.a; S.pre_to[S.np++] = o.b; }
        S.noise = cs.c(3);
        S.nseed = cs.c(4);
        fib::run((int)nt, job);
        note(cSwitch, S.switches);
        note(cBlock, S.blocks);
        bool cleared = false;
        for (auto& o : cs.ops) if (o.code == oClear) cleared = true;
        std::map<int, std::vector<Ev>> by;
        size_t                         present = 0;
        for (int k = 0; k < nkeys(); ++k) {
            bool r;
            if constexpr (kLru) { auto g = c->get(El(k)); r = (bool)g; by[k].push_back({ kGet, k, 0, r, g ? g->get() : -1, S.steps + 10 + (u64)k, S.steps + 10 + (u64)k, -1 }); }
            else { auto g = c->contains(El(k)); r = (bool)g; if (g) PBT_EQ(g->get(), value_of(k)); by[k].push_back({ kHas, k, 0, r, 0, S.steps + 10 + (u64)k, S.steps + 10 + (u64)k, -1 }); }
            present += r;
            note(cCalls, (u64)g_total[k]);
            if (!kLru && !kRec && !g_evict && !cleared) PBT_CHECK(g_total[k] <= 1, "the function was evaluated %d times for key %d, though its result was never dropped", g_total[k], k);
        }
        PBT_CHECK(c->size() == present, "the cache reports %zu entries, %zu keys are found in it", (size_t)c->size(), present);
        if (cap) PBT_CHECK(c->size() <= cap, "the cache holds %zu entries, more than its capacity %u", (size_t)c->size(), cap);
        for (u32 t = 0; t < nt; ++t) {
            note(cOps, (u64)g_nh[t]);
            for (int i = 0; i < g_nh[t]; ++i) by[g_hist[t][i].key].push_back(g_hist[t][i]);
        }
        for (auto& [k, ev] : by) {
            if (ev.size() > 60) continue;
            // a recursive function touches other keys as well: their histories are incomplete
            if (kFib) continue;
            for (auto& a : ev)
                for (auto& b : ev)
                    if (&a < &b && a.inv < b.resp && b.inv < a.resp) {
                        note(cOverlap);
                        auto wr = [](Kind kd) { return kd == kPut || kd == kCall || kd == kClr; };
                        if (wr(a.kind) || wr(b.kind)) ctx.nontrivial = true;
                    }
            std::set<std::pair<u64, int>> memo;
            if (!search(ev, 0, -1, memo)) {
                std::string s;
                char        b[200];
                std::sort(ev.begin(), ev.end(), [](auto& a, auto& c) { return a.inv < c.inv; });
                for (auto& e : ev) {
                    snprintf(b, sizeof b, " [%llu..%llu %s arg=%d res=%d obs=%d]", (unsigned long long)e.inv, (unsigned long long)e.resp, e.op < 0 ? "final" : names[cs.ops[e.op - 1].code], e.arg, e.res, e.obs);
                    s += b;
                }
                fail("key %d: no sequential order explains the results:%s", k, s.c_str());
            }
        }
        if (kFib && S.switches > 2) ctx.nontrivial = true;
        // the structure must still work: fill it up and look again
        if constexpr (kLru) {
            for (int k = 0; k < 40; ++k) { c->insert(El(k), El(k + 5)); auto g = c->get(El(k)); PBT_CHECK(g && g->get() == k + 5, "an entry put after the threads ended is missing"); PBT_CHECK(c->size() <= cap, "over capacity after the threads ended"); }
        } else if (!kFib) {
            for (int k = 0; k < 14; ++k) PBT_EQ((*c)(El(k)).get(), value_of(k));
        }
    }
    PBT_CHECK(g_objs == 0, "%ld elements are alive after the cache is gone", g_objs);
}
void pbt_run(const Case& cs, Ctx& ctx) { go<C>(cs, ctx); }
