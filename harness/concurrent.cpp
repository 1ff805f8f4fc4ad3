// C05: internally locked parallel containers under generated thread programs and schedules.
#include "fibre_types.hpp"
#include <gtl/phmap.hpp>
#include <execution>
#include <map>
#include <mutex>
#include <set>
#include <optional>
#include <shared_mutex>
#ifndef CFG
    #define CFG 0
#endif
using namespace pbt;
enum { oInsert, oEmplace, oEmplacePw, oTryEmplace, oLazyEmplace, oAssign, oInsertNode, oInsertRange, oErase, oEraseIf, oIfContains, oContains, oCount, oFind, oModify, oTryEmplaceL, oLazyEmplaceL, oTryEmplaceP, oToggle, oHinted, oInsertList, oWithHash,
       oForEach, oForEachM, oWithSub, oWithSubM, oClear, oClearSub, oRehash, oReserve, oMerge, oSwap, oPreempt, oN };
static const char* names[] = { "insert", "emplace", "emplace_pw", "try_emplace", "lazy_emplace", "insert_or_assign", "insert_node", "insert_range", "erase", "erase_if", "if_contains", "contains", "count", "find", "modify_if", "try_emplace_l",
                               "lazy_emplace_l", "try_emplace_p", "emplace_single", "hinted_insert", "insert_list", "with_hash", "for_each", "for_each_m", "with_submap", "with_submap_m", "clear", "clear_submap", "rehash", "reserve", "merge", "swap", "PREEMPT" };
const char* const* pbt_op_names = names;
int                pbt_num_ops  = oN;
enum { cSwitch, cBlock, cOverlap, cOps };
static const char* cn[]              = { "thread_switches", "blocked_lock_attempts", "pairs_of_overlapping_operations_on_a_key", "operations", nullptr };
const char* const* pbt_counter_names = cn;
const char*        pbt_rule = "A case is a program of 2-4 threads (up to 6 operations each on up to 4 contended keys of two containers) and a schedule (explicit preemptions and/or a random walk over the yield points: before and "
                              "after every lock operation, in hashing, comparing, constructing, moving and destroying elements, in callbacks); non-trivial: two operations on one key overlapped and at least one of them was a write";

using AM = std::allocator<std::pair<const El, El>>;
using AS = std::allocator<El>;
#if CFG == 0
#define ISMAP 1
using Cont = gtl::parallel_flat_hash_map<El, El, HashEl, EqEl, AM, 1, std::mutex>;
#elif CFG == 1
#define ISMAP 1
using Cont = gtl::parallel_flat_hash_map<El, El, HashEl, EqEl, AM, 1, std::shared_mutex>;
#elif CFG == 2
#define ISMAP 1
using Cont = gtl::parallel_node_hash_map<El, El, HashEl, EqEl, AM, 0, std::shared_mutex>;
#elif CFG == 3
#define ISMAP 0
using Cont = gtl::parallel_flat_hash_set<El, HashEl, EqEl, AS, 1, std::shared_mutex>;
#elif CFG == 4
#define ISMAP 0
using Cont = gtl::parallel_node_hash_set<El, HashEl, EqEl, AS, 1, std::mutex>;
#elif CFG == 5
#define ISMAP 1
using Cont = gtl::parallel_node_hash_map<El, El, HashEl, EqEl, AM, 2, std::mutex>;
#endif
static constexpr int kKeys = 4;     // contended keys 0..3; the prefill uses 100..
static constexpr int kAbsent = -1;

void pbt_gen(Rng& r, Case& c) {
    static const u32 fills[] = { 0, 0, 3, 6, 7, 12, 13, 14, 27, 28, 5, 1 };
    u32 nt = r.chance(1, 2) ? 2 : r.range(2, 4);
    static const u32 noises[] = { 0, 0, 0, 2, 4, 10, 30, 100 };
    c.cfg = { nt, r.below(4), fills[r.below(12)], noises[r.below(8)], r.u() >> 1, r.range(1, kKeys), r.below(2) };
    u32 per = r.chance(2, 3) ? r.range(1, 3) : r.range(2, 6);
    // a small pool of operations makes interesting pairs meet
    std::vector<u32> pool;
    u32 np = r.range(2, 6);
    for (u32 i = 0; i < np; ++i) {
        u32 x = r.below(oPreempt);
        if (x >= oClear && !r.chance(1, 3)) x = r.below(oForEach);
        pool.push_back(x);
    }
    for (u32 t = 0; t < nt; ++t)
        for (u32 i = 0; i < per; ++i) c.ops.push_back({ r.chance(1, 5) ? r.below(oPreempt) : pool[r.below(pool.size())], r.below(c.cfg[5]), r.u() >> 8, r.below(8), t });
    u32 pre = c.cfg[3] ? r.below(3) : r.range(1, 8);
    for (u32 i = 0; i < pre; ++i) c.ops.push_back({ oPreempt, r.chance(1, 3) ? r.range(1, 6) : r.range(1, 60), r.below(3), 0, 0 });
}

// ---- history ----------------------------------------------------------------------------------------
enum Kind { kIns, kInsUnknown, kAsg, kErase, kEraseIf, kRead, kHas, kMod, kUpsert, kTog, kClr, kMerge, kSwap };
struct Ev {
    Kind kind;
    int  m, key, arg, res, obs;
    u64  inv, resp;
    int  op;
};
static Ev  g_hist[fib::kMax][400];
static int g_nh[fib::kMax];
static const Case* g_case;
static Cont *g_c[2];
static u32 g_fill;

template<class C>
struct H {
    static constexpr bool M = ISMAP;
    static int keyof(const typename C::value_type& e) { if constexpr (M) return e.first.get(); else return e.get(); }
    static int valof(const typename C::value_type& e) { if constexpr (M) return e.second.get(); else return 0; }
    static auto mk(int k, int v) { if constexpr (M) return std::pair<El, El>(El(k), El(v)); else return El(k); }
    static void rec(int t, int op, Kind kind, int m, int key, int arg, int res, int obs, u64 inv, u64 resp) {
        if (g_nh[t] >= 400) return;
        g_hist[t][g_nh[t]++] = { kind, m, key, arg, res, obs, inv, resp, op };
    }
    static int nkeys() { return kKeys + (int)g_fill; }
    static int key_at(int i) { return i < kKeys ? i : 100 + i - kKeys; }
    template<class E> static int touch(E& e, bool write, int v) { // a callback that would notice if the element were not protected
        int o = valof(e);
        fib::yield();
        if (valof(e) != o) fail("an element changed from %d to %d under a callback that should have been protected from writers", o, valof(e));
        if constexpr (M) if (write) e.second.set(v);
        fib::yield();
        if constexpr (M) if (write && valof(e) != v) fail("an element written by a callback changed to %d under its exclusive lock", valof(e));
        return o;
    }
    static void do_op(int t, int idx, const Op& o) {
        int  mi = (o.c & 4) && g_case->c(6) ? 1 : 0;
        C&   x  = *g_c[mi];
        C&   y  = *g_c[1 - mi];
        int  k  = (int)(o.a % kKeys), v = 1000 + idx * 10;
        u64  t0 = fib::clock();
        auto end = [&](Kind kind, int key, int arg, int res, int obs) { u64 t1 = fib::clock(); rec(t, idx, kind, mi, key, arg, res, obs, t0, t1); };
        switch (o.code) {
            case oInsert: { auto e = mk(k, v); bool r = (o.c & 1) ? x.insert(e).second : x.insert(std::move(e)).second; end(kIns, k, M ? v : 0, r, 0); break; }
            case oEmplace: { bool r; if constexpr (M) r = x.emplace(El(k), El(v)).second; else r = x.emplace(El(k)).second; end(kIns, k, M ? v : 0, r, 0); break; }
            case oEmplacePw: { bool r; if constexpr (M) r = x.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v)).second; else r = x.emplace(k).second; end(kIns, k, M ? v : 0, r, 0); break; }
            case oTryEmplace: if constexpr (M) { El kk(k); bool r = (o.c & 1) ? x.try_emplace(kk, v).second : x.try_emplace(std::move(kk), v).second; end(kIns, k, v, r, 0); } break;
            case oLazyEmplace: {
                El   kk(k);
                bool r = false;
                x.lazy_emplace(kk, [&](const typename C::constructor& ctor) { r = true; fib::yield(); if constexpr (M) ctor(k, v); else ctor(k); });
                end(kIns, k, M ? v : 0, r, 0);
                break;
            }
            case oAssign: if constexpr (M) { El kk(k), vv(v); bool r = (o.c & 1) ? x.insert_or_assign(kk, vv).second : x.insert_or_assign(std::move(kk), std::move(vv)).second; end(kAsg, k, v, r, 0); } break;
            case oInsertNode: {
                C local;
                local.insert(mk(k, v));
                auto nh = local.extract(El(k));
                t0      = fib::clock();
                auto r  = x.insert(std::move(nh));
                if (r.inserted == !r.node.empty()) fail("insert(node) reported inserted=%d and returned %s node", (int)r.inserted, r.node.empty() ? "no" : "a");
                end(kIns, k, M ? v : 0, r.inserted, 0);
                break;
            }
            case oInsertRange: {
                std::vector<decltype(mk(k, v))> src;
                for (int q = 0; q < 2; ++q) src.push_back(mk((k + q) % kKeys, v + q));
                t0 = fib::clock();
                x.insert(src.begin(), src.end());
                end(kInsUnknown, k, M ? v : 0, 0, 0);
                end(kInsUnknown, (k + 1) % kKeys, M ? v + 1 : 0, 0, 0);
                break;
            }
            case oErase: { El kk(k); size_t r = x.erase(kk); end(kErase, k, 0, (int)r, 0); break; }
            case oEraseIf: { El kk(k); int obs = kAbsent; int calls = 0; bool want = o.b & 1; bool r = x.erase_if(kk, [&](auto& e) { ++calls; obs = touch(e, false, 0); return want; });
                if (calls > 1) fail("erase_if called the predicate %d times", calls);
                if (r && !calls) fail("erase_if erased without asking the predicate");
                if (calls && r != want) fail("erase_if returned %d although the predicate said %d", (int)r, (int)want);
                end(kEraseIf, k, want, r, obs); break; }
            case oIfContains: { El kk(k); int obs = kAbsent; bool r = std::as_const(x).if_contains(kk, [&](const auto& e) { obs = touch(const_cast<typename C::value_type&>(e), false, 0); }); if (r != (obs != kAbsent)) fail("if_contains returned %d", (int)r); end(kRead, k, 0, r, obs); break; }
            case oContains: { El kk(k); bool r = std::as_const(x).contains(kk); end(kHas, k, 0, r, 0); break; }
            case oCount: { El kk(k); size_t r = std::as_const(x).count(kk); end(kHas, k, 0, (int)r, 0); break; }
            case oFind: { El kk(k); bool r = x.find(kk) != x.end(); end(kHas, k, 0, r, 0); break; }
            case oModify: { El kk(k); int obs = kAbsent; bool r = x.modify_if(kk, [&](auto& e) { obs = touch(const_cast<typename C::value_type&>(e), true, v); }); if (r != (obs != kAbsent)) fail("modify_if returned %d", (int)r); end(kMod, k, M ? v : 0, r, obs); break; }
            case oTryEmplaceL: if constexpr (M) { El kk(k); int obs = kAbsent; bool r = x.try_emplace_l(kk, [&](auto& e) { obs = touch(e, true, v + 1); }, v); end(kUpsert, k, v, r, obs); } break;
            case oLazyEmplaceL: {
                El   kk(k);
                int  obs = kAbsent;
                bool made = false;
                bool r = x.lazy_emplace_l(kk, [&](auto& e) { obs = touch(const_cast<typename C::value_type&>(e), true, v + 1); },
                                          [&](const typename C::constructor& ctor) { fib::yield(); made = true; if constexpr (M) ctor(k, v); else ctor(k); });
                if (r != made || r == (obs != kAbsent)) fail("lazy_emplace_l returned %d, constructed %d, visited %d", (int)r, (int)made, (int)(obs != kAbsent));
                end(kUpsert, k, M ? v : 0, r, obs);
                break;
            }
            case oTryEmplaceP: if constexpr (M) { El kk(k); bool r = x.try_emplace_p(kk, v).second; end(kIns, k, v, r, 0); } break;
            case oToggle: {
                El   kk(k);
                bool made = false;
                x.emplace_single(kk, [&](const typename C::constructor& ctor) { made = true; fib::yield(); if constexpr (M) ctor(k, v); else ctor(k); });
                end(kTog, k, M ? v : 0, made, 0);
                break;
            }
            case oHinted: { // the hint is end(): the only iterator that no other thread can invalidate
                auto e = mk(k, v);
                if constexpr (M) {
                    El kk(k);
                    switch (o.b % 6) {
                        case 0: x.insert(x.cend(), e); break;
                        case 1: x.insert(x.cend(), std::move(e)); break;
                        case 2: x.emplace_hint(x.cend(), El(k), El(v)); break;
                        case 3: x.try_emplace(x.cend(), kk, v); break;
                        case 4: x.try_emplace(x.cend(), std::move(kk), v); break;
                        default: x.emplace_hint(x.cend(), std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v)); break;
                    }
                } else {
                    switch (o.b % 3) {
                        case 0: x.insert(x.cend(), e); break;
                        case 1: x.insert(x.cend(), std::move(e)); break;
                        default: x.emplace_hint(x.cend(), k); break;
                    }
                }
                end(kInsUnknown, k, M ? v : 0, 0, 0);
                break;
            }
            case oInsertList: {
                auto a = mk(k, v), b = mk((k + 1) % kKeys, v + 1);
                t0 = fib::clock();
                x.insert({ a, b });
                end(kInsUnknown, k, M ? v : 0, 0, 0);
                end(kInsUnknown, (k + 1) % kKeys, M ? v + 1 : 0, 0, 0);
                break;
            }
            case oWithHash: {
                El     kk(k);
                size_t h = x.hash(kk);
                bool   r = false;
                switch (o.b % 4) {
                    case 0: if constexpr (M) r = x.emplace_with_hash(h, El(k), El(v)).second; else r = x.emplace_with_hash(h, El(k)).second; end(kIns, k, M ? v : 0, r, 0); break;
                    case 1: if constexpr (M) { r = x.try_emplace_with_hash(h, kk, v).second; end(kIns, k, v, r, 0); } break;
                    case 2: x.lazy_emplace_with_hash(kk, h, [&](const typename C::constructor& ctor) { r = true; fib::yield(); if constexpr (M) ctor(k, v); else ctor(k); }); end(kIns, k, M ? v : 0, r, 0); break;
                    default: r = x.find(kk, h) != x.end(); end(kHas, k, 0, r, 0); break;
                }
                break;
            }
            case oForEach: case oForEachM: case oWithSub: case oWithSubM: {
                int  seen[kKeys + 64];
                for (int& s : seen) s = kAbsent;
                bool write = o.code == oForEachM || o.code == oWithSubM;
                auto at = [&](int key) { return key < kKeys ? key : key - 100 + kKeys; };
                auto visit = [&](auto& e) {
                    auto& w   = const_cast<typename C::value_type&>(e);
                    int   key = keyof(e);
                    if (at(key) < 0 || at(key) >= nkeys()) fail("iteration met key %d, which was never inserted", key);
                    if (seen[at(key)] != kAbsent) fail("iteration met key %d twice", key);
                    seen[at(key)] = touch(w, write, v);
                };
                size_t si = (o.b >> 1) % C::subcnt();
                if (o.code == oForEach) { if (o.c & 2) std::as_const(x).for_each(std::execution::seq, visit); else std::as_const(x).for_each(visit); }
                else if (o.code == oForEachM) { if (o.c & 2) x.for_each_m(std::execution::seq, visit); else x.for_each_m(visit); }
                else if (o.code == oWithSub) std::as_const(x).with_submap(si, [&](const auto& s) { for (auto& e : s) visit(e); });
                else x.with_submap_m(si, [&](auto& s) { for (auto& e : s) visit(e); });
                u64 t1 = fib::clock();
                for (int i = 0; i < std::min(nkeys(), kKeys + 2); ++i) {
                    if ((o.code == oWithSub || o.code == oWithSubM) && C::subidx(x.hash(El(key_at(i)))) != si) continue;
                    if (write) rec(t, idx, kMod, mi, key_at(i), M ? v : 0, seen[i] != kAbsent, seen[i], t0, t1);
                    else rec(t, idx, kRead, mi, key_at(i), 0, seen[i] != kAbsent, seen[i], t0, t1);
                }
                break;
            }
            case oClear: { x.clear(); u64 t1 = fib::clock(); for (int i = 0; i < std::min(nkeys(), kKeys + 2); ++i) rec(t, idx, kClr, mi, key_at(i), 0, 0, 0, t0, t1); break; }
            case oClearSub: {
                size_t si = (o.b >> 1) % C::subcnt();
                x.clear(si);
                u64 t1 = fib::clock();
                for (int i = 0; i < std::min(nkeys(), kKeys + 2); ++i)
                    if (C::subidx(x.hash(El(key_at(i)))) == si) rec(t, idx, kClr, mi, key_at(i), 0, 0, 0, t0, t1);
                break;
            }
            case oRehash: x.rehash(o.b % 3 == 0 ? 0 : o.b % 200); break;
            case oReserve: x.reserve(o.b % 100); break;
            case oMerge: if (g_case->c(6)) { x.merge(y); u64 t1 = fib::clock(); for (int i = 0; i < std::min(nkeys(), kKeys + 2); ++i) rec(t, idx, kMerge, mi, key_at(i), 0, 0, 0, t0, t1); } break;
            case oSwap: if (g_case->c(6)) { g_c[0]->swap(*g_c[1]); u64 t1 = fib::clock(); for (int i = 0; i < std::min(nkeys(), kKeys + 2); ++i) rec(t, idx, kSwap, 0, key_at(i), 0, 0, 0, t0, t1); } break; // always in the same order: opposite orders are documented nowhere and can deadlock
        }
    }
    static void job(int t) {
        int idx = 0;
        for (auto& o : g_case->ops) {
            ++idx;
            if (o.code >= oPreempt || (int)(o.d % (u32)fib::S.n) != t) continue;
            do_op(t, idx, o);
        }
    }
    // ---- per-key linearizability ----------------------------------------------------------------------
    struct St { int a[2]; };
    static bool apply(const Ev& e, St& s) {
        int& c = s.a[e.m];
        bool p = c != kAbsent;
        switch (e.kind) {
            case kIns: if (e.res == p) return false; if (!p) c = e.arg; return true;
            case kInsUnknown: if (!p) c = e.arg; return true;
            case kAsg: if (e.res == p) return false; c = e.arg; return true;
            case kErase: if (e.res != p) return false; c = kAbsent; return true;
            case kEraseIf: if ((e.obs != kAbsent) != p) return false; if (p && e.obs != c) return false; if (e.res) c = kAbsent; return true;
            case kRead: return e.res == p && (!p || e.obs == c);
            case kHas: return e.res == p;
            case kMod: if (e.res != p) return false; if (p) { if (e.obs != c) return false; c = e.arg; } return true;
            case kUpsert: if (e.res == p) return false; if (p) { if (e.obs != c) return false; c = M ? e.arg + 1 : 0; } else c = e.arg; return true;
            case kTog: if (e.res == p) return false; c = p ? kAbsent : e.arg; return true;
            case kClr: c = kAbsent; return true;
            case kMerge: { int& d = s.a[1 - e.m]; if (!p && d != kAbsent) { c = d; d = kAbsent; } return true; }
            case kSwap: std::swap(s.a[0], s.a[1]); return true;
        }
        return false;
    }
    static bool search(const std::vector<Ev>& ev, u64 mask, St s, std::set<std::tuple<u64, int, int>>& memo) {
        if (mask == (ev.size() == 64 ? ~0ull : (1ull << ev.size()) - 1)) return true;
        if (!memo.insert({ mask, s.a[0], s.a[1] }).second) return false;
        u64 lim = ~0ull;
        for (size_t i = 0; i < ev.size(); ++i) if (!(mask >> i & 1)) lim = std::min(lim, ev[i].resp);
        for (size_t i = 0; i < ev.size(); ++i) {
            if ((mask >> i & 1) || ev[i].inv > lim) continue;
            St n = s;
            if (apply(ev[i], n) && search(ev, mask | 1ull << i, n, memo)) return true;
        }
        return false;
    }
    static void run(const Case& cs, Ctx& ctx) {
        u32 nt = std::min<u32>(std::max(1u, cs.c(0)), fib::kMax);
        g_case = &cs;
        g_hash = cs.c(1) % 4;
        g_fill = std::min(cs.c(2), 60u);
        g_objs = 0;
        for (int& n : g_nh) n = 0;
        {
            C A, B;
            g_c[0] = &A;
            g_c[1] = &B;
            std::map<int, St> init;
            for (int i = 0; i < nkeys(); ++i) init[key_at(i)] = { { kAbsent, kAbsent } };
            for (u32 i = 0; i < g_fill; ++i) { A.insert(mk(100 + (int)i, (int)i)); init[100 + (int)i].a[0] = M ? (int)i : 0; }
            for (int k = 0; k < kKeys; ++k) {
                if (cs.c(4) >> k & 1) { A.insert(mk(k, 500 + k)); init[k].a[0] = M ? 500 + k : 0; }
                if (cs.c(6) && (cs.c(4) >> (k + 8) & 1)) { B.insert(mk(k, 600 + k)); init[k].a[1] = M ? 600 + k : 0; }
            }
            auto& S  = fib::S;
            S.np     = 0;
            for (auto& o : cs.ops) if (o.code == oPreempt && S.np < 32) { S.pre_delta[S.np] = o.a; S.pre_to[S.np++] = o.b; }
            S.noise = cs.c(3);
            S.nseed = cs.c(4);
            fib::run((int)nt, job);
            note(cSwitch, S.switches);
            note(cBlock, S.blocks);
            // final state
            std::map<int, std::vector<Ev>> by;
            std::set<int> seenAll[2];
            for (int mi = 0; mi < 2; ++mi) {
                C&     x = *g_c[mi];
                size_t n = 0;
                for (auto& e : x) {
                    ++n;
                    PBT_CHECK(seenAll[mi].insert(keyof(e)).second, "key %d is twice in the container after the threads ended", keyof(e));
                    El kk(keyof(e));
                    PBT_CHECK(x.contains(kk), "key %d is met by iteration but not found after the threads ended", keyof(e));
                }
                PBT_CHECK(n == x.size(), "size() is %zu but iteration meets %zu elements after the threads ended", (size_t)x.size(), n);
                for (int i = 0; i < nkeys(); ++i) {
                    El   kk(key_at(i));
                    auto it = x.find(kk);
                    bool r  = it != x.end();
                    PBT_CHECK(r == (seenAll[mi].count(key_at(i)) != 0), "key %d: find and iteration disagree after the threads ended", key_at(i));
                    by[key_at(i)].push_back({ kRead, mi, key_at(i), 0, r, r ? valof(*it) : kAbsent, S.steps + 10, S.steps + 11, -1 });
                }
            }
            for (u32 t = 0; t < nt; ++t) {
                note(cOps, (u64)g_nh[t]);
                for (int i = 0; i < g_nh[t]; ++i) by[g_hist[t][i].key].push_back(g_hist[t][i]);
            }
            for (auto& [k, ev] : by) {
                if (k >= 102) continue; // only the first two prefilled keys have complete histories
                if (ev.size() > 60) continue;
                for (auto& a : ev)
                    for (auto& b : ev)
                        if (&a < &b && a.inv < b.resp && b.inv < a.resp) {
                            note(cOverlap);
                            auto wr = [](Kind kd) { return kd != kRead && kd != kHas; };
                            if (wr(a.kind) || wr(b.kind)) ctx.nontrivial = true;
                        }
                std::set<std::tuple<u64, int, int>> memo;
                if (!search(ev, 0, init[k], memo)) {
                    std::string s;
                    char        b[200];
                    std::sort(ev.begin(), ev.end(), [](auto& a, auto& c) { return a.inv < c.inv; });
                    for (auto& e : ev) {
                        snprintf(b, sizeof b, " [%llu..%llu %s m%d arg=%d res=%d obs=%d]", (unsigned long long)e.inv, (unsigned long long)e.resp, e.op < 0 ? "final" : names[cs.ops[e.op - 1].code], e.m, e.arg, e.res, e.obs);
                        s += b;
                    }
                    fail("key %d (initially %d/%d): no sequential order explains the results:%s", k, init[k].a[0], init[k].a[1], s.c_str());
                }
            }
        }
        PBT_CHECK(g_objs == 0, "%ld elements are alive after the containers are gone", g_objs);
    }
};
void pbt_run(const Case& cs, Ctx& ctx) { H<Cont>::run(cs, ctx); }
