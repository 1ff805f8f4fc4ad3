// C02: references, pointers and iterators into hash containers obey the documented invalidation table.
#include "types.hpp"
#include <gtl/phmap.hpp>
#include <mutex>
using namespace pbt;
#ifndef CFG
    #define CFG 0
#endif
struct Unit {};
template<> struct pbt::Conv<Unit> { static Unit mk(int) { return {}; } static int un(const Unit&) { return 0; } };
template<bool IsMap, bool IsNode, bool IsPar, class Co, class K_, class V_>
struct Traits { static constexpr bool is_map = IsMap, is_node = IsNode, is_par = IsPar; using C = Co; using K = K_; using V = V_; };
using SH = StatefulHash<TK>;
using SE = StatefulEq<TK>;
using AP = std::allocator<std::pair<const TK, TV>>;
#if CFG == 0
using T = Traits<true, false, false, gtl::flat_hash_map<TK, TV, SH, SE>, TK, TV>;
#elif CFG == 1
using T = Traits<true, true, false, gtl::node_hash_map<TK, TV, SH, SE>, TK, TV>;
#elif CFG == 2
using T = Traits<false, false, false, gtl::flat_hash_set<TK, SH, SE>, TK, Unit>;
#elif CFG == 3
using T = Traits<false, true, false, gtl::node_hash_set<TK, SH, SE>, TK, Unit>;
#elif CFG == 4
using T = Traits<true, true, true, gtl::parallel_node_hash_map<TK, TV, SH, SE, AP, 2, std::mutex>, TK, TV>;
#elif CFG == 5
using T = Traits<true, false, true, gtl::parallel_flat_hash_map<TK, TV, SH, SE, AP, 1>, TK, TV>;
#elif CFG == 6
using T = Traits<true, false, false, gtl::flat_hash_map<TK, TV, SH, SE, TrackAlloc<std::pair<const TK, TV>>>, TK, TV>;
#elif CFG == 7
using T = Traits<true, true, false, gtl::node_hash_map<TK, TV, SH, SE, TrackAlloc<std::pair<const TK, TV>>>, TK, TV>;
#endif

static int nuni, hkind;
enum { oInsert, oTry, oErase, oEraseIt, oEraseRange, oEraseLoop, oHold, oSwap, oMove, oMoveA, oReserve, oRehash, oClear, oExtract, oMerge, oFind, oIoa, oWrite, oFill, oIterate, oN };
static const char* names[] = { "insert", "try_emplace", "erase_key", "erase_iter", "erase_range", "erase_loop", "hold", "swap", "move_ctor", "move_assign", "reserve",
                               "rehash", "clear", "extract_insert", "merge", "find", "insert_or_assign", "write_through", "reserve_fill", "iterate" };
const char* const* pbt_op_names = names;
int                pbt_num_ops  = oN;
enum { cHeldChecks, cAcrossRehash, cAcrossErase, cAcrossInsert, cAcrossSwap };
static const char* counters[] = { "held_references_checked", "references_checked_across_rehash", "across_erase", "across_insert", "across_swap_or_move", nullptr };
const char* const* pbt_counter_names = counters;
const char*        pbt_rule = "A case is a generated history over two containers during which references, pointers and iterators to elements are "
                              "held and re-validated after every operation that must not invalidate them; non-trivial: at least 8 re-validations "
                              "of held references across an operation that modified a container";

void pbt_gen(Rng& r, Case& c) {
    static const u32 unis[] = { 6, 20, 60, 300, 2000 };
    c.cfg = { unis[r.below(5)], r.below(8) };
    u32 len = r.chance(1, 3) ? r.range(3, 20) : r.range(20, 150);
    std::vector<u32> pool;
    for (u32 i = 0; i < oN; ++i)
        for (u32 k = r.below(4); k; --k) pool.push_back(i);
    for (int k = 0; k < 3; ++k) { pool.push_back(oInsert); pool.push_back(oHold); pool.push_back(oErase); }
    for (u32 i = 0; i < len; ++i)
        c.ops.push_back({ pool[r.below(pool.size())], r.u() >> 2, r.skewed(11), r.skewed(8), r.below(64) });
}

template<class T>
struct H {
    using C = typename T::C;
    using K = typename T::K;
    using V = typename T::V;
    static constexpr bool M = T::is_map, Node = T::is_node, Par = T::is_par;
    using Val = typename C::value_type;
    template<class E> static int keyof(const E& e) { if constexpr (M) return Conv<K>::un(e.first); else return Conv<K>::un(e); }
    template<class E> static int valof(const E& e) { if constexpr (M) return Conv<V>::un(e.second); else return 0; }
    static auto mkval(int k, int v) { if constexpr (M) return std::pair<K, V>(Conv<K>::mk(k), Conv<V>::mk(v)); else return Conv<K>::mk(k); }

    struct Held {
        const Val*           p;
        typename C::iterator it;
        bool                 it_ok;
        int                  key, who;
    };
    C                  c[2] = { C(0, typename C::hasher((u32)hkind)), C(0, typename C::hasher((u32)hkind)) };
    std::map<int, int> m[2];
    bool               clean[2] = { true, true }; // no erasure since the table was last rebuilt
    size_t             budget[2] = { 0, 0 };      // insertions that still fit into what reserve() made room for
    std::vector<Held>  held;
    u64                checks = 0;

    void drop(int who) { std::erase_if(held, [&](auto& h) { return h.who == who; }); }
    void drop_key(int who, int k) { std::erase_if(held, [&](auto& h) { return h.who == who && h.key == k; }); }
    void drop_iters(int who) { for (auto& h : held) if (h.who == who) h.it_ok = false; }
    // what a rehash of `who` invalidates
    void rehashed(int who) { if (Node) drop_iters(who); else drop(who); }

    void validate(int counter) {
        for (auto& h : held) {
            auto mit = m[h.who].find(h.key);
            PBT_REQUIRE(mit != m[h.who].end());
            PBT_CHECK(keyof(*h.p) == h.key, "held pointer to key %d now shows key %d", h.key, keyof(*h.p));
            PBT_CHECK(valof(*h.p) == mit->second, "held pointer to key %d shows value %d, expected %d", h.key, valof(*h.p), mit->second);
            auto f = c[h.who].find(Conv<K>::mk(h.key));
            PBT_CHECK(f != c[h.who].end(), "held key %d can no longer be found", h.key);
            PBT_CHECK(&*f == h.p, "key %d is no longer where the held pointer points", h.key);
            if (h.it_ok) {
                PBT_CHECK(&*h.it == h.p, "held iterator to key %d refers to another object", h.key);
                if (!Par) PBT_CHECK(h.it == f, "held iterator to key %d differs from find()", h.key);
            }
            note(cHeldChecks);
            note(counter);
            ++checks;
        }
    }
    // an insertion into `who` that succeeded
    void inserted(int who, size_t cap0) {
        if (budget[who]) { // room was reserved for it
            --budget[who];
            PBT_CHECK(c[who].capacity() == cap0, "the table grew although room had been reserved");
            return;
        }
        if (c[who].capacity() != cap0) { rehashed(who); if (!Par) clean[who] = true; else clean[who] = false; }
        else if (!clean[who]) rehashed(who); // may have been rebuilt in place
    }
    void step(const Op& o) {
        int    i = o.d & 1, j = 1 - i;
        C&     x = c[i];
        auto&  mm = m[i];
        int    k = (int)(o.a % nuni), v = M ? (int)(o.b % 1000) : 0;
        bool   in = mm.count(k) != 0;
        size_t cap0 = x.capacity();
        int    cnt = cAcrossInsert;
        auto   nthit = [&](size_t n) { auto it = x.begin(); while (n--) ++it; return it; };
        switch (o.code % oN) {
            case oInsert: {
                auto r = x.insert(mkval(k, v));
                PBT_EQ(r.second, !in);
                if (r.second) { mm[k] = v; inserted(i, cap0); }
                else PBT_EQ(x.capacity(), cap0);
                break;
            }
            case oTry:
                if constexpr (M) {
                    auto r = x.try_emplace(Conv<K>::mk(k), Conv<V>::mk(v));
                    PBT_EQ(r.second, !in);
                    if (r.second) { mm[k] = v; inserted(i, cap0); }
                    else PBT_EQ(x.capacity(), cap0);
                }
                break;
            case oIoa:
                if constexpr (M) {
                    auto r = x.insert_or_assign(Conv<K>::mk(k), Conv<V>::mk(v));
                    mm[k] = v;
                    if (r.second) inserted(i, cap0);
                    else PBT_EQ(x.capacity(), cap0);
                }
                break;
            case oErase: {
                cnt = cAcrossErase;
                drop_key(i, k);
                x.erase(Conv<K>::mk(k));
                if (in) clean[i] = false;
                mm.erase(k);
                PBT_EQ(x.capacity(), cap0);
                break;
            }
            case oEraseIt: {
                cnt = cAcrossErase;
                if (mm.empty()) break;
                auto it = nthit(o.a % std::min<size_t>(mm.size(), 50));
                int  kk = keyof(*it);
                std::vector<int> rest;
                for (auto q = std::next(it); q != x.end(); ++q) rest.push_back(keyof(*q));
                drop_key(i, kk);
                auto r = o.b & 1 ? x.erase(typename C::const_iterator(it)) : x.erase(it);
                mm.erase(kk);
                clean[i] = false;
                PBT_EQ(x.capacity(), cap0);
                size_t n = 0;
                for (; r != x.end(); ++r, ++n)
                    PBT_CHECK(n < rest.size() && keyof(*r) == rest[n], "the iterator returned by erase does not visit the elements behind the erased one");
                PBT_EQ(n, rest.size());
                break;
            }
            case oEraseRange: {
                if (mm.empty()) break;
                cnt = cAcrossErase;
                size_t a = o.a % mm.size(), b = a + o.b % (mm.size() - a + 1);
                auto f = nthit(a), l = nthit(b);
                std::vector<int> ks, rest;
                for (auto it = f; it != l; ++it) ks.push_back(keyof(*it));
                for (auto it = l; it != x.end(); ++it) rest.push_back(keyof(*it));
                for (int kk : ks) { drop_key(i, kk); mm.erase(kk); }
                auto r = x.erase(f, l);
                clean[i] = false;
                PBT_EQ(x.capacity(), cap0);
                size_t n = 0;
                for (; r != x.end(); ++r, ++n)
                    PBT_CHECK(n < rest.size() && keyof(*r) == rest[n], "the iterator returned by erase(first, last) does not visit the elements from last on");
                PBT_EQ(n, rest.size());
                break;
            }
            case oEraseLoop: { // erase while iterating, in each of the usual ways
                cnt = cAcrossErase;
                std::map<int, int> visits, want;
                auto pred = [&](int kk) { return (kk * 7 + (int)o.b) % 3 == 0; };
                for (auto& [kk, vv] : mm) want[kk] = 1;
                for (auto& [kk, vv] : want) if (pred(kk)) { drop_key(i, kk); mm.erase(kk); clean[i] = false; }
                switch (o.c % 3) {
                    case 0:
                        for (auto it = x.begin(); it != x.end();) {
                            int kk = keyof(*it);
                            PBT_REQUIRE(++visits[kk] == 1);
                            if (pred(kk)) it = x.erase(it); else ++it;
                        }
                        break;
                    case 1:
                        for (auto it = x.begin(); it != x.end();) {
                            int kk = keyof(*it);
                            PBT_REQUIRE(++visits[kk] == 1);
                            if (pred(kk)) x.erase(it++); else ++it;
                        }
                        break;
                    default:
                        if constexpr (requires { gtl::erase_if(x, [](auto&) { return true; }); }) {
                            size_t n = gtl::erase_if(x, [&](auto& e) { int kk = keyof(e); PBT_REQUIRE(++visits[kk] == 1); return pred(kk); });
                            PBT_EQ(n, want.size() - mm.size());
                        } else {
                            for (auto& [kk, vv] : want) if (pred(kk)) PBT_EQ(x.erase(Conv<K>::mk(kk)), (size_t)1);
                            visits = want;
                        }
                }
                PBT_CHECK(visits == want, "erasing while iterating visited %zu of %zu elements", visits.size(), want.size());
                PBT_EQ(x.capacity(), cap0);
                break;
            }
            case oHold: {
                auto it = x.find(Conv<K>::mk(k));
                if (it == x.end() && !mm.empty()) it = nthit(o.a % std::min<size_t>(mm.size(), 50));
                if (it != x.end()) {
                    if (held.size() > 24) held.erase(held.begin());
                    held.push_back({ &*it, it, true, keyof(*it), i });
                }
                break;
            }
            case oSwap:
                cnt = cAcrossSwap;
                x.swap(c[j]);
                std::swap(m[0], m[1]);
                std::swap(clean[0], clean[1]);
                std::swap(budget[0], budget[1]);
                for (auto& h : held) h.who = 1 - h.who;
                break;
            case oMove: {
                cnt = cAcrossSwap;
                C tmp(std::move(x));
                x = C(0, typename C::hasher((u32)hkind));
                x.swap(tmp);
                for (auto& h : held) if (h.who == i) h.it_ok = h.it_ok && !Par;
                break;
            }
            case oMoveA: {
                cnt = cAcrossSwap;
                drop(j);
                c[j] = std::move(x);
                x = C(0, typename C::hasher((u32)hkind));
                m[j] = std::move(mm); mm.clear();
                clean[j] = clean[i]; clean[i] = true;
                budget[j] = budget[i]; budget[i] = 0;
                for (auto& h : held) { h.who = j; if (Par) h.it_ok = false; }
                break;
            }
            case oReserve: rehashed(i); cnt = cAcrossRehash; x.reserve(o.b); clean[i] = clean[i] || (!Par && x.capacity() != cap0);
                if (!Par) budget[i] = std::max(budget[i], o.b > mm.size() ? o.b - mm.size() : (size_t)0);
                if (!o.b) budget[i] = 0;
                break;
            case oRehash: rehashed(i); budget[i] = 0; cnt = cAcrossRehash; x.rehash(o.b % 3 ? o.b : 0); clean[i] = clean[i] || (!Par && x.capacity() != cap0); break;
            case oClear: drop(i); budget[i] = 0; x.clear(); mm.clear(); clean[i] = false; break;
            case oExtract: {
                auto nh = x.extract(Conv<K>::mk(k));
                PBT_EQ((bool)nh, in);
                if (!in) break;
                clean[i] = false;
                int vv = mm[k];
                mm.erase(k);
                int to = o.b & 1 ? j : i;
                if (!Node || m[to].count(k)) drop_key(i, k);
                if (m[to].count(k)) break; // handle destroyed with its element
                size_t cp = c[to].capacity();
                auto r = c[to].insert(std::move(nh));
                PBT_REQUIRE(r.inserted);
                m[to][k] = vv;
                for (auto& h : held) if (h.who == i && h.key == k) { h.who = to; h.it = r.position; h.it_ok = true; }
                inserted(to, cp);
                break;
            }
            case oMerge: {
                if constexpr (Par) break;
                else {
                    budget[0] = budget[1] = 0;
                    if (!Node) { // a refused element stays where it is
                        drop(i);
                        std::erase_if(held, [&](auto& h) { return !mm.count(h.key); });
                    }
                    x.merge(c[j]);
                    for (auto& h : held) if (h.who == j && !mm.count(h.key)) { h.who = i; }
                    for (auto it = m[j].begin(); it != m[j].end();) if (mm.insert(*it).second) it = m[j].erase(it); else ++it;
                    for (auto& h : held) if (h.who == i || Node) h.it_ok = false;
                    clean[0] = clean[1] = false;
                    cnt = cAcrossRehash;
                }
                break;
            }
            case oFind: { auto it = x.find(Conv<K>::mk(k)); PBT_EQ(it != x.end(), in); (void)x.count(Conv<K>::mk(k)); break; }
            case oWrite:
                if constexpr (M) {
                    if (held.empty()) break;
                    auto& h = held[o.a % held.size()];
                    const_cast<V&>(h.p->second) = Conv<V>::mk(v);
                    m[h.who][h.key] = v;
                    PBT_EQ(valof(*c[h.who].find(Conv<K>::mk(h.key))), v);
                }
                break;
            case oFill: {
                // after reserve(n) on a table without erasures, n elements fit without invalidating anything
                if constexpr (Par) break;
                else {
                    C fresh(0, typename C::hasher((u32)hkind));
                    drop(i);
                    x = std::move(fresh);
                    mm.clear();
                    clean[i] = true;
                    budget[i] = 0;
                    size_t n = 1 + o.c;
                    x.reserve(n);
                    size_t cp = x.capacity();
                    std::vector<const Val*>           ps;
                    std::vector<typename C::iterator> is;
                    for (size_t q = 0; q < n; ++q) {
                        auto r = x.insert(mkval((int)q, M ? (int)q : 0));
                        PBT_REQUIRE(r.second);
                        ps.push_back(&*r.first);
                        is.push_back(r.first);
                        mm[(int)q] = M ? (int)q : 0;
                        PBT_CHECK(x.capacity() == cp, "reserve(%zu) then inserting %zu elements rehashed", n, q + 1);
                    }
                    for (size_t q = 0; q < n; ++q) {
                        PBT_CHECK(keyof(*ps[q]) == (int)q && &*is[q] == ps[q], "after reserve(%zu), reference to element %zu did not survive the insertions", n, q);
                        PBT_REQUIRE(x.find(Conv<K>::mk((int)q)) == is[q]);
                    }
                    checks += n;
                }
                break;
            }
            case oIterate: {
                // from any held iterator, ++ reaches end() visiting distinct live elements
                for (auto& h : held) if (h.it_ok && !(Par)) {
                    std::set<int> seen;
                    size_t n = 0;
                    for (auto it = h.it; it != c[h.who].end(); ++it) {
                        PBT_CHECK(seen.insert(keyof(*it)).second && m[h.who].count(keyof(*it)), "iterating from a held iterator repeats or invents key %d", keyof(*it));
                        PBT_REQUIRE(++n <= m[h.who].size());
                    }
                    break;
                }
                break;
            }
        }
        for (int q = 0; q < 2; ++q) PBT_EQ(c[q].size(), m[q].size());
        validate(cnt);
    }
};

void pbt_run(const Case& cs, Ctx& ctx) {
    nuni  = cs.c(0) ? (int)cs.c(0) : 1;
    hkind = (int)cs.c(1) % 8;
    if (hkind == 2 || hkind == 3) nuni = std::min(nuni, 100);
    long lk = TK::live, lv = TV::live;
    {
        H<T> h;
        for (size_t q = 0; q < cs.ops.size(); ++q) {
            ctx.opno = (int)q;
            h.step(cs.ops[q]);
        }
        ctx.nontrivial = h.checks >= 8;
    }
    PBT_EQ(TK::live, lk);
    PBT_EQ(TV::live, lv);
}
