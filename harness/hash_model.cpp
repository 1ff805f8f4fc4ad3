// C01: flat/node hash maps and sets against an ordered reference model, over generated histories.
#include <list>
#include "types.hpp"
#include <gtl/phmap.hpp>
#include <optional>
#include <sstream>
using namespace pbt;

#ifndef CFG
    #define CFG 0
#endif

// ---- configurations -----------------------------------------------------------------
template<bool IsMap, class C, class K, class V>
struct Traits {
    static constexpr bool is_map = IsMap;
    using Cont                   = C;
    using Key                    = K;
    using Val                    = V;
};
struct Unit {};
template<> struct pbt::Conv<Unit> { static Unit mk(int) { return {}; } static int un(const Unit&) { return 0; } };

#if CFG == 0
using T = Traits<true, gtl::flat_hash_map<TK, TV, StatefulHash<TK>, StatefulEq<TK>>, TK, TV>;
    #define HAS_HASH_KIND 1
#elif CFG == 1
using T = Traits<true, gtl::node_hash_map<TK, TV, StatefulHash<TK>, StatefulEq<TK>>, TK, TV>;
    #define HAS_HASH_KIND 1
#elif CFG == 2
using T = Traits<false, gtl::flat_hash_set<TK, StatefulHash<TK>, StatefulEq<TK>>, TK, Unit>;
    #define HAS_HASH_KIND 1
#elif CFG == 3
using T = Traits<false, gtl::node_hash_set<TK, StatefulHash<TK>, StatefulEq<TK>>, TK, Unit>;
    #define HAS_HASH_KIND 1
#elif CFG == 4
using T = Traits<true, gtl::flat_hash_map<unsigned, unsigned>, unsigned, unsigned>;
    #define HAS_HASH_KIND 0
#elif CFG == 5
using T = Traits<false, gtl::flat_hash_set<std::string>, std::string, Unit>;
    #define HAS_HASH_KIND 0
#elif CFG == 6
using T = Traits<true, gtl::flat_hash_map<TK, TV, TransparentHash<TK>, TransparentEq<TK>>, TK, TV>;
    #define HAS_HASH_KIND 1
    #define HETERO 1
#elif CFG == 7 // non-std allocator: a separate empty-table code path
using T = Traits<true,
                 gtl::flat_hash_map<TK, TV, StatefulHash<TK>, StatefulEq<TK>, TrackAlloc<std::pair<const TK, TV>>>,
                 TK,
                 TV>;
    #define HAS_HASH_KIND 1
#elif CFG == 8
using T = Traits<true, gtl::node_hash_map<std::string, std::string>, std::string, std::string>;
    #define HAS_HASH_KIND 0
#elif CFG == 9
using T = Traits<false, gtl::flat_hash_set<unsigned char, StatefulHash<unsigned char>>, unsigned char, Unit>;
    #define HAS_HASH_KIND 1
    #define SMALLKEY 1
#elif CFG >= 20
    #define PARALLEL 1
    #define HAS_HASH_KIND 1
    #include <execution>
    #include <mutex>
    #include <shared_mutex>
template<class K, class V, size_t N, class Mtx>
using PFM = gtl::parallel_flat_hash_map<K, V, StatefulHash<K>, StatefulEq<K>, std::allocator<std::pair<const K, V>>, N, Mtx>;
template<class K, class V, size_t N, class Mtx>
using PNM = gtl::parallel_node_hash_map<K, V, StatefulHash<K>, StatefulEq<K>, std::allocator<std::pair<const K, V>>, N, Mtx>;
template<class K, size_t N, class Mtx>
using PFS = gtl::parallel_flat_hash_set<K, StatefulHash<K>, StatefulEq<K>, std::allocator<K>, N, Mtx>;
template<class K, size_t N, class Mtx>
using PNS = gtl::parallel_node_hash_set<K, StatefulHash<K>, StatefulEq<K>, std::allocator<K>, N, Mtx>;
    #if CFG == 20
using T = Traits<true, PFM<TK, TV, 2, std::mutex>, TK, TV>;
    #elif CFG == 21
using T = Traits<true, PNM<TK, TV, 4, std::shared_mutex>, TK, TV>;
    #elif CFG == 22
using T = Traits<false, PFS<TK, 1, gtl::NullMutex>, TK, Unit>;
    #elif CFG == 23
using T = Traits<false, PNS<TK, 3, std::mutex>, TK, Unit>;
    #elif CFG == 24
using T = Traits<true, PFM<TK, TV, 0, std::shared_mutex>, TK, TV>;
    #elif CFG == 25
        #undef HAS_HASH_KIND
        #define HAS_HASH_KIND 0
using T = Traits<true, gtl::parallel_flat_hash_map<std::string, std::string>, std::string, std::string>;
    #elif CFG == 26
using T = Traits<true, gtl::parallel_flat_hash_map<TK, TV, TransparentHash<TK>, TransparentEq<TK>, std::allocator<std::pair<const TK, TV>>, 6, std::mutex>, TK, TV>;
        #define HETERO 1
    #endif
#endif
#ifndef PARALLEL
    #define PARALLEL 0
#endif

static int  nuni;
static int  hkind;
struct Model : std::map<int, int> { // key -> value (0 for sets)
    u32 hk = 0, eq = 0;           // which hash function and equality objects the container must own
};
static u32 nexteq;
enum {
    cRehash, cEraseHit, cDup, cMulti, cIterErase, cMerge, cTombRehash, cMaxSize512, cMissing, cFullChecks
};
static const char* counters[] = { "capacity_changes", "erase_hits", "duplicate_inserts", "multi_container_ops", "iterator_erases",
                                  "merge_or_node_ops", "full_model_comparisons_after_churn", "cases_over_512_elements", "missing_lookups",
                                  "full_model_comparisons", nullptr };

static const char* names[] = { "insert_copy", "insert_move", "insert_hint", "insert_range", "insert_ilist", "emplace",
                               "emplace_hint", "try_emplace", "try_emplace_move", "insert_or_assign", "insert_or_assign_move",
                               "subscript", "subscript_assign", "at_assign", "lookup", "erase_key", "erase_iter",
                               "erase_const_iter", "erase_range", "_erase", "extract_reinsert", "extract_iter_other",
                               "extract_drop", "merge", "merge_rvalue", "swap", "std_swap", "copy_ctor", "copy_assign",
                               "move_ctor", "move_assign", "self_assign", "ilist_assign", "clear", "reserve", "rehash",
                               "rehash0", "range_ctor", "fresh", "lazy_emplace", "erase_if", "compare", "bulk_insert",
                               "bulk_erase", "churn", "iterate_erase", "emplace_with_hash", "node_insert_hash", "extract_key_edit", "emplace_piecewise", "emplace_no_key", "full_check", "own_element_as_argument",
                               "if_contains", "modify_if", "erase_if_key", "lazy_emplace_l", "try_emplace_l", "try_emplace_p",
                               "emplace_single", "for_each", "for_each_m", "for_each_policy", "with_submap", "clear_submap",
                               "lazy_emplace_with_hash", "try_emplace_with_hash", "emplace_hint_with_hash" };
enum {
    oInsC, oInsM, oInsH, oInsR, oInsI, oEmp, oEmpH, oTry, oTryM, oIoa, oIoaM, oSub, oSubA, oAt, oLook, oErK, oErI, oErCI,
    oErR, oEr_, oExRe, oExOth, oExDrop, oMerge, oMergeR, oSwap, oStdSwap, oCopyC, oCopyA, oMoveC, oMoveA, oSelf, oIlA,
    oClear, oReserve, oRehash, oRehash0, oRangeC, oFresh, oLazy, oEraseIf, oCmp, oBulkI, oBulkE, oChurn, oItEr, oEmpWH,
    oNodeH, oExEdit, oPiece, oNoKey, oFull, oAlias, oNSeq,
    oIfC = oNSeq, oModIf, oErIf, oLazyL, oTryL, oTryP, oSingle, oForE, oForEM, oForEP, oSubm, oClrSub, oLazyWH, oTryWH, oEmpHWH, oNPar,
    oN = PARALLEL ? oNPar : oNSeq
};

const char* const* pbt_op_names      = names;
int                pbt_num_ops       = oN;
const char* const* pbt_counter_names = counters;
const char* pbt_rule = "A case is a generated history of 1-300 operations over three containers of one type, checked after every "
                       "operation against a reference map; non-trivial: the history changed capacity at least once, erased at least "
                       "one present element, and used at least one operation involving two containers or a range";

void pbt_gen(Rng& r, Case& c) {
    static const u32 unis[] = { 3, 8, 20, 40, 120, 500, 3000, 100000 };
    c.cfg = { unis[r.below(8)], r.below(8), r.below(4) };
    u32 len = r.chance(1, 4) ? r.range(1, 12) : r.chance(2, 3) ? r.range(13, 70) : r.range(71, 300);
    bool big = r.chance(1, 16);
    if (big) { c.cfg[0] = r.chance(1, 2) ? 3000 : 100000; }
    // per-case operation weighting: "swarm" a random subset of operations
    std::vector<u32> pool;
    for (u32 i = 0; i < oN; ++i)
        if (r.chance(1, 2))
            pool.push_back(i);
    u32 basics[] = { oInsC, oErK, oLook, oEmp, oErI };
    for (u32 b : basics)
        if (r.chance(2, 3)) { pool.push_back(b); pool.push_back(b); }
    if (pool.empty()) pool.push_back(oInsC);
    if (r.chance(1, 5)) { // tables that fill with tombstones and are rebuilt in place, with clustered or weak hashes
        static const u32 kinds[] = { 0, 2, 2, 5, 5, 7, 7, 4 }, un[] = { 60, 120, 500, 500, 3000 };
        c.cfg[0] = un[r.below(5)];
        c.cfg[1] = kinds[r.below(8)];
        pool     = { oChurn, oChurn, oChurn, oChurn, oBulkI, oBulkI, oBulkE, oInsC, oErK, oLook };
        for (u32 q = 0; q < 3; ++q) pool.push_back(r.below(oN));
        len = r.range(4, 20);
    }
    for (u32 i = 0; i < len; ++i) {
        Op o;
        o.code = pool[r.below(pool.size())];
        o.a    = r.u() >> 2;
        o.b    = r.skewed(12);
        o.c    = r.skewed(big ? 12 : 8);
        o.d    = r.below(64);
        c.ops.push_back(o);
    }
}

template<class T>
struct H {
using C                    = typename T::Cont;
static constexpr bool M    = T::is_map;
using K                    = typename T::Key;
using V                    = typename T::Val;

static K mk(int i) { return Conv<K>::mk(i); }
static V mv(int i) { return Conv<V>::mk(i); }

template<class E>
static int keyof(const E& e) {
    if constexpr (M)
        return Conv<K>::un(e.first);
    else
        return Conv<K>::un(e);
}
template<class E>
static int valof(const E& e) {
    if constexpr (M)
        return Conv<V>::un(e.second);
    else
        return 0;
}
static auto mkval(int k, int v) {
    if constexpr (M)
        return std::pair<K, V>(mk(k), mv(v));
    else
        return mk(k);
}
static auto mkcval(int k, int v) {
    if constexpr (M)
        return std::pair<const K, V>(mk(k), mv(v));
    else
        return mk(k);
}

static C make(Model& m, size_t buckets = 0, int kind = -1) {
    m.hk = (u32)(kind < 0 ? hkind : kind);
#if HAS_HASH_KIND
    if constexpr (requires(typename C::key_equal e) { e.id; }) {
        m.eq = ++nexteq;
        return C(buckets, typename C::hasher(m.hk), typename C::key_equal(m.eq));
    } else
        return C(buckets, typename C::hasher(m.hk));
#else
    return C(buckets);
#endif
}
static void resync(const C& x, Model& m) { // moved-from containers may keep either object
    (void)x; (void)m;
    if constexpr (requires { x.hash_function().kind; }) m.hk = x.hash_function().kind;
    if constexpr (requires { x.key_eq().id; }) m.eq = x.key_eq().id;
}

struct World {
    Model m[3];
    C     c[3] = { make(m[0]), make(m[1]), make(m[2]) };
    bool  rehash = false, erased = false, multi = false;

    void full(int i) {
        note(cFullChecks);
        C& x = c[i];
        Model& mm = m[i];
        PBT_EQ(x.size(), mm.size());
        PBT_EQ(x.empty(), mm.empty());
        if constexpr (requires { x.hash_function().kind; }) PBT_CHECK(x.hash_function().kind == mm.hk, "the container does not own its hash function any more");
        if constexpr (requires { x.key_eq().id; }) PBT_CHECK(x.key_eq().id == mm.eq, "the container does not own its equality any more");
        const C& cx = x;
        Model seen;
        size_t n = 0;
        for (auto it = cx.begin(); it != cx.end(); ++it) {
            int k = keyof(*it), v = valof(*it);
            PBT_CHECK(++n <= mm.size(), "iteration yields more elements than size()");
            PBT_CHECK(seen.emplace(k, v).second, "iteration yields key %d twice", k);
            auto mit = mm.find(k);
            PBT_CHECK(mit != mm.end(), "iteration yields key %d, which is not in the model", k);
            PBT_CHECK(mit->second == v, "key %d has value %d, model says %d", k, v, mit->second);
        }
        PBT_CHECK(n == mm.size(), "iteration yields %zu elements, size is %zu", n, mm.size());
        PBT_REQUIRE(x.cbegin() == cx.begin() && x.cend() == cx.end());
        PBT_REQUIRE(x.max_size() >= n);
        PBT_REQUIRE((x.begin() == x.end()) == mm.empty());
        size_t step = mm.size() > 256 ? mm.size() / 128 : 1, idx = 0;
        for (auto& kv : mm)
            if (idx++ % step == 0)
                lookup(i, kv.first);
        PBT_REQUIRE(x.size() <= x.bucket_count());
        PBT_REQUIRE(x.bucket_count() == x.capacity());
        PBT_CHECK(x.load_factor() <= x.max_load_factor() + 1e-6, "load factor %f above the maximum", x.load_factor());
    }
    void lookup(int i, int k) {
        C&       x  = c[i];
        const C& cx = x;
        auto     mit = m[i].find(k);
        bool     in  = mit != m[i].end();
        if (!in) note(cMissing);
        K    key = mk(k);
        auto it  = x.find(key);
        PBT_CHECK((it != x.end()) == in, "find(%d) %s", k, in ? "misses a present key" : "finds an absent key");
        auto cit = cx.find(key);
        PBT_REQUIRE((cit != cx.end()) == in);
        if (in) {
            PBT_EQ(keyof(*it), k);
            PBT_EQ(valof(*it), mit->second);
            PBT_REQUIRE(&*it == &*cit);
        }
        PBT_EQ((size_t)x.count(key), (size_t)in);
        PBT_EQ(x.contains(key), in);
        auto er = x.equal_range(key);
        PBT_EQ((size_t)std::distance(er.first, er.second), (size_t)in);
        if (in) PBT_REQUIRE(er.first == it);
        auto cer = cx.equal_range(key);
        PBT_EQ((size_t)std::distance(cer.first, cer.second), (size_t)in);
        if (in) {
            PBT_REQUIRE(cer.first == cit);
            if constexpr (M) PBT_EQ(Conv<K>::un(cit->first), k);
        }
        size_t h = x.hash(key);
        PBT_REQUIRE((x.find(key, h) != x.end()) == in);
#if PARALLEL
        int seen = -1;
        PBT_EQ(cx.if_contains(key, [&](const auto& e) { seen = valof(e); PBT_EQ(keyof(e), k); }), in);
        if (in) PBT_EQ(seen, mit->second);
        PBT_EQ(cx.if_contains_unsafe(key, [&](const auto& e) { PBT_EQ(keyof(e), k); }), in);
#endif
        PBT_EQ(cx.contains(key, h), in);
#ifdef HETERO
        auto hit = x.find(k);
        PBT_REQUIRE((hit != x.end()) == in);
        PBT_EQ(x.contains(k), in);
        PBT_EQ((size_t)x.count(k), (size_t)in);
#endif
        if constexpr (M) {
            bool threw = false;
            try {
                int v = Conv<V>::un(cx.at(key));
                PBT_REQUIRE(in);
                PBT_EQ(v, mit->second);
            } catch (const std::out_of_range&) {
                threw = true;
            }
            PBT_EQ(threw, !in);
        }
    }
};

template<class It>
static It nth(C& c, u32 n, It*) {
    It it = c.begin();
    while (n--) ++it;
    return it;
}

// a range insertion or construction copies: the source elements keep their values
template<class Vec>
static void unchanged(const Vec& vec, const std::vector<std::pair<int, int>>& src) {
    PBT_EQ(vec.size(), src.size());
    size_t q = 0;
    for (auto& e : vec) {
        PBT_CHECK(keyof(e) == src[q].first && (!M || valof(e) == src[q].second), "copying a range changed its source: element %zu was {%d,%d}, is {%d,%d}", q, src[q].first, src[q].second, keyof(e), valof(e));
        ++q;
    }
}

static void one(World& w, const Op& o) {
    int    i = o.d % 3, j = (o.d / 3) % 3;
    C&     x = w.c[i];
    Model& m = w.m[i];
    int    k = (int)(o.a % nuni);
#ifdef SMALLKEY
    k &= 255;
#endif
    int v = (int)(o.b % 1000);
    if (!M) v = 0;
    size_t cap0 = x.capacity();
    bool   in   = m.count(k) != 0;
    int    oldv = in ? m[k] : 0;
    auto   ins_result = [&](auto r, bool in_before, int newv) {
        PBT_CHECK(r.second == !in_before, "insertion of %s key %d reports %d", in_before ? "present" : "absent", k, (int)r.second);
        PBT_EQ(keyof(*r.first), k);
        PBT_EQ(valof(*r.first), in_before ? oldv : newv);
        if (!in_before) m[k] = newv;
        else note(cDup);
    };
    auto it_result = [&](auto it, int newv) {
        PBT_EQ(keyof(*it), k);
        PBT_EQ(valof(*it), in ? oldv : newv);
        if (!in) m[k] = newv;
    };
    switch (o.code % oN) {
        case oInsC: { auto val = mkcval(k, v); ins_result(x.insert(val), in, v); PBT_EQ(keyof(val), k); PBT_EQ(valof(val), v); break; }
        case oInsM: { auto val = mkval(k, v); ins_result(x.insert(std::move(val)), in, v); break; }
        case oInsH: {
            auto hint = o.b & 1 ? x.cbegin() : x.cend();
            if (o.c % 3 == 0) { auto val = mkcval(k, v); it_result(x.insert(hint, val), v); PBT_EQ(keyof(val), k); PBT_EQ(valof(val), v); }
            else if (o.c % 3 == 1) { auto val = mkval(k, v); it_result(x.insert(hint, std::move(val)), v); }
            else { auto val = mkcval(k, v); it_result(x.insert(hint, std::move(val)), v); }
            break;
        }
        case oInsR: {
            std::vector<std::decay_t<decltype(mkval(0, 0))>> vec;
            std::vector<std::pair<int, int>> src;
            int n = o.c % 40;
            for (int q = 0; q < n; ++q) {
                int kk = (int)((o.a + q * (o.b % 7)) % nuni);
#ifdef SMALLKEY
                kk &= 255;
#endif
                vec.push_back(mkval(kk, M ? q : 0));
                src.emplace_back(kk, M ? q : 0);
                m.emplace(kk, M ? q : 0);
            }
            if (o.b & 16) { std::list<std::decay_t<decltype(mkval(0, 0))>> l(vec.begin(), vec.end()); x.insert(l.begin(), l.end()); unchanged(l, src); }
            else { x.insert(vec.begin(), vec.end()); unchanged(vec, src); }
            w.multi = true;
            break;
        }
        case oInsI: {
            int k2 = (k + 1) % nuni;
            if (o.c & 1) { // elements of another type, which convert to the container's
                auto alt = [&](auto& a, auto& b, auto& va) {
                    auto go = [&](auto il) {
                        x.insert(il);
                        C t(il, o.b % 64, x.hash_function(), x.key_eq(), x.get_allocator());
                        PBT_EQ(t.size(), (size_t)(k == k2 ? 1 : 2));
                        PBT_REQUIRE(t.contains(mk(k)) && t.contains(mk(k2)));
                    };
                    if constexpr (M) { using Q = std::pair<std::decay_t<decltype(a)>, std::decay_t<decltype(va)>>; go(std::initializer_list<Q>{ Q(a, va), Q(b, va), Q(a, va) }); }
                    else go(std::initializer_list<std::decay_t<decltype(a)>>{ a, b, a });
                };
                if constexpr (std::is_same_v<K, std::string>) {
                    std::string a = mk(k), b = mk(k2); const char *pa = a.c_str(), *pb = b.c_str();
                    if constexpr (M) { V vv = mv(v); const char* pv = vv.c_str(); alt(pa, pb, pv); } else { int none = 0; alt(pa, pb, none); }
                } else { long a = k, b = k2, va = v; alt(a, b, va); }
            } else
                x.insert({ mkval(k, v), mkval(k2, v), mkval(k, v) });
            m.emplace(k, v); m.emplace(k2, v);
            break;
        }
        case oEmp:
            if constexpr (M) ins_result(x.emplace(mk(k), mv(v)), in, v);
            else ins_result(x.emplace(mk(k)), in, v);
            break;
        case oEmpH:
            if constexpr (M) it_result(x.emplace_hint(x.end(), mk(k), mv(v)), v);
            else it_result(x.emplace_hint(x.end(), mk(k)), v);
            break;
        case oTry:
            if constexpr (M) {
                K key = mk(k);
                if (o.c & 1) it_result(x.try_emplace(o.c & 2 ? x.cbegin() : x.cend(), key, mv(v)), v); // hinted
                else ins_result(x.try_emplace(key, mv(v)), in, v);
                PBT_EQ(Conv<K>::un(key), k);
            }
            break;
        case oTryM:
            if constexpr (M) {
                K key = mk(k); V val = mv(v);
                if (o.c & 1) it_result(x.try_emplace(o.c & 2 ? x.cbegin() : x.cend(), std::move(key), std::move(val)), v);
                else ins_result(x.try_emplace(std::move(key), std::move(val)), in, v);
                if (in) { // try_emplace must not consume its arguments when the key exists
                    PBT_EQ(Conv<V>::un(val), v);
                    PBT_EQ(Conv<K>::un(key), k);
                }
            }
            break;
        case oIoa:
            if constexpr (M) {
                K key = mk(k); V val = mv(v);
                auto r = o.c & 1 ? x.insert_or_assign(key, val) : x.insert_or_assign(key, std::move(val));
                PBT_EQ(r.second, !in); PBT_EQ(keyof(*r.first), k); PBT_EQ(valof(*r.first), v);
                m[k] = v;
                PBT_EQ(Conv<K>::un(key), k);
                if (o.c & 1) PBT_EQ(Conv<V>::un(val), v);
            }
            break;
        case oIoaM:
            if constexpr (M) {
                if (o.c & 4) { // hinted
                    K key = mk(k); V val = mv(v);
                    auto hint = o.b & 1 ? x.cbegin() : x.cend();
                    auto it = o.c % 4 == 0 ? x.insert_or_assign(hint, std::move(key), std::move(val)) : o.c % 4 == 1 ? x.insert_or_assign(hint, key, std::move(val))
                            : o.c % 4 == 2 ? x.insert_or_assign(hint, std::move(key), val) : x.insert_or_assign(hint, key, val);
                    PBT_EQ(keyof(*it), k); PBT_EQ(valof(*it), v);
                } else {
                    V val = mv(v);
                    auto r = o.c & 1 ? x.insert_or_assign(mk(k), mv(v)) : x.insert_or_assign(mk(k), val);
                    PBT_EQ(r.second, !in); PBT_EQ(keyof(*r.first), k); PBT_EQ(valof(*r.first), v);
                }
                m[k] = v;
            }
            break;
        case oSub:
            if constexpr (M && !std::is_same_v<V, std::string>) {
                K key = mk(k);
                V& ref = o.b & 1 ? x[key] : x[mk(k)];
                PBT_EQ(Conv<V>::un(ref), in ? oldv : 0);
                m[k] = in ? oldv : 0;
            }
            break;
        case oSubA: if constexpr (M) { x[mk(k)] = mv(v); m[k] = v; } break;
        case oAt:
            if constexpr (M) {
                K key = mk(k);
                if (in) { x.at(key) = mv(v); m[k] = v; }
            }
            break;
        case oLook: w.lookup(i, k); break;
        case oErK: {
            size_t n;
#ifdef HETERO
            if (o.b & 1) n = x.erase(k); else
#endif
            { K key = mk(k); n = x.erase(key); }
            PBT_CHECK(n == (size_t)in, "erase(key %d) returned %zu", k, n);
            if (in) { note(cEraseHit); w.erased = true; }
            m.erase(k);
            break;
        }
        case oErI: case oErCI: case oEr_: {
            if (m.empty()) break;
            u32 n = o.a % (m.size() > 200 ? 200 : m.size());
            std::vector<int> order;
            for (auto& e : x) order.push_back(keyof(e));
            auto it = nth<typename C::iterator>(x, n, nullptr);
            int  kk = keyof(*it);
            if (o.code % oN == oEr_) {
                if (o.b & 1) x._erase(it); else x._erase(typename C::const_iterator(it));
            } else {
                typename C::iterator nx = o.code % oN == oErI ? x.erase(it) : x.erase(typename C::const_iterator(it));
                if (n + 1 < order.size()) {
                    PBT_CHECK(nx != x.end(), "erase(iterator) returned end() but %zu elements follow", order.size() - n - 1);
                    PBT_CHECK(keyof(*nx) == order[n + 1], "erase(iterator) returned key %d, next in order was %d", keyof(*nx), order[n + 1]);
                } else
                    PBT_CHECK(nx == x.end(), "erase of the last element did not return end()");
            }
            m.erase(kk);
            order.erase(order.begin() + n);
            size_t q = 0;
            for (auto& e : x) { PBT_CHECK(q < order.size() && keyof(e) == order[q], "erase changed the order of the other elements"); ++q; }
            PBT_EQ(q, order.size());
            note(cIterErase); note(cEraseHit); w.erased = true;
            break;
        }
        case oErR: {
            if (m.empty()) { auto r = x.erase(x.begin(), x.end()); PBT_REQUIRE(r == x.end()); break; }
            u32 sz = (u32)m.size();
            u32 a = o.a % (sz + 1), b = a + o.b % (sz - a + 1);
            if (o.c % 8 == 0) { a = 0; b = sz; }
            std::vector<int> order;
            for (auto& e : x) order.push_back(keyof(e));
            auto f = nth<typename C::iterator>(x, a, nullptr), l = nth<typename C::iterator>(x, b, nullptr);
            auto r = x.erase(typename C::const_iterator(f), typename C::const_iterator(l));
            if (b < sz) { PBT_CHECK(r != x.end() && keyof(*r) == order[b], "range erase returned the wrong position"); }
            else PBT_CHECK(r == x.end(), "range erase up to end() did not return end()");
            for (u32 q = a; q < b; ++q) m.erase(order[q]);
            if (b > a) { note(cEraseHit, b - a); w.erased = true; w.multi = true; }
            break;
        }
        case oExRe: {
            K    key = mk(k);
            auto nh  = x.extract(key);
            PBT_EQ(nh.empty(), !in); PBT_EQ((bool)nh, in);
            PBT_EQ(x.contains(key), false);
            if (in) {
                if constexpr (M) { PBT_EQ(Conv<K>::un(nh.key()), k); PBT_EQ(Conv<V>::un(nh.mapped()), oldv); }
                else PBT_EQ(Conv<K>::un(nh.value()), k);
                auto r = x.insert(std::move(nh));
                PBT_REQUIRE(r.inserted); PBT_REQUIRE(r.node.empty()); PBT_EQ(keyof(*r.position), k);
                PBT_EQ(valof(*r.position), oldv);
                w.erased = true;
            } else {
                auto r = x.insert(std::move(nh));
                PBT_REQUIRE(!r.inserted); PBT_REQUIRE(r.position == x.end());
            }
            note(cMerge);
            break;
        }
        case oExOth: {
            if (m.empty()) break;
            auto it = nth<typename C::iterator>(x, o.a % std::min<size_t>(m.size(), 100), nullptr);
            int  kk = keyof(*it), vv = valof(*it);
            auto nh = x.extract(typename C::const_iterator(it));
            PBT_REQUIRE(!nh.empty());
            m.erase(kk);
            bool there = w.m[j].count(kk) != 0;
            if (o.b & 1) {
                auto pos = w.c[j].insert(w.c[j].begin(), std::move(nh));
                PBT_EQ(keyof(*pos), kk);
                if (!there) w.m[j][kk] = vv;
                PBT_EQ(nh.empty(), !there); // a rejected node stays with (or returns to) the caller
            } else {
                auto r = w.c[j].insert(std::move(nh));
                PBT_EQ(r.inserted, !there); PBT_EQ(keyof(*r.position), kk);
                if (there) {
                    PBT_REQUIRE(!r.node.empty());
                    if constexpr (M) { PBT_EQ(Conv<K>::un(r.node.key()), kk); PBT_EQ(Conv<V>::un(r.node.mapped()), vv); }
                    else PBT_EQ(Conv<K>::un(r.node.value()), kk);
                    PBT_EQ(valof(*r.position), w.m[j][kk]);
                } else {
                    PBT_REQUIRE(r.node.empty());
                    w.m[j][kk] = vv;
                    PBT_EQ(valof(*r.position), vv);
                }
            }
            w.erased = w.multi = true;
            note(cMerge);
            break;
        }
        case oExDrop: { K key = mk(k); auto nh = x.extract(key); PBT_EQ((bool)nh, in); m.erase(k); if (in) w.erased = true; break; }
        case oMerge: case oMergeR: {
            if (i == j) break;
            if (o.code % oN == oMerge) x.merge(w.c[j]); else x.merge(std::move(w.c[j]));
            Model rest;
            for (auto& kv : w.m[j]) if (!m.emplace(kv).second) rest.insert(kv);
            static_cast<std::map<int, int>&>(w.m[j]) = rest;
            w.full(j);
            w.multi = true; note(cMerge);
            break;
        }
        case oSwap: x.swap(w.c[j]); std::swap(m, w.m[j]); w.multi = i != j; break;
        case oStdSwap: { using std::swap; swap(x, w.c[j]); std::swap(m, w.m[j]); w.multi = i != j; break; }
        case oCopyC: { C tmp(x); PBT_REQUIRE(tmp == x); w.full(i); if (i != j) { w.c[j] = std::move(tmp); w.m[j] = m; w.multi = true; w.full(j); } break; }
        case oCopyA: w.c[j] = x; w.m[j] = m; w.multi = true; w.full(j); break;
        case oMoveC: {
            C tmp(std::move(x));
            Model mm = std::move(m); m.clear();
            if (o.b & 1) x = make(m); else { x.clear(); resync(x, m); } // moved-from: valid but unspecified, usable after clear()
            w.c[j] = std::move(tmp);
            w.m[j] = std::move(mm);
            if (i != j) m.clear();
            w.full(j); w.full(i); w.multi = true;
            break;
        }
        case oMoveA: if (i != j) { w.c[j] = std::move(x); w.m[j] = std::move(m); if (o.b & 1) x = make(m); else { x.clear(); resync(x, m); } m.clear(); w.full(j); w.full(i); w.multi = true; } break;
        case oSelf: { C& alias = x; x = alias; break; }
        case oIlA: {
#if PARALLEL && HAS_HASH_KIND // containers that are compared or merged share one hash function
            x = C({ mkval(k, v), mkval((k + 1) % nuni, v) }, 0, typename C::hasher((u32)hkind));
#else
            x = { mkval(k, v), mkval((k + 1) % nuni, v) };
#endif
            m.clear(); m.emplace(k, v); m.emplace((k + 1) % nuni, v); resync(x, m); break; }
        case oClear: if (!m.empty()) w.erased = true; x.clear(); m.clear(); PBT_REQUIRE(x.begin() == x.end()); break;
        case oReserve: x.reserve(o.b % 700); break;
        case oRehash:
            if constexpr (requires { x.resize(1); }) { if (o.c & 1) { x.resize(o.b % 700); if (!PARALLEL) PBT_REQUIRE(x.bucket_count() >= o.b % 700); break; } }
            x.rehash(o.b % 700); PBT_REQUIRE(x.bucket_count() >= x.size()); break;
        case oRehash0: x.rehash(0); break;
        case oRangeC: {
            std::vector<std::decay_t<decltype(mkval(0, 0))>> vec;
            for (auto& kv : m) vec.push_back(mkval(kv.first, kv.second));
#if HAS_HASH_KIND
            C tmp(vec.begin(), vec.end(), o.b % 64, typename C::hasher((u32)(PARALLEL ? hkind : o.c)));
#else
            using A = typename C::allocator_type;
            using Hs = typename C::hasher;
            C tmp = o.c % 5 == 0 ? C(vec.begin(), vec.end()) : o.c % 5 == 1 ? C(vec.begin(), vec.end(), o.b % 64) : o.c % 5 == 2 ? C(vec.begin(), vec.end(), o.b % 64, Hs(), x.get_allocator())
                  : o.c % 5 == 3 ? C(vec.begin(), vec.end(), o.b % 64, A(x.get_allocator())) : C(vec.begin(), vec.end(), A(x.get_allocator()));
#endif
            unchanged(vec, std::vector<std::pair<int, int>>(m.begin(), m.end()));
            PBT_REQUIRE(tmp == x); PBT_REQUIRE(!(tmp != x));
            w.c[j].swap(tmp); w.m[j] = m;
#if HAS_HASH_KIND
            w.m[j].hk = (u32)(PARALLEL ? hkind : o.c);
            w.m[j].eq = 0;
#endif
            w.full(j); w.multi = true;
            break;
        }
        case oFresh: x = make(m, o.b % 100, PARALLEL ? -1 : (int)(o.c % 8)); m.clear(); break;
        case oLazy: {
            bool called = false;
            K    key    = mk(k);
            auto it     = x.lazy_emplace(key, [&](const typename C::constructor& ctor) {
                called = true;
                if constexpr (M) ctor(mk(k), mv(v)); else ctor(mk(k));
            });
            PBT_EQ(called, !in);
            it_result(it, v);
            break;
        }
        case oEraseIf: {
            int md = 2 + (int)(o.b % 5), rs = (int)(o.c % md);
            std::multiset<int> visited;
            size_t n = gtl::erase_if(x, [&](const auto& e) { int kk = keyof(e); visited.insert(kk); return kk % md == rs; });
            PBT_CHECK(visited.size() == m.size(), "erase_if evaluated the predicate %zu times over %zu elements", visited.size(), m.size());
            size_t ex = 0;
            for (auto it = m.begin(); it != m.end();) {
                PBT_REQUIRE(visited.count(it->first) == 1);
                if (it->first % md == rs) { it = m.erase(it); ++ex; } else ++it;
            }
            PBT_EQ(n, ex);
            if (ex) w.erased = true;
            break;
        }
        case oCmp: {
            bool eq = m == w.m[j];
            PBT_CHECK((x == w.c[j]) == eq, "operator== gives %d, models are %s", (int)(x == w.c[j]), eq ? "equal" : "different");
            PBT_EQ((x != w.c[j]), !eq);
            PBT_EQ((w.c[j] == x), eq);
            // near-equal variants: one value or one key changed
            C y(x);
            PBT_REQUIRE(y == x);
            if (!m.empty()) {
                auto mit = m.begin(); std::advance(mit, o.a % m.size());
                K key = mk(mit->first);
                if constexpr (M) {
                    y[mk(mit->first)] = mv(mit->second + 1);
                    PBT_CHECK(!(y == x), "containers differing in one mapped value compare equal");
                }
                y.erase(key);
                PBT_CHECK(!(y == x) && !(x == y), "containers of different size compare equal");
                int nk = 0; while (m.count(nk)) ++nk;
#ifdef SMALLKEY
                if (nk < 256)
#endif
                {
                y.insert(mkval(nk, mit->second));
                PBT_CHECK(!(y == x) && !(x == y), "containers differing in one key compare equal");
                }
            }
            w.multi = true;
            break;
        }
        case oBulkI: {
            int n = o.c, st = 1 + (int)(o.b % 5);
            for (int q = 0; q < n; ++q) {
                int kk = (int)((o.a + q * st) % nuni);
#ifdef SMALLKEY
                kk &= 255;
#endif
                auto r = x.insert(mkval(kk, M ? q : 0));
                PBT_CHECK(r.second == m.emplace(kk, M ? q : 0).second, "bulk insert of key %d reports %d", kk, (int)r.second);
            }
            break;
        }
        case oBulkE: {
            int n = o.c, st = 1 + (int)(o.b % 5);
            for (int q = 0; q < n; ++q) {
                int kk = (int)((o.a + q * st) % nuni);
#ifdef SMALLKEY
                kk &= 255;
#endif
                size_t e = x.erase(mk(kk));
                PBT_EQ(e, m.erase(kk));
                if (e) w.erased = true;
            }
            break;
        }
        case oChurn: { // insert one / erase one, many times: only tombstones accumulate
            int n = (int)o.c + 20;
            for (int q = 0; q < n; ++q) {
                int kk = (int)((o.a + q) % nuni);
#ifdef SMALLKEY
                kk &= 255;
#endif
                PBT_REQUIRE(x.insert(mkval(kk, 0)).second == m.emplace(kk, 0).second);
                int ke = (int)((o.a + q + nuni / 2) % nuni);
                if ((o.b & 1) && !m.empty()) { // an element that is there, so that the size stays the same
                    auto it = m.upper_bound((int)((ke + q * 37u) % nuni));
                    ke = it == m.end() ? m.begin()->first : it->first;
                }
#ifdef SMALLKEY
                ke &= 255;
#endif
                PBT_EQ((size_t)x.erase(mk(ke)), m.erase(ke));
            }
            w.full(i); note(cTombRehash); w.erased = true;
            break;
        }
        case oItEr: { // erase while iterating
            int md = 2 + (int)(o.b % 4);
            std::set<int> vis;
            size_t n0 = m.size();
            for (auto it = x.begin(); it != x.end();) {
                int kk = keyof(*it);
                PBT_CHECK(vis.insert(kk).second, "erase-while-iterating visits key %d twice", kk);
                if (kk % md == 0) { it = x.erase(it); m.erase(kk); w.erased = true; } else ++it;
            }
            PBT_CHECK(vis.size() == n0, "erase-while-iterating visited %zu of %zu elements", vis.size(), n0);
            note(cIterErase);
            break;
        }
        case oEmpWH: {
            K      key = mk(k);
            size_t h   = x.hash(key);
            if (o.c % 3 == 0) {
                if constexpr (M) it_result(x.emplace_hint_with_hash(h, x.cend(), mk(k), mv(v)), v); else it_result(x.emplace_hint_with_hash(h, x.cend(), mk(k)), v);
                break;
            }
            if constexpr (std::is_same_v<K, TK>) {
                if (o.c % 3 == 1) { // the key cannot be read from the arguments
                    if constexpr (M) ins_result(x.emplace_with_hash(h, k, v), in, v); else ins_result(x.emplace_with_hash(h, k), in, v);
                    break;
                }
            }
            if constexpr (M) ins_result(x.emplace_with_hash(h, mk(k), mv(v)), in, v);
            else ins_result(x.emplace_with_hash(h, mk(k)), in, v);
            break;
        }
        case oNodeH: {
            K      key = mk(k);
            size_t h   = x.hash(key);
            auto   nh  = x.extract(key);
            if (!nh) break;
#if PARALLEL
            auto r = x.insert(std::move(nh));
#else
            auto r = x.insert(std::move(nh), h);
#endif
            PBT_REQUIRE(r.inserted); PBT_EQ(keyof(*r.position), k); PBT_EQ(valof(*r.position), oldv);
            break;
        }
        case oExEdit: {
            if constexpr (M) {
                K key = mk(k);
                auto nh = x.extract(key);
                if (!nh) break;
                m.erase(k);
                int k2 = (int)(o.b % nuni);
                nh.mapped() = mv(v);
                bool there = m.count(k2) != 0;
                // changing the key of an extracted element
                const_cast<K&>(nh.key()) = mk(k2);
                auto r = x.insert(std::move(nh));
                PBT_EQ(r.inserted, !there);
                PBT_EQ(keyof(*r.position), k2);
                if (!there) m[k2] = v;
                w.erased = true;
            }
            break;
        }
        case oPiece:
            if constexpr (M) {
                if (o.c & 1)
                    ins_result(x.emplace(std::piecewise_construct, std::forward_as_tuple(mk(k)), std::forward_as_tuple(mv(v))), in, v);
                else
                    ins_result(x.emplace(std::pair<K, V>(mk(k), mv(v))), in, v);
            }
            break;
        case oNoKey: // arguments from which the key cannot be read without building the element
            if constexpr (std::is_same_v<K, TK>) {
                if constexpr (M) {
                    if (o.c & 1) { // default constructed: key 0, value 0
                        bool in0 = m.count(0) != 0;
                        auto r = x.emplace();
                        PBT_EQ(r.second, !in0); PBT_EQ(keyof(*r.first), 0);
                        m.emplace(0, 0);
                        PBT_EQ(valof(*r.first), m[0]);
                    } else
                        ins_result(x.emplace(k, v), in, v); // int -> element conversions
                } else
                    ins_result(x.emplace(k), in, v);
            }
            break;
        case oAlias: { // keys and values given by reference to elements of the container itself
            if (m.empty()) break;
            auto it = x.begin(), it2 = x.begin();
            for (u32 q = o.b % std::min<size_t>(m.size(), 32); q-- > 0;) ++it;
            for (u32 q = o.a % std::min<size_t>(m.size(), 8); q-- > 0;) ++it2;
            int      kk = keyof(*it), v2 = valof(*it2);
            const K& kr = [&]() -> const K& { if constexpr (M) return it->first; else return *it; }();
            auto same = [&](auto r) { PBT_CHECK(!r.second && r.first == it, "insertion of an element of the container itself"); };
            switch (o.c % 10) {
                case 0: PBT_CHECK(x.erase(kr) == 1, "erase(own key %d)", kk); m.erase(kk); w.erased = true; break;
                case 1: { auto nh = x.extract(kr); PBT_CHECK(!nh.empty(), "extract(own key %d)", kk); m.erase(kk); w.erased = true;
                          if constexpr (M) PBT_EQ(Conv<K>::un(nh.key()), kk); else PBT_EQ(Conv<K>::un(nh.value()), kk); break; }
                case 2: same(x.insert(*it)); break;
                case 3: same(x.emplace(*it)); break;
                case 4: if constexpr (M) same(x.try_emplace(kr, mv(v))); else PBT_REQUIRE(x.count(kr) == 1); break;
                case 5: if constexpr (M) { same(x.insert_or_assign(kr, mv(v))); m[kk] = v; } break;
                case 6: if constexpr (M) { same(x.insert_or_assign(kr, it2->second)); m[kk] = v2; } break;
                case 7: if constexpr (M) { x[kr] = it2->second; m[kk] = v2; } break;
                case 8: if (i != j) { bool had = w.m[j].count(kk); auto r = w.c[j].insert(*it); PBT_EQ(r.second, !had); if (!had) w.m[j].emplace(kk, valof(*it)); w.full(j); w.multi = true; } break;
                case 9: PBT_REQUIRE(x.find(kr) == it && x.contains(kr)); break;
            }
#if CFG == 1 || CFG == 8 || CFG == 21 // elements of node containers stay where they are while the table grows
            it2 = x.begin();
            if (it2 != x.end()) {
                v2 = valof(*it2);
                in = m.count(k);
                switch (o.a % 4) {
                    case 0: PBT_EQ(x.try_emplace(mk(k), it2->second).second, !in); if (!in) m[k] = v2; break;
                    case 1: PBT_EQ(x.emplace(mk(k), it2->second).second, !in); if (!in) m[k] = v2; break;
                    case 2: PBT_EQ(x.insert_or_assign(mk(k), it2->second).second, !in); m[k] = v2; break;
                    case 3: PBT_EQ(x.insert_or_assign(mk(k), std::as_const(it2->second)).second, !in); m[k] = v2; break;
                }
            }
#endif
            w.full(i);
            break;
        }
        case oFull: for (int q = 0; q < 3; ++q) w.full(q); break;
#if PARALLEL
        case oIfC: w.lookup(i, k); break;
        case oModIf: {
            K key = mk(k); int called = 0;
            bool r = x.modify_if(key, [&](auto& e) { ++called; PBT_EQ(keyof(e), k); PBT_EQ(valof(e), oldv); if constexpr (M) e.second = mv(v); });
            PBT_EQ(r, in); PBT_EQ(called, (int)in);
            if (in) m[k] = v;
            break;
        }
        case oErIf: {
            K key = mk(k); int called = 0; bool want = o.b & 1;
            bool r = x.erase_if(key, [&](auto& e) { ++called; PBT_EQ(keyof(e), k); PBT_EQ(valof(e), oldv); if constexpr (M) e.second = mv(v); return want; });
            PBT_EQ(called, (int)in); PBT_EQ(r, in && want);
            if (in) { if (want) { m.erase(k); w.erased = true; note(cEraseHit); } else m[k] = v; }
            break;
        }
        case oLazyL: {
            K key = mk(k); int ex = 0, em = 0;
            bool r = x.lazy_emplace_l(key,
                [&](auto& e) { ++ex; PBT_EQ(keyof(e), k); PBT_EQ(valof(e), oldv); if constexpr (M) e.second = mv(v); },
                [&](const typename C::constructor& ctor) { ++em; if constexpr (M) ctor(mk(k), mv(v)); else ctor(mk(k)); });
            PBT_EQ(r, !in); PBT_EQ(ex, (int)in); PBT_EQ(em, (int)!in);
            m[k] = v;
            break;
        }
        case oTryL:
            if constexpr (M) {
                int ex = 0; V val = mv(v); K key = mk(k);
                bool r = x.try_emplace_l(key, [&](auto& e) { ++ex; PBT_EQ(keyof(e), k); PBT_EQ(valof(e), oldv); e.second = mv(v + 1); }, std::move(val));
                PBT_EQ(r, !in); PBT_EQ(ex, (int)in);
                if (in) PBT_EQ(Conv<V>::un(val), v);
                m[k] = in ? v + 1 : v;
            }
            break;
        case oTryP:
            if constexpr (M) {
                K key = mk(k);
                auto r = x.try_emplace_p(std::move(key), mv(v));
                PBT_EQ(r.second, !in); PBT_EQ(keyof(*r.first), k); PBT_EQ(valof(*r.first), in ? oldv : v);
                if (!in) m[k] = v; else PBT_EQ(Conv<K>::un(key), k);
                PBT_REQUIRE(r.first == &*x.find(mk(k)));
            }
            break;
        case oSingle: { // inserts when absent, erases when present
            K key = mk(k); int em = 0;
            x.emplace_single(key, [&](const typename C::constructor& ctor) { ++em; if constexpr (M) ctor(mk(k), mv(v)); else ctor(mk(k)); });
            PBT_EQ(em, (int)!in);
            if (in) { m.erase(k); w.erased = true; } else m[k] = v;
            break;
        }
        case oForE: case oForEM: case oForEP: {
            Model seen;
            auto cb = [&](auto& e) {
                PBT_CHECK(seen.emplace(keyof(e), valof(e)).second, "for_each visits key %d twice", keyof(e));
                if constexpr (M && !std::is_const_v<std::remove_reference_t<decltype(e)>>)
                    if (keyof(e) % 3 == 0) e.second = mv(v);
            };
            const C& cx = x;
            int kind = o.code % oN == oForE ? 0 : o.code % oN == oForEM ? 1 : 2 + (int)(o.b & 1);
            if (kind == 0) cx.for_each(cb);
            else if (kind == 1) x.for_each_m(cb);
            else if (kind == 2) cx.for_each(std::execution::seq, cb);
            else x.for_each_m(std::execution::seq, cb);
            PBT_CHECK(seen == m, "for_each visited %zu elements that do not match the %zu of the container", seen.size(), m.size());
            if (M && (kind & 1)) for (auto& kv : m) if (kv.first % 3 == 0) kv.second = v;
            break;
        }
        case oSubm: {
            Model seen; size_t tot = 0;
            const C& cx = x;
            for (size_t q = 0; q < C::subcnt(); ++q) {
                auto f = [&](auto& set) {
                    tot += set.size();
                    for (auto& e : set) {
                        PBT_CHECK(seen.emplace(keyof(e), valof(e)).second, "key %d is in two submaps", keyof(e));
                        PBT_CHECK(C::subidx(x.hash(mk(keyof(e)))) == q, "key %d lies in submap %zu", keyof(e), q);
                    }
                };
                if (o.b & 1) cx.with_submap(q, f); else x.with_submap_m(q, f);
            }
            PBT_REQUIRE(seen == m); PBT_EQ(tot, m.size());
            break;
        }
        case oClrSub: {
            size_t q = o.b % C::subcnt();
            for (auto it = m.begin(); it != m.end();)
                if (C::subidx(x.hash(mk(it->first))) == q) { it = m.erase(it); w.erased = true; } else ++it;
            x.clear(q);
            break;
        }
        case oLazyWH: {
            K key = mk(k); bool called = false;
            auto it = x.lazy_emplace_with_hash(key, x.hash(key), [&](const typename C::constructor& ctor) { called = true; if constexpr (M) ctor(mk(k), mv(v)); else ctor(mk(k)); });
            PBT_EQ(called, !in);
            it_result(it, v);
            break;
        }
        case oTryWH:
            if constexpr (M) {
                K key = mk(k); size_t h = x.hash(key);
                switch (o.c % 4) {
                    case 0: ins_result(x.try_emplace_with_hash(h, std::move(key), mv(v)), in, v); break;
                    case 1: ins_result(x.try_emplace_with_hash(h, key, mv(v)), in, v); break;
                    case 2: it_result(x.try_emplace_with_hash(h, x.cend(), std::move(key), mv(v)), v); break;
                    default: it_result(x.try_emplace_with_hash(h, x.cend(), key, mv(v)), v); break;
                }
            }
            break;
        case oEmpHWH: {
            K key = mk(k); size_t h = x.hash(key);
            if constexpr (M) it_result(x.emplace_hint_with_hash(h, x.begin(), mk(k), mv(v)), v); else it_result(x.emplace_hint_with_hash(h, x.begin(), mk(k)), v);
            break;
        }
#endif
    }
    if (x.capacity() != cap0) { w.rehash = true; note(cRehash); }
}

};

void pbt_run(const Case& cs, Ctx& ctx) {
    nuni   = cs.c(0) ? (int)cs.c(0) : 1;
    nexteq = 0;
#ifdef SMALLKEY
    if (nuni > 256) nuni = 256;
#endif
    hkind = (int)cs.c(1) % 8;
    if (hkind == 3 || hkind == 2) nuni = std::min(nuni, 120); // keep quadratic cases small
    long lk = TK::live, lv = TV::live;
    {
        using HT = H<T>;
        typename HT::World w;
        for (size_t q = 0; q < cs.ops.size(); ++q) {
            ctx.opno   = (int)q;
            const Op o = cs.ops[q];
            HT::one(w, o);
            int i = o.d % 3;
            PBT_EQ(w.c[i].size(), w.m[i].size());
            w.lookup(i, (int)((o.a >> 3) % nuni));
            if (w.m[i].size() <= 40 || q % 16 == 0) w.full(i);
        }
        for (int q = 0; q < 3; ++q) w.full(q);
        size_t mx = 0;
        for (auto& m : w.m) mx = std::max(mx, m.size());
        if (mx > 512) note(cMaxSize512);
        ctx.nontrivial = w.rehash && w.erased && w.multi;
    }
    PBT_EQ(TK::live, lk);
    PBT_EQ(TV::live, lv);
    PBT_CHECK(blocks().empty(), "%zu allocator blocks never released", blocks().size());
}
