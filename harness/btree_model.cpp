// C10/C11: ordered containers against a sorted-sequence reference model, over generated histories.
#include "types.hpp"
#include <compare>
#include <gtl/btree.hpp>
#include <list>
using namespace pbt;
#ifndef CFG
    #define CFG 0
#endif

struct Unit {};
template<> struct pbt::Conv<Unit> { static Unit mk(int) { return {}; } static int un(const Unit&) { return 0; } };

inline u64 ordkey(u32 kind, int v) { // the order a comparator of this kind induces
    switch (kind % 4) {
        case 0: return (u64)(u32)v;
        case 1: return ~(u64)(u32)v;
        case 2: return (u64)(u32)(v / 4); // groups of four equivalent values
        default: return mix64((u64)v) >> 8;
    }
}
template<class K>
struct Less {
    u32 kind = 0;
    Less(u32 k = 0) : kind(k) {}
    bool operator()(const K& a, const K& b) const { return ordkey(kind, Conv<K>::un(a)) < ordkey(kind, Conv<K>::un(b)); }
};
template<class K>
struct LessT { // transparent
    using is_transparent = void;
    u32 kind = 0;
    LessT(u32 k = 0) : kind(k) {}
    bool operator()(const K& a, const K& b) const { return ordkey(kind, Conv<K>::un(a)) < ordkey(kind, Conv<K>::un(b)); }
    bool operator()(int a, const K& b) const { return ordkey(kind, a) < ordkey(kind, Conv<K>::un(b)); }
    bool operator()(const K& a, int b) const { return ordkey(kind, Conv<K>::un(a)) < ordkey(kind, b); }
};
template<class K>
struct Cmp3 { // three-way
    u32 kind = 0;
    Cmp3(u32 k = 0) : kind(k) {}
    std::weak_ordering operator()(const K& a, const K& b) const {
        u64 x = ordkey(kind, Conv<K>::un(a)), y = ordkey(kind, Conv<K>::un(b));
        return x < y ? std::weak_ordering::less : x > y ? std::weak_ordering::greater : std::weak_ordering::equivalent;
    }
};

template<bool IsMap, bool IsMulti, class C, class MC, class K, class V>
struct Traits {
    static constexpr bool is_map = IsMap, is_multi = IsMulti;
    using Cont = C;      // the container under test
    using Other = MC;    // its multi/unique counterpart (merge across kinds)
    using Key = K;
    using Val = V;
};
#define MAPT(multi, K, V, ...) Traits<true, multi, \
    std::conditional_t<multi, gtl::btree_multimap<K, V __VA_OPT__(,) __VA_ARGS__>, gtl::btree_map<K, V __VA_OPT__(,) __VA_ARGS__>>, \
    std::conditional_t<!multi, gtl::btree_multimap<K, V __VA_OPT__(,) __VA_ARGS__>, gtl::btree_map<K, V __VA_OPT__(,) __VA_ARGS__>>, K, V>
#define SETT(multi, K, ...) Traits<false, multi, \
    std::conditional_t<multi, gtl::btree_multiset<K __VA_OPT__(,) __VA_ARGS__>, gtl::btree_set<K __VA_OPT__(,) __VA_ARGS__>>, \
    std::conditional_t<!multi, gtl::btree_multiset<K __VA_OPT__(,) __VA_ARGS__>, gtl::btree_set<K __VA_OPT__(,) __VA_ARGS__>>, K, Unit>
#define MULTI (CFG >= 20)
#define B (CFG % 20)
#define HASKIND 1
#if B == 0
using T = MAPT(MULTI, TK, TV, Less<TK>);
#elif B == 1
using T = SETT(MULTI, TK, Less<TK>);
#elif B == 2
using T = MAPT(MULTI, int, int);
    #undef HASKIND
    #define HASKIND 0
#elif B == 3
using T = SETT(MULTI, std::string);
    #undef HASKIND
    #define HASKIND 0
#elif B == 4
using T = MAPT(MULTI, TK, TV, Cmp3<TK>);
#elif B == 5
using T = SETT(MULTI, Big, Less<Big>);
#elif B == 6
using T = MAPT(MULTI, TK, TV, LessT<TK>);
    #define HETERO 1
#elif B == 7
using T = SETT(MULTI, TK, Less<TK>, TrackAlloc<TK>);
#elif B == 8
using T = SETT(MULTI, unsigned char, std::greater<unsigned char>);
    #undef HASKIND
    #define HASKIND 0
    #define SMALLKEY 1
#elif B == 9
using T = MAPT(MULTI, std::string, std::string, std::greater<std::string>);
    #undef HASKIND
    #define HASKIND 0
#endif

static int nuni, okind, nextval;
static bool varied; // the three containers start with different orders
enum { cMulti2, cErase, cDup, cHint, cBig, cNode, cFull, cRange };
static const char* counters[] = { "cases_with_range_hint_or_two_containers", "erase_hits", "duplicate_keys", "hinted_inserts", "cases_over_300_elements",
                                  "node_or_merge_ops", "full_model_comparisons", "range_erases", nullptr };
static const char* names[] = { "insert_copy", "insert_move", "insert_hint", "emplace", "emplace_hint", "insert_range", "insert_ilist",
    "try_emplace", "try_emplace_hint", "subscript", "at", "lookup", "erase_key", "erase_iter", "erase_const_iter", "erase_range",
    "extract_key", "extract_iter_to", "merge", "merge_other_kind", "swap", "copy_ctor", "copy_assign", "move_ctor", "move_assign", "self_assign",
    "clear", "compare", "erase_if", "bulk_insert", "bulk_erase", "range_ctor", "iterate_erase", "ilist_assign", "full_check", "walk", "fresh" };
enum { oInsC, oInsM, oInsH, oEmp, oEmpH, oInsR, oInsI, oTry, oTryH, oSub, oAt, oLook, oErK, oErI, oErCI, oErR, oExK, oExI, oMerge, oMergeO,
       oSwap, oCopyC, oCopyA, oMoveC, oMoveA, oSelf, oClear, oCmp, oErIf, oBulkI, oBulkE, oRangeC, oItEr, oIlA, oFull, oWalk, oFresh, oN };
const char* const* pbt_op_names = names;
int pbt_num_ops = oN;
const char* const* pbt_counter_names = counters;
const char* pbt_rule = "A case is a generated history of 1-250 operations over three ordered containers of one type, checked against a sorted "
                       "sequence; non-trivial: at least 12 elements lived in one container (several nodes), a present element was erased, and an "
                       "operation involved a range, a hint or two containers";

void pbt_gen(Rng& r, Case& c) {
    static const u32 unis[] = { 4, 12, 40, 100, 400, 2000, 50000 };
    c.cfg = { unis[r.below(7)], r.below(4), r.below(2) };
    u32 len = r.chance(1, 4) ? r.range(1, 12) : r.chance(2, 3) ? r.range(13, 70) : r.range(71, 250);
    bool big = r.chance(1, 12);
    if (big) c.cfg[0] = 50000;
    std::vector<u32> pool;
    for (u32 i = 0; i < oN; ++i) if (r.chance(1, 2)) pool.push_back(i);
    u32 basics[] = { oInsC, oErK, oBulkI, oBulkE, oErI, oInsH };
    for (u32 b : basics) if (r.chance(2, 3)) pool.push_back(b);
    if (pool.empty()) pool.push_back(oInsC);
    for (u32 i = 0; i < len; ++i)
        c.ops.push_back(Op{ pool[r.below(pool.size())], r.u() >> 2, r.skewed(12), r.skewed(big ? 11 : 8), r.below(64) });
}

template<class T>
struct H {
using C = typename T::Cont;
using OC = typename T::Other;
using K = typename T::Key;
using V = typename T::Val;
static constexpr bool M = T::is_map, U = !T::is_multi;
static K mk(int i) { return Conv<K>::mk(i); }
static V mv(int i) { return Conv<V>::mk(i); }
template<class X> static int keyof(const X& e) { if constexpr (M) return Conv<K>::un(e.first); else return Conv<K>::un(e); }
template<class X> static int valof(const X& e) { if constexpr (M) return Conv<V>::un(e.second); else return 0; }
static auto mkval(int k, int v) { if constexpr (M) return std::pair<K, V>(mk(k), mv(v)); else return mk(k); }
static auto mkcval(int k, int v) { if constexpr (M) return std::pair<const K, V>(mk(k), mv(v)); else return mk(k); }

#if HASKIND
static typename C::key_compare cmp(int kind) { return typename C::key_compare((u32)kind); }
static bool lt_(int kind, int a, int b) { return ordkey((u32)kind, a) < ordkey((u32)kind, b); }
static int  kindof(const C& x) { return (int)x.key_comp().kind; }
#else
static typename C::key_compare cmp(int) { return {}; }
static int  kindof(const C&) { return 0; }
static bool lt_(int, int a, int b) {
    auto r = cmp(0)(mk(a), mk(b));
    if constexpr (std::is_same_v<decltype(r), bool>) return r; else return r < 0;
}
#endif
static C make(int kind) { return C(cmp(kind)); }

using E = std::pair<int, int>;
struct Model {
    std::vector<E> e;
    int            kind = okind; // the order of this container: it travels with copies, moves and swaps
    bool lt(int a, int b) const { return lt_(kind, a, b); }
    size_t lb(int k) const { return std::lower_bound(e.begin(), e.end(), k, [this](const E& a, int b) { return lt(a.first, b); }) - e.begin(); }
    size_t ub(int k) const { return std::upper_bound(e.begin(), e.end(), k, [this](int b, const E& a) { return lt(b, a.first); }) - e.begin(); }
    bool has(int k) const { return lb(k) != ub(k); }
    bool ins(int k, int v) { // unique: false when an equivalent key exists; multi: after its equals
        if (U && has(k)) return false;
        e.insert(e.begin() + ub(k), E(k, v));
        return true;
    }
};

struct World {
    C c[3] = { make(kinds(0)), make(kinds(1)), make(kinds(2)) };
    Model m[3];
    World() { for (int i = 0; i < 3; ++i) m[i].kind = kinds(i); }
    static int kinds(int i) { return HASKIND && varied ? (okind + i) % 4 : okind; }
    bool erased = false, multi = false;
    size_t mx = 0;
    void full(int i) {
        note(cFull);
        C& x = c[i];
        const C& cx = x;
        auto& e = m[i].e;
        mx = std::max(mx, e.size());
        PBT_EQ(x.size(), e.size());
        if (HASKIND) PBT_EQ(kindof(x), m[i].kind);
        PBT_EQ(x.empty(), e.empty());
        size_t q = 0;
        for (auto it = cx.begin(); it != cx.end(); ++it, ++q) {
            PBT_CHECK(q < e.size(), "iteration yields more elements than expected");
            PBT_CHECK(keyof(*it) == e[q].first && valof(*it) == e[q].second, "element %zu is (%d,%d), expected (%d,%d)", q, keyof(*it), valof(*it),
                      e[q].first, e[q].second);
        }
        PBT_EQ(q, e.size());
        q = e.size();
        for (auto it = cx.rbegin(); it != cx.rend(); ++it) {
            PBT_CHECK(q > 0, "reverse iteration yields more elements than expected");
            --q;
            PBT_CHECK(keyof(*it) == e[q].first && valof(*it) == e[q].second, "reverse element %zu differs", q);
        }
        PBT_EQ(q, (size_t)0);
        q = e.size();
        for (auto it = x.rbegin(); it != x.rend(); ++it) { PBT_CHECK(q > 0 && keyof(*it) == e[q - 1].first && valof(*it) == e[q - 1].second, "reverse element differs"); --q; }
        PBT_EQ(q, (size_t)0);
        q = 0;
        for (auto it = x.cbegin(); it != x.cend(); it++) ++q;
        PBT_EQ(q, e.size());
        PBT_REQUIRE(x.max_size() >= e.size());
        if (e.size() > 1) {
            auto a = x.begin(), b = --x.end();
            auto kc = x.key_comp();
            auto vc = x.value_comp();
            auto neg = [](auto r) { if constexpr (std::is_same_v<decltype(r), bool>) return r; else return r < 0; };
            auto kk = [](const auto& el) -> const K& { if constexpr (M) return el.first; else return el; };
            PBT_CHECK((bool)neg(kc(kk(*a), kk(*b))) == m[i].lt(e[0].first, e.back().first), "key_comp() disagrees with the order");
            PBT_CHECK(!neg(kc(kk(*b), kk(*a))), "key_comp() disagrees with the order");
            PBT_CHECK((bool)neg(vc(*a, *b)) == m[i].lt(e[0].first, e.back().first), "value_comp() disagrees with the order");
        }
    }
    template<class It, class X> size_t posof(X& x, It it, size_t near) { // index of an iterator, checked through its neighbours
        (void)near;
        size_t n = 0;
        for (auto j = x.begin(); j != it; ++j) { PBT_CHECK(n < x.size(), "iterator does not belong to the sequence"); ++n; }
        return n;
    }
    void lookup(int i, int k) {
        C& x = c[i];
        const C& cx = x;
        auto& mm = m[i];
        size_t lo = mm.lb(k), hi = mm.ub(k);
        K key = mk(k);
        auto at = [&](auto it, size_t pos, const char* what) {
            if (pos == mm.e.size()) PBT_CHECK(it == x.end(), "%s(%d) should be end()", what, k);
            else {
                PBT_CHECK(it != x.end(), "%s(%d) is end(), expected an element", what, k);
                PBT_CHECK(keyof(*it) == mm.e[pos].first && valof(*it) == mm.e[pos].second, "%s(%d) yields (%d,%d), expected (%d,%d)", what, k,
                          keyof(*it), valof(*it), mm.e[pos].first, mm.e[pos].second);
            }
        };
        at(x.lower_bound(key), lo, "lower_bound");
        at(x.upper_bound(key), hi, "upper_bound");
        PBT_REQUIRE(cx.lower_bound(key) == typename C::const_iterator(x.lower_bound(key)));
        PBT_REQUIRE(cx.upper_bound(key) == typename C::const_iterator(x.upper_bound(key)));
        PBT_REQUIRE(cx.find(key) == typename C::const_iterator(x.find(key)));
        PBT_EQ((size_t)cx.count(key), hi - lo);
        PBT_EQ(cx.contains(key), hi != lo);
        auto er = x.equal_range(key);
        at(er.first, lo, "equal_range.first");
        at(er.second, hi, "equal_range.second");
        size_t n = 0;
        for (auto it = er.first; it != er.second; ++it) { PBT_CHECK(n < hi - lo, "equal_range(%d) too long", k); PBT_EQ(valof(*it), mm.e[lo + n].second); ++n; }
        PBT_EQ(n, hi - lo);
        auto cer = cx.equal_range(key);
        PBT_REQUIRE(cer.first == typename C::const_iterator(er.first) && cer.second == typename C::const_iterator(er.second));
        PBT_EQ((size_t)x.count(key), hi - lo);
        PBT_EQ(x.contains(key), hi != lo);
        auto f = x.find(key);
        if (hi == lo) PBT_CHECK(f == x.end() && cx.find(key) == cx.end(), "find(%d) finds an absent key", k);
        else {
            PBT_CHECK(f != x.end() && cx.find(key) != cx.end(), "find(%d) misses a present key", k);
            PBT_CHECK(!mm.lt(keyof(*f), k) && !mm.lt(k, keyof(*f)), "find(%d) yields a different key", k);
        }
#ifdef HETERO
        PBT_REQUIRE(x.lower_bound(k) == x.lower_bound(key));
        PBT_REQUIRE(x.upper_bound(k) == x.upper_bound(key));
        PBT_REQUIRE((x.find(k) != x.end()) == (hi != lo));
        PBT_EQ((size_t)x.count(k), hi - lo);
        PBT_EQ(x.contains(k), hi != lo);
        PBT_REQUIRE(x.equal_range(k) == x.equal_range(key));
        PBT_REQUIRE(cx.lower_bound(k) == cx.lower_bound(key));
        PBT_REQUIRE(cx.upper_bound(k) == cx.upper_bound(key));
        PBT_REQUIRE(cx.equal_range(k) == cx.equal_range(key));
        PBT_REQUIRE(cx.find(k) == cx.find(key));
#endif
        if constexpr (M && U) {
            bool threw = false;
            try { int v = Conv<V>::un(cx.at(key)); PBT_REQUIRE(hi != lo); PBT_EQ(v, mm.e[lo].second); }
            catch (const std::out_of_range&) { threw = true; }
            PBT_EQ(threw, hi == lo);
        }
    }
};
static typename C::iterator nth(C& c, size_t n) {
    size_t sz = c.size();
    if (n * 2 <= sz) { auto it = c.begin(); while (n--) ++it; return it; }
    auto it = c.end(); n = sz - n; while (n--) --it; return it;
}
static int fixkey(u32 a) {
    int k = (int)(a % nuni);
#ifdef SMALLKEY
    k &= 255;
#endif
    return k;
}
// an unhinted insertion: result of insert/emplace
template<class R>
static void ins_result(World& w, int i, int k, int v, R r) {
    Model& m = w.m[i];
    if constexpr (U) {
        bool had = m.has(k);
        PBT_CHECK(r.second == !had, "insertion of %s key %d reports %d", had ? "present" : "absent", k, (int)r.second);
        if (had) { note(cDup); auto& e = m.e[m.lb(k)]; PBT_EQ(keyof(*r.first), e.first); PBT_EQ(valof(*r.first), e.second); }
        else { PBT_EQ(keyof(*r.first), k); PBT_EQ(valof(*r.first), v); m.ins(k, v); }
    } else {
        PBT_EQ(keyof(*r), k); PBT_EQ(valof(*r), v);
        if (m.has(k)) note(cDup);
        m.ins(k, v);
        PBT_CHECK(w.posof(w.c[i], r, 0) + 1 == m.ub(k), "an unhinted insertion must go after the equivalent elements");
    }
}
// a hinted insertion at model position hp
template<class It>
static void hint_result(World& w, int i, int k, int v, size_t hp, It it) {
    Model& m = w.m[i];
    note(cHint);
    w.multi = true;
    if (U && m.has(k)) { note(cDup); auto& e = m.e[m.lb(k)]; PBT_EQ(keyof(*it), e.first); PBT_EQ(valof(*it), e.second); return; }
    PBT_EQ(keyof(*it), k); PBT_EQ(valof(*it), v);
    size_t pos = w.posof(w.c[i], it, 0);
    size_t lo = m.lb(k), hi = m.ub(k);
    PBT_CHECK(pos >= lo && pos <= hi, "hinted insertion of %d placed it at %zu, outside its range [%zu,%zu]", k, pos, lo, hi);
    if (hp >= lo && hp <= hi) PBT_CHECK(pos == hp, "hinted insertion with a correct hint (%zu) placed the element at %zu", hp, pos);
    m.e.insert(m.e.begin() + pos, E(k, v));
}

// a range insertion or construction copies: the source elements keep their values
template<class Vec, class Src>
static void unchanged(const Vec& vec, const Src& src) {
    PBT_EQ(vec.size(), src.size());
    auto s = src.begin();
    for (auto& e : vec) {
        PBT_CHECK(keyof(e) == s->first && (!M || valof(e) == s->second), "copying a range changed its source: {%d,%d} is now {%d,%d}", s->first, s->second, keyof(e), valof(e));
        ++s;
    }
}

static void one(World& w, const Op& o) {
    int i = o.d % 3, j = (o.d / 3) % 3;
    C& x = w.c[i];
    Model& m = w.m[i];
    int k = fixkey(o.a), v = M ? ++nextval % 100000 : 0;
    size_t sz = m.e.size();
    auto hintpos = [&]() -> size_t { // sometimes the right place, sometimes next to it, sometimes anywhere
        size_t p = o.b % 3 == 0 ? m.lb(k) : o.b % 3 == 1 ? m.ub(k) : o.a % (sz + 1);
        if (o.c % 5 == 1 && p < sz) ++p;
        if (o.c % 5 == 2 && p > 0) --p;
        return p;
    };
    switch (o.code % oN) {
        case oInsC: { auto val = mkcval(k, v); ins_result(w, i, k, v, x.insert(val)); PBT_EQ(keyof(val), k); PBT_EQ(valof(val), v); break; }
        case oInsM: { auto val = mkcval(k, v); ins_result(w, i, k, v, x.insert(std::move(val))); break; }
        case oInsH: {
            size_t hp = hintpos(); auto h = nth(x, hp);
            auto val = mkcval(k, v);
            if (o.c & 8) { hint_result(w, i, k, v, hp, x.insert(typename C::const_iterator(h), val)); PBT_EQ(keyof(val), k); PBT_EQ(valof(val), v); }
            else hint_result(w, i, k, v, hp, x.insert(typename C::const_iterator(h), std::move(val)));
            break;
        }
        case oEmp: if constexpr (M) ins_result(w, i, k, v, x.emplace(mk(k), mv(v))); else ins_result(w, i, k, v, x.emplace(mk(k))); break;
        case oEmpH: {
            size_t hp = hintpos(); auto h = nth(x, hp);
            if constexpr (M) hint_result(w, i, k, v, hp, x.emplace_hint(h, mk(k), mv(v))); else hint_result(w, i, k, v, hp, x.emplace_hint(h, mk(k)));
            break;
        }
        case oInsR: {
            std::vector<std::decay_t<decltype(mkval(0, 0))>> vec;
            std::vector<E> src;
            int n = o.c % 64;
            for (int q = 0; q < n; ++q) {
                int d = o.b % 4 == 0 ? q : o.b % 4 == 1 ? -q : o.b % 4 == 2 ? (int)(mix64(o.a + q) % nuni) : 0;
                int kk = fixkey((u32)(o.a % nuni + nuni * 2 + d)); 
                int vv = M ? ++nextval % 100000 : 0;
                vec.push_back(mkval(kk, vv));
                src.emplace_back(kk, vv);
                m.ins(kk, vv); // equivalent elements of a multi container: in insertion order
            }
            if (o.b & 16) { std::list<std::decay_t<decltype(mkval(0, 0))>> l(vec.begin(), vec.end()); x.insert(l.begin(), l.end()); unchanged(l, src); }
            else { x.insert(vec.begin(), vec.end()); unchanged(vec, src); }
            w.full(i);
            w.multi = true;
            break;
        }
        case oInsI: { int k2 = fixkey(k + 1); x.insert({ mkval(k, v), mkval(k2, v), mkval(k, v) }); m.ins(k, v); m.ins(k2, v); m.ins(k, v); w.full(i); break; }
        case oTry:
            if constexpr (M && U) {
                if (o.b & 1) { K key = mk(k); ins_result(w, i, k, v, x.try_emplace(key, mv(v))); PBT_EQ(Conv<K>::un(key), k); }
                else {
                    K key = mk(k); V val = mv(v); bool had = m.has(k);
                    ins_result(w, i, k, v, x.try_emplace(std::move(key), std::move(val)));
                    if (had) { PBT_EQ(Conv<K>::un(key), k); PBT_EQ(Conv<V>::un(val), v); }
                }
            }
            break;
        case oTryH: if constexpr (M && U) { size_t hp = hintpos(); auto h = nth(x, hp); 
            if (o.c & 8) { K key = mk(k); hint_result(w, i, k, v, hp, x.try_emplace(h, key, mv(v))); PBT_EQ(Conv<K>::un(key), k); }
            else {
                K key = mk(k); V val = mv(v); bool had = m.has(k);
                hint_result(w, i, k, v, hp, x.try_emplace(h, std::move(key), std::move(val)));
                if (had) { PBT_EQ(Conv<K>::un(key), k); PBT_EQ(Conv<V>::un(val), v); }
            }
        } break;
        case oSub:
            if constexpr (M && U) {
                bool had = m.has(k);
                int old = had ? m.e[m.lb(k)].second : 0;
                if (o.b & 1) { x[mk(k)] = mv(v); if (had) m.e[m.lb(k)].second = v; else m.ins(k, v); }
                else if constexpr (!std::is_same_v<V, std::string>) { K key = mk(k); PBT_EQ(Conv<V>::un(x[key]), old); if (!had) m.ins(k, 0); }
            }
            break;
        case oAt: if constexpr (M && U) { if (m.has(k)) { x.at(mk(k)) = mv(v); m.e[m.lb(k)].second = v; } } break;
        case oLook: w.lookup(i, k); break;
        case oErK: {
            size_t lo = m.lb(k), hi = m.ub(k);
#ifdef HETERO
            size_t n = o.b & 1 ? x.erase(k) : x.erase(mk(k));
#else
            size_t n = x.erase(mk(k));
#endif
            PBT_CHECK(n == hi - lo, "erase(key %d) returned %zu, expected %zu", k, n, hi - lo);
            m.e.erase(m.e.begin() + lo, m.e.begin() + hi);
            if (n) { w.erased = true; note(cErase, n); }
            break;
        }
        case oErI: case oErCI: {
            if (!sz) break;
            size_t p = o.b % 4 == 0 ? 0 : o.b % 4 == 1 ? sz - 1 : o.a % sz;
            auto it = nth(x, p);
            auto r = o.code % oN == oErI ? x.erase(it) : x.erase(typename C::const_iterator(it));
            m.e.erase(m.e.begin() + p);
            if (p == m.e.size()) PBT_CHECK(r == x.end(), "erase of the last element must return end()");
            else PBT_CHECK(r != x.end() && keyof(*r) == m.e[p].first && valof(*r) == m.e[p].second, "erase(iterator) returned the wrong position");
            w.erased = true; note(cErase);
            break;
        }
        case oErR: {
            size_t a = o.a % (sz + 1), b = a + o.b % (sz - a + 1);
            if (o.c % 8 == 0) a = 0;
            if (o.c % 8 == 1) b = sz;
            auto f = nth(x, a), l = nth(x, b);
            auto r = x.erase(typename C::const_iterator(f), typename C::const_iterator(l));
            m.e.erase(m.e.begin() + a, m.e.begin() + b);
            if (a == m.e.size()) PBT_CHECK(r == x.end(), "range erase must return end()");
            else PBT_CHECK(r != x.end() && keyof(*r) == m.e[a].first && valof(*r) == m.e[a].second, "range erase returned the wrong position");
            if (b > a) { w.erased = w.multi = true; note(cRange); note(cErase, b - a); }
            break;
        }
        case oExK: {
            size_t lo = m.lb(k), hi = m.ub(k);
            auto nh = x.extract(mk(k));
            PBT_EQ((bool)nh, hi != lo); PBT_EQ(nh.empty(), hi == lo);
            if (!nh) break;
            note(cNode);
            int kk, vv = 0;
            if constexpr (M) { kk = Conv<K>::un(nh.key()); vv = Conv<V>::un(nh.mapped()); } else kk = Conv<K>::un(nh.value());
            size_t p = lo;
            std::vector<E> left; // which of several identical elements left is read off the container
            for (auto& e : x) left.push_back(E(keyof(e), valof(e)));
            for (; p < hi; ++p) if (m.e[p] == E(kk, vv)) { auto t = m.e; t.erase(t.begin() + p); if (t == left) break; }
            PBT_CHECK(p < hi, "extract(%d) returned an element that was not there", k);
            m.e.erase(m.e.begin() + p);
            w.full(i); w.erased = true;
            if (o.b & 1) break; // drop it
            if constexpr (U) {
                auto r = x.insert(std::move(nh));
                PBT_REQUIRE(r.inserted); PBT_REQUIRE(r.node.empty()); PBT_EQ(keyof(*r.position), kk); PBT_EQ(valof(*r.position), vv);
                m.ins(kk, vv);
            } else { auto r = x.insert(std::move(nh)); PBT_EQ(keyof(*r), kk); PBT_EQ(valof(*r), vv); m.ins(kk, vv); PBT_REQUIRE(nh.empty()); }
            break;
        }
        case oExI: {
            if (!sz) break;
            size_t p = o.a % sz;
            auto it = nth(x, p);
            E el = m.e[p];
            auto nh = (o.c & 1) ? x.extract(it) : x.extract(typename C::const_iterator(it));
            PBT_REQUIRE((bool)nh);
            m.e.erase(m.e.begin() + p);
            w.full(i); w.erased = w.multi = true; note(cNode);
            Model& mj = w.m[j]; C& y = w.c[j];
            bool there = mj.has(el.first);
            if (o.b & 1) {
                size_t hp = o.b % 4 == 1 ? mj.lb(el.first) : o.c % (mj.e.size() + 1);
                auto h = nth(y, hp);
                auto r = y.insert(typename C::const_iterator(h), std::move(nh));
                hint_result(w, j, el.first, el.second, hp, r);
                if (U) PBT_EQ(nh.empty(), !there);
            } else if constexpr (U) {
                auto r = y.insert(std::move(nh));
                PBT_EQ(r.inserted, !there); PBT_EQ(r.node.empty(), !there);
                if (there) { if constexpr (M) PBT_EQ(Conv<V>::un(r.node.mapped()), el.second); else PBT_EQ(Conv<K>::un(r.node.value()), el.first); }
                else mj.ins(el.first, el.second);
            } else { y.insert(std::move(nh)); mj.ins(el.first, el.second); }
            w.full(j);
            break;
        }
        case oMerge: {
            if (i == j) break;
            if (o.b & 1) x.merge(w.c[j]); else x.merge(std::move(w.c[j]));
            if (U) {
                std::vector<E> rest;
                for (auto& e : w.m[j].e) if (!m.ins(e.first, e.second)) rest.push_back(e);
                w.m[j].e = rest;
            } else {
                for (auto& e : w.m[j].e) m.ins(e.first, e.second); // in the source's order, after the destination's equivalents
                w.m[j].e.clear();
            }
            w.full(j); w.full(i); w.multi = true; note(cNode);
            break;
        }
        case oMergeO: { // merge from the multi (or unique) counterpart
            int yk = HASKIND && varied ? (int)(o.b % 4) : m.kind;
            OC y(cmp(yk));
            std::vector<E> ye;
            for (u32 q = 0; q < o.c % 40; ++q) {
                int kk = fixkey((u32)mix64(o.a + q)), vv = M ? ++nextval % 100000 : 0;
                y.insert(mkval(kk, vv));
            }
            for (auto& e : y) ye.push_back(E(keyof(e), valof(e)));
            x.merge(y);
            if (U) {
                std::vector<E> rest, left;
                for (auto& e : ye) if (!m.ins(e.first, e.second)) rest.push_back(e);
                for (auto& e : y) left.push_back(E(keyof(e), valof(e)));
                PBT_CHECK(left == rest, "merge left %zu elements in the source, expected %zu", left.size(), rest.size());
            } else {
                PBT_REQUIRE(y.empty());
                for (auto& e : ye) m.ins(e.first, e.second);
                w.full(i);
            }
            w.multi = true; note(cNode);
            break;
        }
        case oSwap: if (o.b & 1) x.swap(w.c[j]); else { using std::swap; swap(x, w.c[j]); } std::swap(m, w.m[j]); if (i != j) { w.multi = true; w.full(j); } break;
        case oCopyC: { C tmp(x); PBT_REQUIRE(tmp == x); if (i != j) { w.c[j] = std::move(tmp); w.m[j] = m; w.full(j); w.multi = true; } break; }
        case oCopyA: w.c[j] = x; w.m[j] = m; w.full(j); w.full(i); w.multi = true; break;
        case oMoveC: { C tmp(std::move(x)); Model mm = std::move(m); m.e.clear(); if (o.b & 1) x = make(m.kind); else { x.clear(); m.kind = kindof(x); w.full(i); } w.c[j] = std::move(tmp); w.m[j] = std::move(mm); if (i != j) m.e.clear(); w.full(i); w.full(j); w.multi = true; break; }
        case oMoveA: if (i != j) { w.c[j] = std::move(x); w.m[j] = std::move(m); if (o.b & 1) x = make(m.kind); else { x.clear(); m.kind = kindof(x); } m.e.clear(); w.full(i); w.full(j); w.multi = true; } break;
        case oSelf: { C& alias = x; x = alias; break; }
        case oClear: x.clear(); if (sz) w.erased = true; m.e.clear(); PBT_REQUIRE(x.begin() == x.end()); break;
        case oCmp: {
            auto& a = m.e; auto& b = w.m[j].e;
            bool eq, less;
            if constexpr (std::is_same_v<K, std::string>) {
                auto mkv = [](const std::vector<E>& e) { std::vector<decltype(mkval(0, 0))> r; for (auto& q : e) r.push_back(mkval(q.first, q.second)); return r; };
                auto p = mkv(a), q = mkv(b);
                eq = p == q; less = p < q;
            } else { eq = a == b; less = a < b; }
            PBT_EQ((x == w.c[j]), eq); PBT_EQ((x != w.c[j]), !eq);
            if constexpr (!std::is_same_v<K, Big>) {
                PBT_EQ((x < w.c[j]), less); PBT_EQ((w.c[j] > x), less); PBT_EQ((w.c[j] <= x), !less); PBT_EQ((x >= w.c[j]), !less);
            }
            w.multi = true;
            break;
        }
        case oErIf: {
            int md = 2 + (int)(o.b % 5), rs = (int)(o.c % md);
            size_t vis = 0;
            gtl::erase_if(x, [&](const auto& e) { ++vis; return keyof(e) % md == rs; });
            PBT_EQ(vis, sz);
            std::erase_if(m.e, [&](const E& e) { return e.first % md == rs; });
            if (m.e.size() < sz) w.erased = true;
            break;
        }
        case oBulkI: {
            for (u32 q = 0; q < o.c; ++q) {
                int d = o.b % 3 == 0 ? (int)q : o.b % 3 == 1 ? -(int)q : (int)(mix64(o.a + q) % nuni);
                int kk = fixkey((u32)(o.a % nuni + nuni * 4 + d)), vv = M ? ++nextval % 100000 : 0;
                auto r = x.insert(mkval(kk, vv));
                if constexpr (U) PBT_CHECK(r.second == m.ins(kk, vv), "insertion of key %d reports %d", kk, (int)r.second);
                else { m.ins(kk, vv); PBT_EQ(valof(*r), vv); }
            }
            break;
        }
        case oBulkE: {
            for (u32 q = 0; q < o.c; ++q) {
                int d = o.b % 3 == 0 ? (int)q : o.b % 3 == 1 ? -(int)q : (int)(mix64(o.a + q) % nuni);
                int kk = fixkey((u32)(o.a % nuni + nuni * 4 + d));
                size_t lo = m.lb(kk), hi = m.ub(kk);
                size_t n = x.erase(mk(kk));
                PBT_CHECK(n == hi - lo, "erase(key %d) returned %zu, expected %zu", kk, n, hi - lo);
                if (n) { m.e.erase(m.e.begin() + lo, m.e.begin() + hi); w.erased = true; note(cErase, n); }
            }
            break;
        }
        case oRangeC: {
            std::vector<std::decay_t<decltype(mkval(0, 0))>> vec;
            for (auto& e : m.e) vec.push_back(mkval(e.first, e.second));
            if (o.b & 1) std::reverse(vec.begin(), vec.end());
            C tmp(vec.begin(), vec.end(), cmp(m.kind));
            { auto src = m.e; if (o.b & 1) std::reverse(src.begin(), src.end()); unchanged(vec, src); }
            PBT_EQ(tmp.size(), m.e.size());
            if (U || !(o.b & 1)) PBT_REQUIRE(tmp == x);
            if (o.b & 1 && i != j) { // equivalents of a multi container come in the order of the range
                w.m[j].e.clear();
                w.m[j].kind = m.kind;
                for (size_t q = m.e.size(); q-- > 0;) w.m[j].ins(m.e[q].first, m.e[q].second);
                w.c[j] = std::move(tmp);
                w.full(j);
            }
            break;
        }
        case oItEr: {
            int md = 2 + (int)(o.b % 4);
            size_t vis = 0;
            for (auto it = x.begin(); it != x.end();) { PBT_CHECK(++vis <= sz, "erase-while-iterating does not end"); if (keyof(*it) % md == 0) it = x.erase(it); else ++it; }
            PBT_EQ(vis, sz);
            std::erase_if(m.e, [&](const E& e) { return e.first % md == 0; });
            if (m.e.size() < sz) w.erased = true;
            break;
        }
        case oIlA: {
            int k2 = fixkey(k + 1), v2 = M ? ++nextval % 100000 : 0;
            x = C({ mkval(k, v), mkval(k2, v), mkval(k, v2) }, cmp(m.kind));
            m.e.clear(); m.ins(k, v); m.ins(k2, v); m.ins(k, v2);
            w.full(i);
            break;
        }
        case oFull: for (int q = 0; q < 3; ++q) w.full(q); break;
        case oWalk: { // random walk with ++/-- checked against positions
            if (!sz) break;
            size_t p = o.a % sz;
            auto it = nth(x, p);
            u64 s = o.a;
            for (u32 q = 0; q < 40; ++q) {
                PBT_CHECK(keyof(*it) == m.e[p].first && valof(*it) == m.e[p].second, "iterator walk is off at position %zu", p);
                s = mix64(s);
                if (s & 1) { if (p + 1 < sz) { auto was = it; if (s & 2) PBT_REQUIRE(&++it == &it); else PBT_REQUIRE(it++ == was); PBT_REQUIRE(it != was); ++p; } }
                else if (p > 0) { auto was = it; if (s & 2) PBT_REQUIRE(&--it == &it); else PBT_REQUIRE(it-- == was); PBT_REQUIRE(it != was); --p; }
            }
            break;
        }
        case oFresh: if (HASKIND && varied) m.kind = (int)(o.b % 4); x = make(m.kind); m.e.clear(); break;
    }
}

};
void pbt_run(const Case& cs, Ctx& ctx) {
    nuni = cs.c(0) ? (int)cs.c(0) : 1;
#ifdef SMALLKEY
    if (nuni > 256) nuni = 256;
#endif
    okind = HASKIND ? (int)cs.c(1) % 4 : 0;
    varied = cs.c(2) & 1;
    nextval = 0;
    long lk = TK::live, lv = TV::live;
    {
        using HT = H<T>;
        typename HT::World w;
        for (size_t q = 0; q < cs.ops.size(); ++q) {
            ctx.opno = (int)q;
            const Op o = cs.ops[q];
            HT::one(w, o);
            int i = o.d % 3;
            PBT_EQ(w.c[i].size(), w.m[i].e.size());
            w.lookup(i, HT::fixkey(o.a >> 3));
            if (w.m[i].e.size() <= 60 || q % 8 == 0) w.full(i);
        }
        for (int q = 0; q < 3; ++q) w.full(q);
        if (w.mx > 300) note(cBig);
        if (w.multi) note(cMulti2);
        ctx.nontrivial = w.mx >= 12 && w.erased && w.multi;
    }
    PBT_EQ(TK::live, lk);
    PBT_EQ(TV::live, lv);
    PBT_CHECK(blocks().empty(), "%zu allocator blocks never released", blocks().size());
}
