// C20: keys the container considers equal are found whatever their representation/type, and hash equally.
// CFG = container (0 flat map, 1 node map, 2 parallel flat map, 3 flat set, 4 parallel node set, 5 btree_map,
// 6 btree_multimap, 7 btree_set), cfg[0] = kind of key. CFG 20: hash functions themselves.
#include "types.hpp"
#include <gtl/bit_vector.hpp>
#include <gtl/btree.hpp>
#include <gtl/intrusive.hpp>
#include <gtl/phmap.hpp>
#include <cmath>
#include <mutex>
#include <optional>
#ifndef CFG
    #define CFG 0
#endif
using namespace pbt;

enum { kHits, kMisses, kHeteroHits, kInserts, kErases };
static const char* cn[]              = { "lookups_hit", "lookups_missed", "hits_through_another_representation", "inserted", "erased", nullptr };
const char* const* pbt_counter_names = cn;

// ---------------- keys ----------------------------------------------------------------------
static std::string str(int id) {
    std::string s = Conv<std::string>::mk(id);
    if (id % 7 == 5) s += std::string("\0x", 2); // embedded NUL: equal only as views
    if (id == 0) s.clear();
    return s;
}
struct RepStr {
    using key                      = std::string;
    static constexpr bool ins      = true; // a key can be made from every representation
    static constexpr bool btree_ok = true;
    static constexpr int  variants = 6;
    static key            mk(int id) { return str(id); }
    template<class F>
    static auto with(int id, int v, F f) {
        key         s   = str(id);
        std::string big = "<" + s + ">";
        bool        nul = s.find('\0') != s.npos;
        switch (v) {
            case 1: return f(std::string_view(s));
            case 2: if (!nul) return f(s.c_str()); break;
            case 3: return f(std::string_view(big).substr(1, s.size()));
            case 4: if (!nul && s.size() < 63) { char buf[64]; strcpy(buf, s.c_str()); return f(buf); } break;
            case 5: if (!nul) { char* p = s.data(); return f(p); } break;
        }
        return f(s);
    }
};
template<class Ch>
struct RepWide {
    using key                      = std::basic_string<Ch>;
    static constexpr bool ins      = true;
    static constexpr bool btree_ok = false;
    static constexpr int  variants = 3;
    static key            mk(int id) {
        std::string s = str(id);
        key         r;
        for (char c : s) r += (Ch)((unsigned char)c + (id % 3 ? 0x400 : 0));
        return r;
    }
    template<class F>
    static auto with(int id, int v, F f) {
        key s = mk(id), big = Ch('<') + s + Ch('>');
        switch (v) {
            case 1: return f(std::basic_string_view<Ch>(s));
            case 2: return f(std::basic_string_view<Ch>(big).substr(1, s.size()));
        }
        return f(s);
    }
};
struct RepView { // string_view keys (the characters live in a static pool)
    using key                      = std::string_view;
    static constexpr bool ins      = false;
    static constexpr bool btree_ok = true;
    static constexpr int  variants = 3;
    static key            mk(int id) {
        static auto* pool = new std::map<int, std::string>();
        auto         it   = pool->find(id);
        if (it == pool->end()) it = pool->emplace(id, str(id)).first;
        return it->second;
    }
    template<class F>
    static auto with(int id, int v, F f) {
        std::string s = str(id);
        switch (v) {
            case 1: return f(std::string_view(s));
            case 2: if (s.find('\0') == s.npos) return f(s.c_str()); break;
        }
        return f(s);
    }
};
struct Animal {
    int id;
    virtual ~Animal() {}
};
struct Other {
    long pad = 7;
    virtual ~Other() {}
};
struct Dog : Other, Animal {};
struct Pool {
    std::vector<std::shared_ptr<Animal>> v;
    Pool() {
        for (int i = 0; i < 256; ++i) {
            if (i % 3 == 1) v.push_back(std::make_shared<Dog>());
            else v.push_back(std::make_shared<Animal>());
            v.back()->id = i;
        }
    }
    static Pool& get() {
        static Pool* p = new Pool();
        return *p;
    }
};
struct NoDelete {
    template<class T>
    void operator()(T*) const {}
};
template<class K>
struct RepPtr { // K: shared_ptr<Animal>, Animal*, unique_ptr<Animal, NoDelete>
    using key                      = K;
    static constexpr bool ins      = false;
    static constexpr bool btree_ok = false;
    static constexpr int  variants = 6;
    static key            mk(int id) {
        auto& p = Pool::get().v[id & 255];
        if constexpr (std::is_same_v<K, std::shared_ptr<Animal>>) return p;
        else if constexpr (std::is_pointer_v<K>) return p.get();
        else return K(p.get());
    }
    template<class F>
    static auto with(int id, int v, F f) {
        auto& p = Pool::get().v[id & 255];
        switch (v) {
            case 1: return f(p.get());
            case 2: return f(static_cast<const Animal*>(p.get()));
            case 3: return f(p);
            case 4: return f(std::unique_ptr<Animal, NoDelete>(p.get()));
            case 5: if (auto d = std::dynamic_pointer_cast<Dog>(p)) return f(d); break;
        }
        return f(mk(id));
    }
};
struct RepDbl {
    using key                      = double;
    static constexpr bool ins      = true;
    static constexpr bool btree_ok = true;
    static constexpr int  variants = 2;
    static key            mk(int id) { return id == 0 ? 0.0 : id % 2 ? id / 8.0 : -id * 1e15; }
    template<class F>
    static auto with(int id, int v, F f) {
        double d = mk(id);
        return f(v && d == 0 ? -d : d);
    }
};
struct RepPair {
    using key                      = std::pair<float, std::pair<double, std::string>>;
    static constexpr bool ins      = true;
    static constexpr bool btree_ok = true;
    static constexpr int  variants = 2;
    static key            mk(int id) { return { (float)(id & 1), { (double)(id >> 1 & 1), str(id) } }; }
    template<class F>
    static auto with(int id, int v, F f) {
        key k = mk(id);
        if (v && k.first == 0) k.first = -0.0f;
        if (v && k.second.first == 0) k.second.first = -0.0;
        return f(k);
    }
};
struct RepTuple {
    using key                      = std::tuple<float, short, double, std::string>;
    static constexpr bool ins      = true;
    static constexpr bool btree_ok = true;
    static constexpr int  variants = 2;
    static key            mk(int id) { return { (float)(id & 1), (short)(id % 5), (double)(id >> 1 & 1), str(id) }; }
    template<class F>
    static auto with(int id, int v, F f) {
        key k = mk(id);
        if (v && std::get<0>(k) == 0) std::get<0>(k) = -0.0f;
        if (v && std::get<2>(k) == 0) std::get<2>(k) = -0.0;
        return f(k);
    }
};
enum class Color : short {};
struct RepEnum {
    using key                      = Color;
    static constexpr bool ins      = true;
    static constexpr bool btree_ok = true;
    static constexpr int  variants = 1;
    static key            mk(int id) { return (Color)(id * 100); }
    template<class F>
    static auto with(int id, int, F f) {
        return f(mk(id));
    }
};
struct User { // documented hook 1: friend hash_value() built with HashState
    std::string s;
    int         x    = 0;
    int         memo = 0; // not part of the key's identity
    friend size_t hash_value(const User& u) { return gtl::HashState().combine(0, u.x, u.s); }
    bool          operator==(const User& o) const { return s == o.s && x == o.x; }
    bool          operator<(const User& o) const { return std::tie(s, x) < std::tie(o.s, o.x); }
};
struct User2 { // documented hook 2: std::hash specialization
    int  x;
    char pad;
    bool operator==(const User2& o) const { return x == o.x; }
    bool operator<(const User2& o) const { return x < o.x; }
};
template<>
struct std::hash<User2> {
    size_t operator()(const User2& u) const { return std::hash<int>()(u.x); }
};
struct RepUser {
    using key                      = User;
    static constexpr bool ins      = true;
    static constexpr bool btree_ok = true;
    static constexpr int  variants = 3;
    static key            mk(int id) { return { str(id / 2), id % 2, 0 }; }
    template<class F>
    static auto with(int id, int v, F f) {
        key k  = mk(id);
        k.memo = v;
        return f(k);
    }
};
struct RepUser2 {
    using key                      = User2;
    static constexpr bool ins      = true;
    static constexpr bool btree_ok = true;
    static constexpr int  variants = 3;
    static key            mk(int id) { return { id, 0 }; }
    template<class F>
    static auto with(int id, int v, F f) {
        return f(User2{ id, (char)v });
    }
};
// user-supplied transparent functors: keys are TK, looked up by int
struct RepTK {
    using key                      = TK;
    static constexpr bool ins      = true;
    static constexpr bool btree_ok = true;
    static constexpr int  variants = 2;
    static key            mk(int id) { return TK(id); }
    template<class F>
    static auto with(int id, int v, F f) {
        if (v) return f(id);
        return f(TK(id));
    }
};
struct TKLess {
    using is_transparent = void;
    bool operator()(const TK& a, const TK& b) const { return a.get() < b.get(); }
    bool operator()(const TK& a, int b) const { return a.get() < b; }
    bool operator()(int a, const TK& b) const { return a < b.get(); }
};

// ---------------- containers -----------------------------------------------------------------
template<class R>
struct Sel {
    using K = typename R::key;
    using hash = std::conditional_t<std::is_same_v<K, TK>, TransparentHash<K>, typename gtl::flat_hash_set<K>::hasher>;
    using eq   = std::conditional_t<std::is_same_v<K, TK>, TransparentEq<K>, typename gtl::flat_hash_set<K>::key_equal>;
    using less = std::conditional_t<std::is_same_v<K, TK>, TKLess, std::less<K>>;
    using AP   = std::allocator<std::pair<const K, int>>;
    using AK   = std::allocator<K>;
#if CFG == 0
    using type = gtl::flat_hash_map<K, int, hash, eq>;
#elif CFG == 1
    using type = gtl::node_hash_map<K, int, hash, eq>;
#elif CFG == 2
    using type = gtl::parallel_flat_hash_map<K, int, hash, eq, AP, 2, std::mutex>;
#elif CFG == 3
    using type = gtl::flat_hash_set<K, hash, eq>;
#elif CFG == 4
    using type = gtl::parallel_node_hash_set<K, hash, eq, AK, 3, gtl::NullMutex>;
#elif CFG == 5
    using type = gtl::btree_map<K, int, less>;
#elif CFG == 6
    using type = gtl::btree_multimap<K, int, less>;
#elif CFG == 7
    using type = gtl::btree_set<K, less>;
#endif
};
static constexpr bool kMap   = CFG == 0 || CFG == 1 || CFG == 2 || CFG == 5 || CFG == 6;
static constexpr bool kPar   = CFG == 2 || CFG == 4;
static constexpr bool kBtree = CFG >= 5;
static constexpr bool kMulti = CFG == 6;

#if CFG < 20
const char* pbt_rule = "a case is a key kind and a history of lookups/insertions/erasures, each through a drawn representation of the key; non-trivial: an element inserted through one "
                       "representation was found or erased through another";
enum { FIND, CONTAINS, COUNT, ERASE, EXTRACT, EQRANGE, AT, INDEX, TRY_EMPLACE, IOA, EMPLACE, INSERT, IF_CONTAINS, MODIFY_IF, ERASE_IF, LAZY, BOUNDS, WITH_HASH, TRY_EMPLACE_L, LAZY_L, NOPS };
static const char* opn[]        = { "find", "contains", "count", "erase", "extract", "equal_range", "at", "index", "try_emplace", "insert_or_assign", "emplace", "insert", "if_contains",
                                    "modify_if", "erase_if", "lazy_emplace", "bounds", "with_hash", "try_emplace_l", "lazy_emplace_l" };
const char* const* pbt_op_names = opn;
int                pbt_num_ops  = NOPS;
void pbt_gen(Rng& r, Case& c) {
    u32 keys = r.chance(1, 3) ? 8 : r.chance(1, 2) ? 40 : 200;
    c.cfg    = { r.below(12), keys };
    u32 n    = 8 + r.skewed(7);
    for (u32 i = 0; i < n; ++i)
        c.ops.push_back({ r.chance(1, 3) ? (u32)INSERT : r.below(NOPS), r.u(), r.u(), r.u(), r.u() });
}

template<class R>
struct H {
    using C = typename Sel<R>::type;
    using K = typename R::key;
    C                                  c;
    std::multimap<int, std::pair<int, int>> m; // id -> (value, representation it was inserted through)
    bool                               nt = false;

    void saw(int id, int v, bool hit) {
        if (!hit) { note(kMisses); return; }
        note(kHits);
        auto it = m.find(id);
        if (it != m.end() && it->second.second != v) { nt = true; note(kHeteroHits); }
    }
    template<class It>
    int val(It it) {
        if constexpr (kMap) return it->second;
        else return 0;
    }
    template<class It>
    const K& keyof(It it) {
        if constexpr (kMap) return it->first;
        else return *it;
    }
    auto has(int id, int value) { // an equivalent element with that value
        auto r = m.equal_range(id);
        for (auto it = r.first; it != r.second; ++it)
            if (it->second.first == value) return it;
        return m.end();
    }
    bool same(const K& k, int id) {
        if constexpr (std::is_same_v<K, std::unique_ptr<Animal, NoDelete>>) return k.get() == Pool::get().v[id & 255].get();
        else return k == R::mk(id);
    }
    auto elem(int id, int value) {
        if constexpr (kMap) return std::pair<K, int>(R::mk(id), value);
        else return R::mk(id);
    }
    void op(const Op& o, u32 nkeys) {
        int  id  = (int)(o.a % nkeys);
        int  v   = (int)(o.b % R::variants);
        int  x   = (int)(o.c % 1000);
        bool in  = m.count(id) > 0;
        R::with(id, v, [&](const auto& k) -> int {
            step(k, o, id, v, x, in);
            return 0;
        });
        PBT_EQ(c.size(), m.size());
    }
    template<class KA>
    void step(const KA& k, const Op& o, int id, int v, int x, bool in) {
            using KK = std::decay_t<KA>;
            auto mins = [&](int value, int rep) { m.insert({ id, { kMap ? value : 0, rep } }); note(kInserts); };
            switch (o.code % NOPS) {
                case FIND: {
                    auto it = c.find(k);
                    PBT_CHECK((it != c.end()) == in, "find(key %d as representation %d) = %d, expected %d", id, v, it != c.end(), in);
                    if (in) PBT_REQUIRE(same(keyof(it), id));
                    if (in) PBT_REQUIRE(has(id, val(it)) != m.end());
                    const C& cc = c;
                    PBT_REQUIRE((cc.find(k) != cc.end()) == in);
                    saw(id, v, in);
                    break;
                }
                case CONTAINS: PBT_EQ(c.contains(k), in); saw(id, v, in); break;
                case COUNT: PBT_EQ(c.count(k), m.count(id)); saw(id, v, in); break;
                case ERASE: {
                    saw(id, v, in);
                    PBT_EQ(c.erase(k), m.count(id));
                    if (in) note(kErases);
                    m.erase(id);
                    break;
                }
                case EXTRACT: {
                    saw(id, v, in);
                    auto nh = c.extract(k);
                    PBT_EQ(!nh.empty(), in);
                    if (in) {
                        auto it = m.find(id);
                        if constexpr (kMap) {
                            PBT_REQUIRE(same(nh.key(), id));
                            it = has(id, nh.mapped());
                            PBT_REQUIRE(it != m.end());
                        } else
                            PBT_REQUIRE(same(nh.value(), id));
                        m.erase(it);
                    }
                    break;
                }
                case EQRANGE: {
                    if constexpr (!kPar || true) {
                        auto   r = c.equal_range(k);
                        size_t n = 0;
                        auto   mi = m.lower_bound(id);
                        for (auto it = r.first; it != r.second; ++it, ++n, ++mi) {
                            PBT_REQUIRE(same(keyof(it), id));
                            PBT_REQUIRE(n < m.count(id));
                            PBT_EQ(val(it), mi->second.first);
                        }
                        PBT_EQ(n, m.count(id));
                        saw(id, v, in);
                    }
                    break;
                }
                case AT:
                    if constexpr (kMap && !kMulti) {
                        bool thrown = false;
                        try {
                            PBT_EQ(c.at(k), in ? m.find(id)->second.first : -1);
                        } catch (std::out_of_range&) {
                            thrown = true;
                        }
                        PBT_EQ(thrown, !in);
                        saw(id, v, in);
                    }
                    break;
                case INDEX:
                    if constexpr (kMap && !kMulti && R::ins && std::is_constructible_v<K, const KK&>) {
                        if constexpr (!kBtree || std::is_convertible_v<const KK&, K>) {
                            int& r = c[k];
                            PBT_EQ(r, in ? m.find(id)->second.first : 0);
                            r = x;
                            if (in) m.find(id)->second.first = x;
                            else mins(x, v);
                        }
                    }
                    break;
                case TRY_EMPLACE:
                    if constexpr (kMap && !kMulti && R::ins && std::is_constructible_v<K, const KK&> && (!kBtree || std::is_same_v<KK, K>)) {
                        auto r = c.try_emplace(k, x);
                        PBT_EQ(r.second, !in);
                        if (!in) mins(x, v);
                        PBT_EQ(r.first->second, m.find(id)->second.first);
                    }
                    break;
                case IOA:
                    if constexpr (kMap && !kBtree && R::ins && std::is_constructible_v<K, const KK&>) {
                        auto r = c.insert_or_assign(k, x);
                        PBT_EQ(r.second, !in);
                        if (in) m.find(id)->second.first = x;
                        else mins(x, v);
                        PBT_EQ(r.first->second, x);
                    }
                    break;
                case EMPLACE:
                    if constexpr (R::ins && std::is_constructible_v<K, const KK&>) {
                        if constexpr (kMulti) {
                            c.emplace(k, x);
                            mins(x, v);
                        } else {
                            bool ok;
                            if constexpr (kMap) ok = c.emplace(k, x).second;
                            else ok = c.emplace(k).second;
                            PBT_EQ(ok, !in);
                            if (!in) mins(x, v);
                        }
                    }
                    break;
                case INSERT:
                    if constexpr (kMulti) {
                        c.insert(elem(id, x));
                        mins(x, 0);
                    } else {
                        PBT_EQ(c.insert(elem(id, x)).second, !in);
                        if (!in) mins(x, 0);
                    }
                    break;
                case IF_CONTAINS:
                    if constexpr (kPar) {
                        int  got = -1, n = 0;
                        bool r = c.if_contains(k, [&](const auto& e) {
                            ++n;
                            if constexpr (kMap) got = e.second;
                        });
                        PBT_EQ(r, in);
                        PBT_EQ(n, (int)in);
                        if (kMap && in) PBT_EQ(got, m.find(id)->second.first);
                        saw(id, v, in);
                    }
                    break;
                case MODIFY_IF:
                    if constexpr (kPar && kMap) {
                        bool r = c.modify_if(k, [&](auto& e) { e.second = x; });
                        PBT_EQ(r, in);
                        saw(id, v, in);
                        if (in) m.find(id)->second.first = x;
                    }
                    break;
                case ERASE_IF:
                    if constexpr (kPar) {
                        bool del = o.d & 1;
                        bool r   = c.erase_if(k, [&](auto&) { return del; });
                        PBT_EQ(r, in && del);
                        saw(id, v, in);
                        if (in && del) m.erase(id);
                    }
                    break;
                case LAZY:
                    if constexpr (!kBtree && !std::is_same_v<K, std::unique_ptr<Animal, NoDelete>>) {
                        int  n  = 0;
                        auto it = c.lazy_emplace(k, [&](const auto& ctor) {
                            ++n;
                            if constexpr (kMap) ctor(R::mk(id), x);
                            else ctor(R::mk(id));
                        });
                        PBT_EQ(n, (int)!in);
                        if (!in) mins(x, 0);
                        PBT_REQUIRE(same(keyof(it), id));
                        PBT_EQ(val(it), m.find(id)->second.first);
                    }
                    break;
                case BOUNDS:
                    if constexpr (kBtree) {
                        auto lo = c.lower_bound(k), hi = c.upper_bound(k);
                        PBT_EQ((size_t)std::distance(lo, hi), m.count(id));
                        if (lo != c.begin()) { auto p = lo; --p; PBT_REQUIRE(keyof(p) < R::mk(id)); }
                        if (hi != c.end()) PBT_REQUIRE(R::mk(id) < keyof(hi));
                        saw(id, v, in);
                    }
                    break;
                case WITH_HASH:
                    if constexpr (!kBtree) {
                        size_t h = c.hash(k);
                        PBT_CHECK(h == c.hash(R::mk(id)), "hash of key %d through representation %d differs", id, v);
                        PBT_EQ(c.contains(k, h), in);
                        PBT_EQ(c.find(k, h) != c.end(), in);
                        c.prefetch(k);
                        saw(id, v, in);
                    }
                    break;
                case TRY_EMPLACE_L:
                    if constexpr (kPar && kMap && R::ins && std::is_constructible_v<K, const KK&>) {
                        int  n = 0;
                        bool r = c.try_emplace_l(k, [&](auto& e) { ++n; e.second = x; }, x);
                        PBT_EQ(r, !in);
                        PBT_EQ(n, (int)in);
                        if (in) m.find(id)->second.first = x;
                        else mins(x, v);
                    }
                    break;
                case LAZY_L:
                    if constexpr (kPar && kMap && !std::is_same_v<K, std::unique_ptr<Animal, NoDelete>>) {
                        bool r = c.lazy_emplace_l(k, [&](auto& e) { e.second = x; }, [&](const auto& ctor) { ctor(R::mk(id), x); });
                        PBT_EQ(r, !in);
                        if (in) m.find(id)->second.first = x;
                        else mins(x, 0);
                    }
                    break;
            }
    }
    static void run(const Case& cs, Ctx& ctx) {
        H   h;
        u32 n = std::max(1u, cs.c(1));
        for (size_t i = 0; i < cs.ops.size(); ++i) {
            ctx.opno = (int)i;
            h.op(cs.ops[i], n);
        }
        // every key through every representation
        for (u32 id = 0; id < n; ++id)
            for (int v = 0; v < R::variants; ++v)
                R::with((int)id, v, [&](const auto& k) -> int {
                    PBT_CHECK(h.c.contains(k) == (h.m.count((int)id) > 0), "contains(key %u as representation %d) is wrong", id, v);
                    return 0;
                });
        ctx.nontrivial = h.nt;
    }
};
void pbt_run(const Case& cs, Ctx& ctx) {
    switch (cs.c(0) % 12) {
        case 0: H<RepStr>::run(cs, ctx); break;
        case 1: H<RepView>::run(cs, ctx); break;
        case 2: H<RepDbl>::run(cs, ctx); break;
        case 3: H<RepPair>::run(cs, ctx); break;
        case 4: H<RepTuple>::run(cs, ctx); break;
        case 5: H<RepUser>::run(cs, ctx); break;
        case 6: H<RepUser2>::run(cs, ctx); break;
        case 7: H<RepTK>::run(cs, ctx); break;
#if CFG < 5
        case 8: H<RepWide<char16_t>>::run(cs, ctx); break;
        case 9: H<RepPtr<std::shared_ptr<Animal>>>::run(cs, ctx); break;
        case 10: H<RepPtr<Animal*>>::run(cs, ctx); break;
    #if CFG == 3
        case 11: H<RepPtr<std::unique_ptr<Animal, NoDelete>>>::run(cs, ctx); break;
    #else
        case 11: H<RepWide<wchar_t>>::run(cs, ctx); break;
    #endif
#else
        default: H<RepEnum>::run(cs, ctx); break;
#endif
    }
}
#else // ---- CFG 20: hash values
const char* pbt_rule            = "a case draws values of many types, equal ones in several representations; non-trivial: every case";
const char* const* pbt_op_names = nullptr;
int                pbt_num_ops  = 0;
void pbt_gen(Rng& r, Case& c) { c.cfg = { r.u(), r.u(), r.u(), r.u(), r.u() }; }
struct RC : gtl::intrusive_ref_counter<RC, gtl::thread_unsafe_counter> {};
template<class>
struct H {
    template<class T>
    static size_t hash(const T& t) {
        size_t h = typename gtl::flat_hash_set<T>::hasher()(t);
        T      copy(t);
        PBT_CHECK(typename gtl::flat_hash_set<T>::hasher()(copy) == h, "a copy hashes differently");
        alignas(T) unsigned char raw[sizeof(T)];
        memset(raw, (int)(h & 255), sizeof raw); // padding with another content
        T* p = ::new (raw) T(t);
        PBT_CHECK(typename gtl::flat_hash_set<T>::hasher()(*p) == h, "the hash depends on padding");
        PBT_CHECK(gtl::Hash<T>()(t) == gtl::Hash<T>()(*p), "gtl::Hash depends on padding");
        p->~T();
        return h;
    }
    // changing one input must (for at least one of several other values) change the hash
    template<class F>
    static void depends(const char* what, u64 s, F f) {
        size_t h0 = f(0, s);
        bool   diff = false;
        for (u64 i = 1; i <= 8 && !diff; ++i) diff = f(i, s) != h0;
        PBT_CHECK(diff, "%s: the hash ignores a field", what);
    }
};
void pbt_run(const Case& c, Ctx& ctx) {
    ctx.nontrivial = true;
    u64 s = ((u64)c.c(0) << 32) | c.c(1);
    u64 t = ((u64)c.c(2) << 32) | c.c(3);
    int i = (int)c.c(4);
    using X = H<int>;
    PBT_REQUIRE(X::hash(0.0) == X::hash(-0.0) && X::hash(0.0f) == X::hash(-0.0f));
    std::string        a = str((int)(s % 1000)), b(a);
    std::string_view   v = b;
    PBT_REQUIRE(X::hash(a) == X::hash(b) && X::hash(a) == X::hash(v));
    X::hash(i); X::hash((long)s); X::hash((unsigned long)s); X::hash((long long)s); X::hash((short)s); X::hash((char)s); X::hash((unsigned char)s); X::hash((bool)(s & 1));
    X::hash((signed char)s); X::hash((unsigned short)s); X::hash((unsigned)s);
    double d; memcpy(&d, &s, 8); if (d == d) X::hash(d);
    float  f; memcpy(&f, &i, 4); if (f == f) X::hash(f);
    X::hash(std::pair<char, long>((char)s, (long)t));
    X::hash(std::tuple<char, long, short>((char)s, (long)t, (short)i));
    X::hash(std::make_pair(a, (char)t));
    X::hash(User{ a, i, (int)t });
    X::hash(User2{ i, (char)t });
    PBT_REQUIRE(X::hash(User{ a, i, 1 }) == X::hash(User{ b, i, 2 }));
    PBT_REQUIRE(X::hash(std::make_pair(0.0, i)) == X::hash(std::make_pair(-0.0, i)));
    PBT_REQUIRE(X::hash(std::make_pair(i, 0.0f)) == X::hash(std::make_pair(i, -0.0f)));
    PBT_REQUIRE(X::hash(std::make_tuple(i, 0.0, a)) == X::hash(std::make_tuple(i, -0.0, b)));
    X::hash((Color)(short)s);
    gtl::intrusive_ptr<RC> ip(new RC), ip2(ip);
    PBT_REQUIRE(X::hash(ip) == X::hash(ip2));
    auto sp = std::make_shared<int>(3);
    PBT_REQUIRE(gtl::flat_hash_set<std::shared_ptr<int>>::hasher()(sp) == gtl::flat_hash_set<std::shared_ptr<int>>::hasher()(sp.get()));
    // every field matters
    auto m = [](u64 k, u64 s, u64 salt) { return (int)mix64(s + salt * 977 + k * 31337); };
    for (int fld = 0; fld < 3; ++fld) {
        X::depends("HashState::combine", s, [&](u64 k, u64 s) { return gtl::HashState().combine(0, m(fld == 0 ? k : 0, s, 1), m(fld == 1 ? k : 0, s, 2), m(fld == 2 ? k : 0, s, 3)); });
        X::depends("HashState::combine (strings)", s, [&](u64 k, u64 s) {
            return gtl::HashState().combine(0, std::to_string(m(fld == 0 ? k : 0, s, 1)), m(fld == 1 ? k : 0, s, 2), std::to_string(m(fld == 2 ? k : 0, s, 3)));
        });
        X::depends("tuple", s, [&](u64 k, u64 s) { return gtl::Hash<std::tuple<int, long, std::string>>()({ m(fld == 0 ? k : 0, s, 1), m(fld == 1 ? k : 0, s, 2), std::to_string(m(fld == 2 ? k : 0, s, 3)) }); });
        if (fld < 2) X::depends("pair", s, [&](u64 k, u64 s) { return gtl::Hash<std::pair<int, int>>()({ m(fld == 0 ? k : 0, s, 1), m(fld == 1 ? k : 0, s, 2) }); });
    }
    X::depends("seed of combine", s, [&](u64 k, u64 s) { return gtl::HashState().combine((size_t)m(k, s, 9), 1); });
    // and so does their order
    bool d1 = false, d2 = false, d3 = false;
    for (u64 k = 0; k < 8; ++k) {
        int x = m(k, s, 1), y = m(k, t, 2);
        if (x == y) { d1 = d2 = d3 = true; break; }
        d1 |= gtl::HashState().combine(0, x, y) != gtl::HashState().combine(0, y, x);
        d2 |= gtl::Hash<std::pair<int, int>>()({ x, y }) != gtl::Hash<std::pair<int, int>>()({ y, x });
        d3 |= gtl::Hash<std::tuple<int, int>>()({ x, y }) != gtl::Hash<std::tuple<int, int>>()({ y, x });
    }
    PBT_CHECK(d1 && d2 && d3, "the order of combined fields does not matter (%d %d %d)", d1, d2, d3);
    // strings of which one is a prefix/permutation of the other, doubles differing in one bit
    X::depends("string", s, [&](u64 k, u64 s) { return X::hash(std::string(1 + (s + k) % 40, 'x')); });
    X::depends("double", s, [&](u64 k, u64 s) { return X::hash(1.0 + (double)(k + s % 1000) / 1024); });
    X::depends("int64", s, [&](u64 k, u64 s) { return X::hash((long)(s ^ (k << 32))); });
}
#endif
