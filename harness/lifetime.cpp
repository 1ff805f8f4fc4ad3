// C06: element lifetimes. CFG / 10 selects the element type (0 self-addressed copyable, 1 move-only, 2 over-aligned),
// CFG % 10 the container; CFG 30.. are the caches; MIX leaves either the keys or the mapped values of a map untracked.
#include "types.hpp"
#include <gtl/btree.hpp>
#include <gtl/lru_cache.hpp>
#include <gtl/phmap.hpp>
#include <gtl/soa.hpp>
#include <gtl/vector.hpp>
#include <mutex>
#include <optional>
#ifndef CFG
    #define CFG 0
#endif
using namespace pbt;
template<int Kind, int Tag>
struct alignas(Kind == 2 ? 64 : alignof(void*)) El {
    Tr<Tag> t;
    void al() const {
        if (Kind == 2 && ((uintptr_t)this & 63)) fail("an element of alignment 64 was constructed at %p", (const void*)this);
    }
    El() { al(); }
    El(int x) : t(x) { al(); }
    El(const El& o) requires(Kind != 1) : t(o.t) { al(); }
    El(El&& o) noexcept : t(std::move(o.t)) { al(); }
    El& operator=(const El& o) requires(Kind != 1) = default;
    El& operator=(El&& o) noexcept = default;
    int get() const { return t.get(); }
    friend bool operator==(const El& a, const El& b) { return a.get() == b.get(); }
    friend bool operator<(const El& a, const El& b) { return a.get() < b.get(); }
};
static constexpr int EK = CFG >= 30 ? 0 : CFG / 10;
// map keys cannot be move-only (not supported by the library); their mapped values can
static constexpr bool kIsMap = CFG < 30 && (CFG % 10 == 0 || CFG % 10 == 2 || CFG % 10 == 4 || CFG % 10 == 6);
// MIX 1: maps whose keys need no destruction, MIX 2: maps whose mapped values need none
#ifndef MIX
    #define MIX 0
#endif
struct Plain {
    int v = 0;
    Plain() = default;
    Plain(int x) : v(x) {}
    int get() const { return v; }
    friend bool operator==(const Plain& a, const Plain& b) { return a.v == b.v; }
    friend bool operator<(const Plain& a, const Plain& b) { return a.v < b.v; }
};
using K = std::conditional_t<MIX == 1, Plain, El<(EK == 1 && kIsMap) ? 0 : EK, 1>>;
using V = std::conditional_t<MIX == 2, Plain, El<EK, 2>>;
static constexpr bool kCopyable = EK != 1;
struct KHash {
    static inline u32 kind = 0;
    size_t operator()(const K& k) const { return hash_kind(kind, (u64)(u32)k.get()); }
};
using Eq = std::equal_to<K>;
using AP = std::allocator<std::pair<const K, V>>;
#if CFG < 30
enum { oNew, oFillNew, oCopyCtor, oMoveCtor, oCopyAsg, oMoveAsg, oSwap, oDestroy, oClear, oInsert, oInsertRv, oEmplace, oHint, oTryEmplace, oAssignOr, oBracket, oLazy, oFill,
       oErase, oErase1, oEraseRange, oEraseIf, oExtract, oPutNode, oDropNode, oNodeMove, oMerge, oReserve, oShrink, oRange, oInit, oAsgInit, oCb, oN };
static const char* names[] = { "new", "fill_new", "copy_ctor", "move_ctor", "copy_assign", "move_assign", "swap", "destroy", "clear", "insert", "insert_rv", "emplace", "emplace_hint", "try_emplace",
                               "insert_or_assign", "bracket", "lazy_emplace", "fill", "erase_key", "erase_iter", "erase_range", "erase_if", "extract", "put_node", "drop_node", "move_node", "merge",
                               "reserve", "shrink", "range", "init_list", "assign_init_list", "callback" };
enum Kind { kMap, kSet, kVec };
#if CFG % 10 == 0
static constexpr Kind kind = kMap;
using Cont = gtl::flat_hash_map<K, V, KHash, Eq>;
#elif CFG % 10 == 1
static constexpr Kind kind = kSet;
using Cont = gtl::flat_hash_set<K, KHash, Eq>;
#elif CFG % 10 == 2
static constexpr Kind kind = kMap;
using Cont = gtl::node_hash_map<K, V, KHash, Eq>;
#elif CFG % 10 == 3
static constexpr Kind kind = kSet;
using Cont = gtl::node_hash_set<K, KHash, Eq>;
#elif CFG % 10 == 4
static constexpr Kind kind = kMap;
using Cont = gtl::parallel_flat_hash_map<K, V, KHash, Eq, AP, 2, std::mutex>;
#elif CFG % 10 == 5
static constexpr Kind kind = kSet;
using Cont = gtl::parallel_node_hash_set<K, KHash, Eq, std::allocator<K>, 1, std::mutex>;
#elif CFG % 10 == 6
static constexpr Kind kind = kMap;
using Cont = gtl::btree_map<K, V>;
#elif CFG % 10 == 7
static constexpr Kind kind = kSet;
using Cont = gtl::btree_set<K>;
#elif CFG % 10 == 8
static constexpr Kind kind = kSet;
#define MULTI 1
using Cont = gtl::btree_multiset<K>;
#elif CFG % 10 == 9
static constexpr Kind kind = kVec;
using Cont = gtl::vector<K>;
#endif
#ifndef MULTI
    #define MULTI 0
#endif
const char* const* pbt_op_names = names;
int                pbt_num_ops  = oN;
enum { cAcc, cPeak };
static const char* cn[]              = { "live_instances_accounted_for", nullptr };
const char* const* pbt_counter_names = cn;
const char*        pbt_rule = "A case is a history of insertions in all forms, erasures, extractions, copies, moves, swaps, assignments, merges and destructions over three containers and a node handle; "
                              "non-trivial: an element was destroyed by an erasure or a clear, and either a container of more than 8 elements was rebuilt (copy, move, swap, rehash, merge) or a node was extracted";
void pbt_gen(Rng& r, Case& c) {
    static const u32 unis[] = { 4, 12, 40, 200, 700 };
    c.cfg = { r.below(8), unis[r.below(5)] };
    u32 len = r.chance(1, 4) ? r.range(4, 14) : r.range(14, 70);
    std::vector<u32> pool;
    for (u32 i = 0; i < oN; ++i)
        for (u32 k = r.below(3); k; --k) pool.push_back(i);
    for (u32 i : { oInsertRv, oFill, oErase, oMoveAsg }) pool.push_back(i);
    for (u32 i = 0; i < len; ++i) {
        u32 code = i < 2 && r.chance(2, 3) ? (u32)oFill : pool[r.below(pool.size())];
        c.ops.push_back({ code, r.u() >> 2, r.skewed(9), r.below(3), r.below(64) });
    }
}
template<class C>
struct H {
    static constexpr bool Vec = kind == kVec, M = kind == kMap, Hash = CFG % 10 < 6, Par = CFG % 10 == 4 || CFG % 10 == 5, Multi = MULTI;
    static constexpr bool kMovable = kCopyable || !Par || M; // parallel sets of move-only elements cannot be move-constructed (library limitation)
    using E = typename C::value_type;
    template<class X> static std::pair<int, int> un(const X& x) {
        if constexpr (M) return { x.first.get(), x.second.get() };
        else return { x.get(), 0 };
    }
    static auto mk(int k, int v) {
        if constexpr (M) return std::pair<K, V>(K(k), V(v));
        else return K(k);
    }
    struct NoNode { bool empty() const { return true; } };
    template<class X> struct NodeOf { using type = NoNode; };
    template<class X> requires requires { typename X::node_type; } struct NodeOf<X> { using type = typename X::node_type; };
    using Node    = typename NodeOf<C>::type;
    using Content = std::vector<std::pair<int, int>>;
    std::optional<C>    c[3];
    Content             m[3];
    bool                unspec[3] = { false, false, false };
    std::optional<Node> node;
    std::pair<int, int> node_e;
    bool                node_full = false;
    u32                 nuni;
    bool                sawDestroy = false, sawRebuild = false;

    bool put(Content& mm, std::pair<int, int> e) {
        if (!Vec && !Multi)
            for (auto& x : mm) if (x.first == e.first) return false;
        mm.push_back(e);
        return true;
    }
    static std::pair<int, int>* find(Content& mm, int k) { for (auto& x : mm) if (x.first == k) return &x; return nullptr; }
    void ensure(int i) {
        if (!c[i]) { c[i].emplace(); m[i].clear(); unspec[i] = false; }
        if (unspec[i]) { c[i]->clear(); m[i].clear(); unspec[i] = false; }
    }
    void kill(int i) { c[i].reset(); m[i].clear(); unspec[i] = false; }
    void check() {
        long n = 0;
        for (int i = 0; i < 3; ++i) {
            if (!c[i]) continue;
            if (unspec[i]) { n += (long)c[i]->size(); continue; }
            Content got, want = m[i];
            for (auto& e : *c[i]) got.push_back(un(e));
            if (!Vec) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
            if (!M) for (auto& x : want) x.second = 0;
            PBT_CHECK(got == want, "container %d holds %zu elements that are not the %zu expected", i, got.size(), want.size());
            PBT_CHECK(c[i]->size() == want.size(), "container %d: size() is %zu, expected %zu", i, (size_t)c[i]->size(), want.size());
            n += (long)want.size();
        }
        if (node_full) ++n;
        if constexpr (MIX != 1) PBT_CHECK(Tr<1>::live == n, "%ld elements (keys) are alive while the containers and the node handle hold %ld", Tr<1>::live, n);
        if constexpr (M && MIX != 2) PBT_CHECK(Tr<2>::live == n, "%ld mapped values are alive while the containers and the node handle hold %ld", Tr<2>::live, n);
        note(cAcc, (u64)n);
    }
    void rebuilt(int i) { if (m[i].size() > 8) sawRebuild = true; }
    void ins(int i, int k, int v) {
        if constexpr (Vec) c[i]->push_back(mk(k, v));
        else c[i]->insert(mk(k, v));
        put(m[i], { k, v });
    }
    template<class X> void vec_ins(X& x, int i, const Op& o, int k) {
        size_t p = o.a % (m[i].size() + 1), n = o.b % 40;
        auto   at = x.begin() + p;
        switch (o.code) {
            case oInsert: if constexpr (kCopyable) { K e(k); x.insert(at, e); } else x.insert(at, K(k)); m[i].insert(m[i].begin() + p, { k, 0 }); break;
            case oInsertRv: x.insert(at, K(k)); m[i].insert(m[i].begin() + p, { k, 0 }); break;
            case oEmplace: x.emplace(at, k); m[i].insert(m[i].begin() + p, { k, 0 }); break;
            case oHint: x.emplace_back(k); m[i].push_back({ k, 0 }); break;
            case oTryEmplace: if constexpr (kCopyable) { K e(k); x.insert(at, n, e); m[i].insert(m[i].begin() + p, n, { k, 0 }); } break;
            case oAssignOr: if constexpr (kCopyable) { if (!m[i].empty()) { size_t q = o.b % m[i].size(); auto val = m[i][q]; x.push_back(x[q]); m[i].push_back(val); } } break;
            case oBracket: x.resize(p); m[i].resize(p); x.resize(p + n); m[i].resize(p + n, { 0, 0 }); break;
            case oLazy: if constexpr (kCopyable) { K e(k); x.resize(p + n, e); m[i].resize(p + n, { k, 0 }); } break;
            case oRange: if constexpr (kCopyable) { K arr[] = { K(k), K(k + 1), K(k + 2) }; x.insert(at, arr, arr + n % 4); for (size_t q = 0; q < n % 4; ++q) m[i].insert(m[i].begin() + p + q, { k + (int)q, 0 }); } break;
            case oInit: if constexpr (kCopyable) { x.insert(at, { K(k), K(k + 1) }); m[i].insert(m[i].begin() + p, { { k, 0 }, { k + 1, 0 } }); } break;
            case oAsgInit:
                if constexpr (kCopyable) {
                    switch (o.c) {
                        case 0: x = { K(k), K(k + 1) }; m[i] = { { k, 0 }, { k + 1, 0 } }; break;
                        case 1: { K e(k); x.assign(n, e); m[i].assign(n, { k, 0 }); break; }
                        default: { K arr[] = { K(k), K(k + 1), K(k + 2) }; x.assign(arr, arr + n % 4); m[i].clear(); for (size_t q = 0; q < n % 4; ++q) m[i].push_back({ k + (int)q, 0 }); }
                    }
                }
                break;
            case oErase1: if (!m[i].empty()) { p = o.a % m[i].size(); x.erase(x.begin() + p); m[i].erase(m[i].begin() + p); sawDestroy = true; } break;
            case oErase: if (!m[i].empty()) { x.pop_back(); m[i].pop_back(); sawDestroy = true; } break;
            case oEraseRange: {
                size_t q = std::min(m[i].size(), p + n);
                x.erase(x.begin() + p, x.begin() + q);
                m[i].erase(m[i].begin() + p, m[i].begin() + q);
                sawDestroy = true;
                break;
            }
            default: break;
        }
    }
    template<class X> void assoc(X& x, int i, const Op& o, int k, int v) {
        auto have = [&] { return find(m[i], k) != nullptr; };
        auto pos = [&] { auto it = x.begin(); size_t s = x.size() ? o.b % (x.size() + 1) : 0; for (size_t q = 0; q < s && q < 12; ++q) ++it; return it; };
        switch (o.code) {
            case oInsert:
                if constexpr (kCopyable) { auto e = mk(k, v); x.insert(e); } else x.insert(mk(k, v));
                put(m[i], { k, v });
                break;
            case oInsertRv: { auto e = mk(k, v); x.insert(std::move(e)); put(m[i], { k, v }); break; }
            case oEmplace:
                if constexpr (M) {
                    if (o.c == 0) x.emplace(k, v);
                    else if (o.c == 1) x.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v));
                    else x.emplace(K(k), V(v));
                } else { if (o.c) x.emplace(k); else x.emplace(K(k)); }
                put(m[i], { k, v });
                break;
            case oHint:
                if (o.c) { if constexpr (M) x.emplace_hint(pos(), K(k), V(v)); else x.emplace_hint(pos(), k); }
                else x.insert(pos(), mk(k, v));
                put(m[i], { k, v });
                break;
            case oTryEmplace:
                if constexpr (M) { if (kCopyable && o.c) { if constexpr (kCopyable) { K kk(k); x.try_emplace(kk, v); } } else x.try_emplace(K(k), v); put(m[i], { k, v }); }
                break;
            case oAssignOr:
                if constexpr (M && Hash) {
                    if (kCopyable && o.c) { if constexpr (kCopyable) { K kk(k); V vv(v); x.insert_or_assign(kk, vv); } } else x.insert_or_assign(K(k), V(v));
                    if (auto* e = find(m[i], k)) e->second = v; else put(m[i], { k, v });
                }
                break;
            case oBracket:
                if constexpr (M) {
                    if (kCopyable && o.c) { if constexpr (kCopyable) { K kk(k); if (o.c == 1) x[kk] = V(v); else (void)x[kk]; } } else { if (o.c == 1) x[K(k)] = V(v); else (void)x[K(k)]; }
                    if (auto* e = find(m[i], k)) { if (o.c == 1) e->second = v; } else put(m[i], { k, o.c == 1 ? v : 0 });
                }
                break;
            case oLazy:
                if constexpr (Hash) {
                    K kk(k);
                    x.lazy_emplace(kk, [&](const typename X::constructor& ctor) { if constexpr (M) ctor(k, v); else ctor(k); });
                    put(m[i], { k, v });
                }
                break;
            case oErase: { bool h = have(); if (h) sawDestroy = true; { K kk(k); x.erase(kk); } std::erase_if(m[i], [&](auto& e) { return e.first == k; }); break; }
            case oErase1:
                if constexpr (true) {
                    K    kk(k);
                    auto it = x.find(kk);
                    if (it == x.end()) break;
                    sawDestroy = true;
                    if constexpr (Hash && requires { x._erase(it); }) { if (o.c == 1) x._erase(it); else x.erase(it); }
                    else x.erase(it);
                    m[i].erase(m[i].begin() + (find(m[i], k) - m[i].data()));
                }
                break;
            case oEraseRange:
                if (o.c == 0) { x.erase(x.begin(), x.end()); if (!m[i].empty()) sawDestroy = true; m[i].clear(); }
                else {
                    auto it = pos(), e = it;
                    Content gone;
                    for (u32 q = 0; q < o.b % 6 && e != x.end(); ++q) { gone.push_back(un(*e)); ++e; }
                    x.erase(it, e);
                    for (auto& g : gone) { sawDestroy = true; for (size_t q = 0; q < m[i].size(); ++q) if (m[i][q].first == g.first && (!M || m[i][q].second == g.second)) { m[i].erase(m[i].begin() + q); break; } }
                }
                break;
            case oEraseIf: {
                u32 md = 2 + o.b % 4;
                auto pred = [&](const auto& e) { return (u32)un(e).first % md == 0; };
                if constexpr (requires { erase_if(x, pred); }) {
                    erase_if(x, pred);
                    if (std::erase_if(m[i], [&](auto& e) { return (u32)e.first % md == 0; })) sawDestroy = true;
                }
                break;
            }
            case oExtract: {
                node.reset();
                node_full = false;
                bool h = have();
                { K kk(k); if (o.c == 0 && x.find(kk) != x.end()) node.emplace(x.extract(x.find(kk))); else node.emplace(x.extract(kk)); }
                PBT_CHECK(h != node->empty(), "extract of a key that is %s gave %s node", h ? "present" : "absent", h ? "an empty" : "a non-empty");
                if (h) {
                    node_full = true; sawRebuild = true;
                    auto* e = find(m[i], k);
                    node_e  = *e;
                    m[i].erase(m[i].begin() + (e - m[i].data()));
                }
                break;
            }
            case oPutNode:
                if (!node || node->empty()) { node.reset(); return; }
                if (o.c == 0) {
                    x.insert(pos(), std::move(*node));
                    if (put(m[i], node_e)) node_full = false;
                    PBT_CHECK(node->empty() != node_full, "after hinted insertion of a node its handle is %s", node->empty() ? "empty though nothing was inserted" : "not empty");
                } else if constexpr (Multi) {
                    x.insert(std::move(*node));
                    put(m[i], node_e);
                    node_full = false;
                } else {
                    auto r = x.insert(std::move(*node));
                    bool d = put(m[i], node_e);
                    PBT_CHECK(r.inserted == d && r.node.empty() == d, "insert(node) says inserted=%d with %s node, expected inserted=%d", (int)r.inserted, r.node.empty() ? "an empty" : "a", (int)d);
                    if (d) node_full = false;
                    else if (o.c == 2) *node = std::move(r.node);
                    else { node.reset(); node_full = false; } // the returned handle is destroyed here
                }
                if (!node_full) node.reset();
                break;
            case oDropNode: node.reset(); node_full = false; break;
            case oNodeMove:
                if (node) {
                    Node n2(std::move(*node));
                    PBT_CHECK(node->empty(), "a moved-from node handle is not empty");
                    PBT_CHECK(n2.empty() != node_full, "moving a node handle lost its element");
                    Node n3;
                    n3 = std::move(n2);
                    std::swap(n3, *node);
                }
                break;
            case oReserve: if constexpr (Hash) { if (o.c) x.reserve(o.b * 2); else x.rehash(o.b * 4); rebuilt(i); } break;
            case oShrink: if constexpr (Hash) { x.rehash(0); rebuilt(i); } break;
            case oRange:
                if constexpr (kCopyable) {
                    std::vector<std::remove_const_t<decltype(mk(k, v))>> src;
                    for (u32 q = 0; q < o.b % 20; ++q) { src.push_back(mk((int)((k + q / 2) % nuni), v)); put(m[i], { (int)((k + q / 2) % nuni), v }); }
                    x.insert(src.begin(), src.end());
                }
                break;
            case oInit:
                if constexpr (kCopyable) {
                    if constexpr (requires { x.insert({ mk(k, v), mk(k, v) }); }) { x.insert({ mk(k, v), mk((k + 1) % (int)nuni, v) }); put(m[i], { k, v }); put(m[i], { (k + 1) % (int)nuni, v }); }
                }
                break;
            case oAsgInit:
                if constexpr (kCopyable) { x = { mk(k, v), mk((k + 1) % (int)nuni, v) }; m[i].clear(); put(m[i], { k, v }); put(m[i], { (k + 1) % (int)nuni, v }); sawDestroy = true; }
                break;
            case oCb:
                if constexpr (Par && M) {
                    K kk(k);
                    if (o.c == 0) { x.try_emplace_l(kk.get(), [&](auto& e) { e.second = V(v); }, v); }
                    else if (o.c == 1) x.lazy_emplace_l(kk, [&](auto& e) { e.second = V(v); }, [&](const typename X::constructor& ctor) { ctor(k, v); });
                    else { x.erase_if(kk, [&](auto&) { return true; }); std::erase_if(m[i], [&](auto& e) { return e.first == k; }); break; }
                    if (auto* e = find(m[i], k)) e->second = v; else put(m[i], { k, v });
                } else if constexpr (Par) {
                    K kk(k);
                    if (o.c) { x.lazy_emplace_l(kk, [&](auto&) {}, [&](const typename X::constructor& ctor) { ctor(k); }); put(m[i], { k, v }); }
                    else { x.erase_if(kk, [&](auto&) { return true; }); std::erase_if(m[i], [&](auto& e) { return e.first == k; }); }
                }
                break;
            default: break;
        }
    }
    void step(const Op& oo) {
        Op  o = oo;
        o.code %= oN;
        int i = o.d % 3, j = (i + 1 + (o.d / 3) % 2) % 3;
        int k = (int)(o.a % nuni), v = (int)(o.a / nuni % 1000);
        switch (o.code) {
            case oNew: kill(i); c[i].emplace(); break;
            case oFillNew:
                kill(i);
                if constexpr (Vec) { c[i].emplace((size_t)(o.b % 100)); m[i].assign(o.b % 100, { 0, 0 }); }
                else if constexpr (kCopyable) {
                    std::vector<std::remove_const_t<decltype(mk(k, v))>> src;
                    for (u32 q = 0; q < o.b; ++q) { src.push_back(mk((int)((k + q) % nuni), v)); put(m[i], { (int)((k + q) % nuni), v }); }
                    c[i].emplace(src.begin(), src.end());
                } else c[i].emplace();
                break;
            case oCopyCtor: if constexpr (kCopyable) { if (i == j) return; ensure(j); kill(i); c[i].emplace(std::as_const(*c[j])); m[i] = m[j]; rebuilt(i); } break;
            case oMoveCtor: if constexpr (kMovable) { ensure(j); kill(i); c[i].emplace(std::move(*c[j])); m[i] = m[j]; unspec[j] = true; rebuilt(i); } break;
            case oCopyAsg: if constexpr (kCopyable) { if ((o.d >> 5)) j = i; ensure(j); if (!c[i]) ensure(i); *c[i] = std::as_const(*c[j]); m[i] = m[j]; unspec[i] = false; rebuilt(i); } break;
            case oMoveAsg: ensure(j); if (!c[i]) ensure(i); *c[i] = std::move(*c[j]); m[i] = m[j]; unspec[i] = false; unspec[j] = true; rebuilt(i); break;
            case oSwap: ensure(i); ensure(j); if (o.b & 1) c[i]->swap(*c[j]); else { using std::swap; if constexpr (kMovable) swap(*c[i], *c[j]); else c[i]->swap(*c[j]); } std::swap(m[i], m[j]); rebuilt(i); break;
            case oDestroy: kill(i); break;
            case oClear: ensure(i); if (!m[i].empty()) sawDestroy = true; c[i]->clear(); m[i].clear(); break;
            case oFill: ensure(i); for (u32 n = 0; n < std::min(o.b, 2 * nuni); ++n) ins(i, (int)((k + n * 7) % nuni), v + (int)n); break;
            case oMerge:
                if constexpr (!Vec) {
                    ensure(i); ensure(j);
                    c[i]->merge(*c[j]);
                    Content rest;
                    for (auto& e : m[j]) if (!put(m[i], e)) rest.push_back(e);
                    m[j] = rest;
                    rebuilt(i);
                }
                break;
            default:
                ensure(i);
                if constexpr (Vec) {
                    if (o.code == oReserve) { c[i]->reserve(o.b * 2); rebuilt(i); }
                    else if (o.code == oShrink) { c[i]->shrink_to_fit(); rebuilt(i); }
                    else vec_ins(*c[i], i, o, k);
                } else assoc(*c[i], i, o, k, v);
        }
    }
    void run(const Case& cs, Ctx& ctx) {
        KHash::kind = cs.c(0);
        nuni        = std::max(1u, cs.c(1));
        int n = 0;
        Tr<1>::live = Tr<2>::live = 0;
        for (auto& o : cs.ops) {
            ctx.opno = n++;
            step(o);
            check();
        }
        ctx.nontrivial = sawDestroy && sawRebuild;
        node.reset();
        node_full = false;
        for (int i = 0; i < 3; ++i) kill(i);
        PBT_CHECK(Tr<1>::live == 0 && Tr<2>::live == 0, "%ld keys and %ld values are alive after every container is gone", Tr<1>::live, Tr<2>::live);
    }
};
void pbt_run(const Case& cs, Ctx& ctx) { H<Cont> h; h.run(cs, ctx); }

#else // ---- caches and soa --------------------------------------------------------------------
enum { oPut, oGet, oExists, oClear, oCopy, oMove, oGrow, oN };
static const char* names[] = { "put", "get", "exists", "clear", "copy", "move", "grow" };
const char* const* pbt_op_names = names;
int                pbt_num_ops  = oN;
static const char* cn[]              = { nullptr };
const char* const* pbt_counter_names = cn;
const char*        pbt_rule = "A case is a history of puts, gets, clears, copies and moves of up to two caches; non-trivial: at least one entry was evicted or cleared";
using C = gtl::lru_cache_impl<K, V, CFG == 30 ? 0 : 2, KHash, Eq, std::mutex>;
void pbt_gen(Rng& r, Case& c) {
    c.cfg = { r.below(8), 4 * r.range(3, 12), r.range(4, 120) };
    u32 len = r.range(5, 150);
    for (u32 i = 0; i < len; ++i) {
        u32 code = r.chance(3, 4) ? (u32)oPut : r.below(oN);
        c.ops.push_back({ code, r.u() >> 2, r.skewed(8), r.below(2), 0 });
    }
}
void pbt_run(const Case& cs, Ctx& ctx) {
    KHash::kind = cs.c(0);
    Tr<1>::live = Tr<2>::live = 0;
    {
        std::optional<C> c[2];
        u32              cap[2];
        auto             ensure = [&](u32 i) { if (!c[i]) { c[i].emplace(cs.c(1)); cap[i] = cs.c(1); } };
        int              n = 0;
        u64              puts = 0;
        for (auto& o : cs.ops) {
            ctx.opno = n++;
            u32 i    = o.c & 1;
            ensure(i);
            int k = (int)(o.a % std::max(1u, cs.c(2)));
            switch (o.code % oN) {
                case oPut: { K kk(k); if (o.b & 1) c[i]->insert(kk, V(k * 3)); else { V v(k * 3); c[i]->insert(kk, v); } PBT_CHECK(c[i]->exists(kk), "an entry just put is missing"); ++puts; break; }
                case oGet: { K kk(k); auto r = c[i]->get(kk); if (r) PBT_EQ(r->get(), k * 3); break; }
                case oExists: { K kk(k); (void)c[i]->exists(kk); break; }
                case oClear: if (c[i]->size()) ctx.nontrivial = true; c[i]->clear(); PBT_EQ(c[i]->size(), 0u); break;
                case oCopy: ensure(1 - i); if (o.b & 1) *c[i] = *c[1 - i]; else { c[i].reset(); c[i].emplace(*c[1 - i]); } cap[i] = cap[1 - i]; PBT_EQ(c[i]->size(), c[1 - i]->size()); break;
                case oMove: ensure(1 - i); if (o.b & 1) *c[i] = std::move(*c[1 - i]); else { c[i].reset(); c[i].emplace(std::move(*c[1 - i])); } cap[i] = cap[1 - i]; c[1 - i].reset(); break;
                case oGrow: cap[i] += 4 * (o.b % 8); c[i]->set_cache_size(cap[i]); break;
            }
            long kn = 0;
            for (int x = 0; x < 2; ++x) if (c[x]) kn += (long)c[x]->size();
            if ((long)puts > kn) ctx.nontrivial = true;
            // every entry keeps the same (small) number of copies of its key and of its value
            auto acc = [&](long live) { return kn ? live % kn == 0 && live >= kn && live <= 3 * kn : live == 0; };
            PBT_CHECK(acc(Tr<1>::live), "%ld keys are alive for %ld cache entries", Tr<1>::live, kn);
            PBT_CHECK(acc(Tr<2>::live), "%ld values are alive for %ld cache entries", Tr<2>::live, kn);
        }
    }
    PBT_CHECK(Tr<1>::live == 0 && Tr<2>::live == 0, "%ld keys and %ld values are alive after every cache is gone", Tr<1>::live, Tr<2>::live);
}
#endif
