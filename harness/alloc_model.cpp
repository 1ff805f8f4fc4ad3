// C07: allocators. CFG selects the container; every combination of the propagation traits and of
// select_on_container_copy_construction is instantiated in each program.
#include "types.hpp"
#include <gtl/btree.hpp>
#include <gtl/phmap.hpp>
#include <gtl/vector.hpp>
#include <mutex>
#include <optional>
#ifndef CFG
    #define CFG 0
#endif
using namespace pbt;
enum { oNew, oCopyCtor, oCopyCtorA, oMoveCtor, oMoveCtorA, oCopyAsg, oMoveAsg, oSwap, oDestroy, oClear, oInsert, oFill, oErase, oExtract, oPutNode, oMerge, oReserve, oShrink, oRange, oInit, oN };
static const char* names[] = { "new", "copy_ctor", "copy_ctor_alloc", "move_ctor", "move_ctor_alloc", "copy_assign", "move_assign", "swap", "destroy", "clear", "insert", "fill", "erase", "extract", "put_node", "merge", "reserve", "shrink", "range_ctor", "init_list" };
const char* const* pbt_op_names = names;
int                pbt_num_ops  = oN;
enum { cTransfers, cUnequal, cPropagated, cLocated };
static const char* cn[]              = { "transfers", "transfers_between_unequal_allocators", "transfers_that_propagate", "elements_located_in_blocks", nullptr };
const char* const* pbt_counter_names = cn;
const char*        pbt_rule = "A case is a trait combination and a history of constructions, copies, moves, assignments, swaps, insertions, erasures, extractions and merges over three "
                              "containers with allocators of identity 1-3; non-trivial: at least two transfers, one of them between unequal allocators";
void pbt_gen(Rng& r, Case& c) {
    static const u32 unis[] = { 5, 20, 100, 600 };
    c.cfg = { r.below(16), unis[r.below(4)] };
    u32 len = r.chance(1, 2) ? r.range(4, 14) : r.range(14, 60);
    std::vector<u32> pool;
    for (u32 i = 0; i < oN; ++i)
        for (u32 k = r.below(3); k; --k) pool.push_back(i);
    for (u32 i : { oNew, oInsert, oFill, oCopyAsg, oMoveAsg }) pool.push_back(i);
    for (u32 i = 0; i < len; ++i) {
        u32 code = i < 3 && r.chance(2, 3) ? (i < 2 ? (u32)oNew : (u32)oFill) : pool[r.below(pool.size())];
        c.ops.push_back({ code, r.u() >> 2, r.skewed(9), r.below(3), r.below(64) });
    }
}
template<class V, u32 Bits>
using Al = TrackAlloc<V, (Bits & 1) != 0, (Bits & 2) != 0, (Bits & 4) != 0, (Bits >> 3) & 1>;
using PV = std::pair<const TK, TV>;
enum Kind { kAssocMap, kAssocSet, kVec };
static constexpr bool kIsBtree = CFG == 5 || CFG == 6 || CFG == 9;
#if CFG == 0
static constexpr Kind kind = kAssocMap;
template<u32 B> using Cont = gtl::flat_hash_map<TK, TV, StatefulHash<TK>, StatefulEq<TK>, Al<PV, B>>;
#elif CFG == 1
static constexpr Kind kind = kAssocSet;
template<u32 B> using Cont = gtl::flat_hash_set<TK, StatefulHash<TK>, StatefulEq<TK>, Al<TK, B>>;
#elif CFG == 2
static constexpr Kind kind = kAssocMap;
template<u32 B> using Cont = gtl::node_hash_map<TK, TV, StatefulHash<TK>, StatefulEq<TK>, Al<PV, B>>;
#elif CFG == 3
static constexpr Kind kind = kAssocMap;
template<u32 B> using Cont = gtl::parallel_flat_hash_map<TK, TV, StatefulHash<TK>, StatefulEq<TK>, Al<PV, B>, 2, std::mutex>;
#elif CFG == 4
static constexpr Kind kind = kAssocSet;
template<u32 B> using Cont = gtl::parallel_node_hash_set<TK, StatefulHash<TK>, StatefulEq<TK>, Al<TK, B>, 1>;
#elif CFG == 5
static constexpr Kind kind = kAssocMap;
template<u32 B> using Cont = gtl::btree_map<TK, TV, std::less<TK>, Al<PV, B>>;
#elif CFG == 6
static constexpr Kind kind = kAssocSet;
#define MULTI 1
template<u32 B> using Cont = gtl::btree_multiset<TK, std::less<TK>, Al<TK, B>>;
#elif CFG == 7
static constexpr Kind kind = kVec;
template<u32 B> using Cont = gtl::vector<TK, Al<TK, B>>;
#elif CFG == 8
static constexpr Kind kind = kVec; // trivially copyable elements: the memcpy/memmove paths must not bypass the allocator
template<u32 B> using Cont = gtl::vector<int, Al<int, B>>;
#elif CFG == 9
static constexpr Kind kind = kAssocSet;
template<u32 B> using Cont = gtl::btree_set<int, std::less<int>, Al<int, B>>;
#endif
#ifndef MULTI
    #define MULTI 0
#endif
template<class C>
struct H {
    using A = typename C::allocator_type;
    using AT = std::allocator_traits<A>;
    static constexpr bool Vec = kind == kVec, M = kind == kAssocMap, Hash = CFG < 5;
    using E = typename C::value_type;
    template<class X> static std::pair<int, int> un(const X& x) {
        if constexpr (M) return { Conv<TK>::un(x.first), Conv<TV>::un(x.second) };
        else return { Conv<std::remove_cvref_t<X>>::un(x), 0 };
    }
    static auto mk(int k, int v) {
        if constexpr (M) return std::pair<TK, TV>(TK(k), TV(v));
        else return Conv<E>::mk(k);
    }
    struct NoNode { bool empty() const { return true; } };
    template<class X> struct NodeOf { using type = NoNode; };
    template<class X> requires requires { typename X::node_type; } struct NodeOf<X> { using type = typename X::node_type; };
    using Node = typename NodeOf<C>::type;
    using Content = std::vector<std::pair<int, int>>;

    std::optional<C> c[3];
    Content          m[3];
    u32              id[3]     = { 0, 0, 0 };
    bool             unspec[3] = { false, false, false };
    std::optional<Node> node;
    std::pair<int, int> node_e;
    u32              node_id = 0;
    u32              nuni;
    u64              transfers = 0, unequal = 0;

    static C make(u32 id, u32 form = 0) {
        if constexpr (Vec) return C(A(id));
        else if constexpr (Hash) switch (form % 4) {
            case 0: return C(A(id));
            case 1: return C(form % 70, A(id));
            case 2: return C(form % 70, typename C::hasher(), A(id));
            default: return C(form % 70, typename C::hasher(), typename C::key_equal(), A(id));
        }
        else return C(typename C::key_compare(), A(id));
    }
    // run f on the containers: whatever memory it leaves allocated must have come from the allocators
    template<class F> void acc(F&& f) {
        long b0 = (long)blocks().size(), g0 = g_live;
        f();
#ifdef PBT_ASAN
        long dg = g_live - g0, db = (long)blocks().size() - b0;
        PBT_CHECK(dg == db, "the operation changed the number of live heap blocks by %ld but the allocators' blocks by %ld", dg, db);
#endif
    }
    void put(Content& mm, std::pair<int, int> e) {
        if (!Vec && !MULTI)
            for (auto& x : mm) if (x.first == e.first) return;
        mm.push_back(e);
    }
    static bool has(const Content& mm, int k) { for (auto& x : mm) if (x.first == k) return true; return false; }
    void norm(Content& mm) { if (!Vec) std::sort(mm.begin(), mm.end()); }
    void ensure(int i) {
        if (!c[i]) { id[i] = 1 + i; acc([&] { c[i].emplace(make(id[i])); }); m[i].clear(); unspec[i] = false; }
        if (unspec[i]) { acc([&] { c[i]->clear(); }); m[i].clear(); unspec[i] = false; }
    }
    void kill(int i) { acc([&] { c[i].reset(); }); m[i].clear(); unspec[i] = false; }
    void check(int i) {
        if (!c[i]) return;
        PBT_CHECK(c[i]->get_allocator().id == id[i], "container %d uses allocator #%u, expected #%u", i, (unsigned)c[i]->get_allocator().id, id[i]);
        if (unspec[i]) return;
        Content got;
        for (auto& e : *c[i]) {
            got.push_back(un(e));
            auto it = blocks().upper_bound((void*)&e);
            PBT_CHECK(it != blocks().begin(), "an element lies outside every block of the allocators");
            --it;
            char* b = (char*)it->first;
            PBT_CHECK((char*)&e + sizeof e <= b + it->second.n * it->second.elem, "an element lies outside every block of the allocators");
            PBT_CHECK(it->second.id == id[i], "an element of the container with allocator #%u lies in memory of allocator #%u", id[i], it->second.id);
            note(cLocated);
        }
        Content want = m[i];
        norm(got);
        norm(want);
        PBT_CHECK(got == want, "container %d holds %zu elements that are not the %zu expected", i, got.size(), want.size());
        PBT_CHECK(c[i]->size() == want.size(), "container %d: size() is %zu, expected %zu", i, (size_t)c[i]->size(), want.size());
    }
    void check_ids() {
        std::set<u32> live;
        for (int i = 0; i < 3; ++i) if (c[i]) live.insert(id[i]);
        if (node && !node->empty()) live.insert(node_id);
        for (auto& b : blocks()) PBT_CHECK(live.count(b.second.id), "memory of allocator #%u is still held though no container uses that allocator", b.second.id);
    }
    void ins(int i, int k, int v) {
        acc([&] {
            if constexpr (Vec) c[i]->push_back(mk(k, v));
            else c[i]->insert(mk(k, v));
        });
        put(m[i], { k, M ? v : 0 });
    }
    void moved_from(int j, bool equal) {
        if (!equal) ++unequal;
        unspec[j] = true;
    }
    void transfer(int i, int j) {
        ++transfers;
        note(cTransfers);
        if (c[i] && c[j] && id[i] != id[j]) { note(cUnequal); ++unequal; }
    }
    void step(const Op& o) {
        int i = o.d % 3, j = (i + 1 + (o.d / 3) % 2) % 3;
        if ((o.d >> 4) == 0) j = i; // sometimes with itself
        u32  aid = 1 + o.c;
        int  k = (int)(o.a % nuni), v = (int)(o.a / nuni % 1000);
        u32 id0 = 0;
        switch (o.code % oN) {
            case oNew: kill(i); id[i] = aid; acc([&] { c[i].emplace(make(aid, o.b)); });
                if constexpr (Vec) {
                    if (o.a % 3 == 1) { E e = mk(k, v); kill(i); acc([&] { c[i].emplace((size_t)(o.b % 20), e, A(aid)); }); m[i].assign(o.b % 20, { k, 0 }); }
                    if (o.a % 3 == 2) { int z; { E e{}; z = un(e).first; } kill(i); acc([&] { c[i].emplace((size_t)(o.b % 20), A(aid)); }); m[i].assign(o.b % 20, { z, 0 }); }
                }
                break;
            case oCopyCtor:
                if (i == j) return;
                ensure(j); kill(i);
                id[i] = AT::select_on_container_copy_construction(A(id[j])).id;
                acc([&] { c[i].emplace(*c[j]); });
                m[i] = m[j];
                transfer(i, j);
                break;
            case oCopyCtorA:
                if (i == j) return;
                if constexpr (requires(C x, A a) { C(std::as_const(x), a); }) {
                    ensure(j); kill(i);
                    id[i] = aid;
                    acc([&] { c[i].emplace(std::as_const(*c[j]), A(aid)); });
                    m[i] = m[j];
                    transfer(i, j);
                }
                break;
            case oMoveCtor:
                if (i == j) return;
                ensure(j); kill(i);
                id[i] = id[j];
                acc([&] { c[i].emplace(std::move(*c[j])); });
                m[i]      = m[j];
                unspec[j] = true;
                transfer(i, j);
                break;
            case oMoveCtorA:
                if (i == j) return;
                if constexpr (requires(C x, A a) { C(std::move(x), a); }) {
                    ensure(j); kill(i);
                    id[i] = aid;
                    acc([&] { c[i].emplace(std::move(*c[j]), A(aid)); });
                    m[i]      = m[j];
                    unspec[j] = true;
                    transfer(i, j);
                }
                break;
            case oCopyAsg:
                ensure(j);
                if (!c[i]) ensure(i);
                if (AT::propagate_on_container_copy_assignment::value && id[i] != id[j]) note(cPropagated);
                transfer(i, j);
                acc([&] { *c[i] = std::as_const(*c[j]); });
                m[i]      = m[j];
                unspec[i] = false;
                if (AT::propagate_on_container_copy_assignment::value) id[i] = id[j];
                break;
            case oMoveAsg:
                if (i == j) return;
                ensure(j);
                if (!c[i]) ensure(i);
                if (AT::propagate_on_container_move_assignment::value && id[i] != id[j]) note(cPropagated);
                transfer(i, j);
                id0 = id[i];
                acc([&] { *c[i] = std::move(*c[j]); });
                m[i]      = m[j];
                unspec[i] = false;
                unspec[j] = true;
                if (AT::propagate_on_container_move_assignment::value) id[i] = id[j];
                // Known finding: btree move assignment consults propagate_on_container_copy_assignment (pinned by the
                // test suite). Where the two traits differ, either allocator is accepted; all other checks remain.
                if (kIsBtree && AT::propagate_on_container_move_assignment::value != AT::propagate_on_container_copy_assignment::value) {
                    u32 now = c[i]->get_allocator().id;
                    if (now == id0 || now == id[j]) id[i] = now;
                    id[j] = c[j]->get_allocator().id;
                }
                // the source may now hold anything, with its own allocator or (where moving is swapping) the destination's
                if (AT::propagate_on_container_move_assignment::value) id[j] = c[j]->get_allocator().id;
                break;
            case oSwap:
                ensure(i); ensure(j);
                if (!AT::propagate_on_container_swap::value && id[i] != id[j]) return;
                transfer(i, j);
                acc([&] { if ((o.b & 1) || id[i] != id[j]) c[i]->swap(*c[j]); else { using std::swap; swap(*c[i], *c[j]); } });
                if (i != j) { std::swap(m[i], m[j]); std::swap(id[i], id[j]); }
                break;
            case oDestroy: kill(i); break;
            case oClear: ensure(i); acc([&] { c[i]->clear(); }); m[i].clear(); break;
            case oInsert:
                ensure(i);
                if constexpr (Vec) {
                    size_t p = m[i].empty() ? 0 : o.a % (m[i].size() + 1), n = o.b % 9;
                    E      e = mk(k, v);
                    switch (o.c + 3 * (o.d >> 5)) {
                        case 0: acc([&] { c[i]->insert(c[i]->begin() + p, e); }); m[i].insert(m[i].begin() + p, { k, 0 }); break;
                        case 1: acc([&] { c[i]->insert(c[i]->begin() + p, n, e); }); m[i].insert(m[i].begin() + p, n, { k, 0 }); break;
                        case 2: acc([&] { c[i]->assign(n, e); }); m[i].assign(n, { k, 0 }); break;
                        case 3: acc([&] { c[i]->resize(p + n, e); }); m[i].resize(p + n, { k, 0 }); break;
                        case 4: acc([&] { c[i]->emplace_back(e); }); m[i].push_back({ k, 0 }); break;
                        default: { E arr[] = { e, e, e }; acc([&] { c[i]->insert(c[i]->begin() + p, arr, arr + 3); }); m[i].insert(m[i].begin() + p, 3, { k, 0 }); }
                    }
                } else ins(i, k, v);
                break;
            case oFill: ensure(i); for (u32 n = 0; n < std::min(o.b, 2 * nuni); ++n) ins(i, (int)((k + n * 7) % nuni), v + (int)n); break;
            case oErase:
                ensure(i);
                if constexpr (Vec) {
                    if (m[i].empty()) return;
                    size_t p = o.a % m[i].size(), q = std::min(m[i].size(), p + 1 + o.b % 4);
                    acc([&] { c[i]->erase(c[i]->begin() + p, c[i]->begin() + q); });
                    m[i].erase(m[i].begin() + p, m[i].begin() + q);
                } else {
                    for (u32 n = 0; n <= o.b % 8; ++n) {
                        int kk = (int)((k + n) % nuni);
                        acc([&] { c[i]->erase(mk_key(kk)); });
                        std::erase_if(m[i], [&](auto& e) { return e.first == kk; });
                    }
                }
                break;
            case oExtract:
                if constexpr (!Vec) {
                    ensure(i);
                    if (node) { acc([&] { node.reset(); }); }
                    acc([&] { node.emplace(c[i]->extract(mk_key(k))); });
                    if (!has(m[i], k)) { PBT_REQUIRE(node->empty()); node.reset(); }
                    else {
                        PBT_REQUIRE(!node->empty());
                        PBT_CHECK(node->get_allocator().id == id[i], "a node extracted from a container with allocator #%u reports #%u", id[i], (unsigned)node->get_allocator().id);
                        node_id = id[i];
                        for (size_t n = 0; n < m[i].size(); ++n) if (m[i][n].first == k) { node_e = m[i][n]; m[i].erase(m[i].begin() + n); break; }
                    }
                }
                break;
            case oPutNode:
                if constexpr (!Vec) {
                    if (!node) return;
                    ensure(i);
                    if (node_id != id[i]) { if (o.b & 1) acc([&] { node.reset(); }); break; } // wrong allocator: only destroy it
                    acc([&] { c[i]->insert(std::move(*node)); });
                    acc([&] { node.reset(); });
                    put(m[i], node_e);
                }
                break;
            case oMerge:
                if constexpr (!Vec) {
                    if (i == j) return;
                    ensure(i); ensure(j);
                    if (id[i] != id[j]) return;
                    transfer(i, j);
                    acc([&] { c[i]->merge(*c[j]); });
                    Content rest;
                    for (auto& e : m[j]) if (!MULTI && has(m[i], e.first)) rest.push_back(e); else m[i].push_back(e);
                    m[j] = rest;
                }
                break;
            case oReserve:
                ensure(i);
                if constexpr (requires { c[i]->reserve(1); }) acc([&] { c[i]->reserve(o.b); });
                break;
            case oShrink:
                ensure(i);
                if constexpr (Vec) acc([&] { c[i]->shrink_to_fit(); });
                else if constexpr (Hash) acc([&] { c[i]->rehash(0); });
                break;
            case oRange: {
                kill(i);
                id[i] = aid;
                auto a = mk(k, v), b = mk((k + 1) % (int)nuni, v), d = mk(k, v);
                if constexpr (M) { std::pair<TK, TV> arr[] = { a, b, d }; acc([&] { range(i, arr, arr + 3, aid, o.b); }); }
                else { E arr[] = { a, b, d }; acc([&] { range(i, arr, arr + 3, aid, o.b); }); }
                put(m[i], { k, M ? v : 0 });
                put(m[i], { (k + 1) % (int)nuni, M ? v : 0 });
                put(m[i], { k, M ? v : 0 });
                break;
            }
            case oInit: {
                kill(i);
                id[i] = aid;
                acc([&] {
                    if constexpr (Vec) c[i].emplace(std::initializer_list<E>{ mk(k, v), mk(k, v) }, A(aid));
                    else if constexpr (Hash) {
                        using IL = std::initializer_list<decltype(mk(k, v))>;
                        switch (o.b % 5) {
                            case 0: c[i].emplace(std::initializer_list<E>{ mk(k, v), mk(k, v) }, 0, typename C::hasher(), typename C::key_equal(), A(aid)); break;
                            case 1: c[i].emplace(IL{ mk(k, v), mk(k, v) }, o.b % 40, typename C::hasher(), typename C::key_equal(), A(aid)); break;
                            case 2: c[i].emplace(IL{ mk(k, v), mk(k, v) }, o.b % 40, typename C::hasher(), A(aid)); break;
                            case 3: c[i].emplace(IL{ mk(k, v), mk(k, v) }, o.b % 40, A(aid)); break;
                            default: c[i].emplace(IL{ mk(k, v), mk(k, v) }, A(aid)); break;
                        }
                    }
                    else {
                        using IL = std::initializer_list<decltype(mk(k, v))>;
                        if constexpr (MULTI) c[i].emplace(IL{ mk(k, v), mk(k, v) }, typename C::key_compare(), A(aid));
                        else if (o.b & 1) c[i].emplace(IL{ mk(k, v), mk(k, v) }, A(aid));
                        else c[i].emplace(IL{ mk(k, v), mk(k, v) }, typename C::key_compare(), A(aid));
                    }
                });
                put(m[i], { k, M ? v : 0 });
                put(m[i], { k, M ? v : 0 });
                break;
            }
        }
    }
    template<class It> void range(int i, It b, It e, u32 aid, u32 form) {
        if constexpr (Vec) c[i].emplace(b, e, A(aid));
        else if constexpr (Hash) switch (form % 4) {
            case 0: c[i].emplace(b, e, 0, typename C::hasher(), typename C::key_equal(), A(aid)); break;
            case 1: c[i].emplace(b, e, form % 40, typename C::hasher(), A(aid)); break;
            case 2: c[i].emplace(b, e, form % 40, A(aid)); break;
            default: c[i].emplace(b, e, A(aid)); break;
        }
        else c[i].emplace(b, e, typename C::key_compare(), A(aid));
    }
    static auto mk_key(int k) { if constexpr (Vec) return 0; else return Conv<typename C::key_type>::mk(k); }
    void run(const Case& cs, Ctx& ctx) {
        nuni = std::max(1u, cs.c(1));
        int n = 0;
        for (auto& o : cs.ops) {
            ctx.opno = n++;
            step(o);
            for (int i = 0; i < 3; ++i) check(i);
            check_ids();
        }
        ctx.nontrivial = transfers >= 2 && unequal >= 1;
        acc([&] { node.reset(); });
        for (int i = 0; i < 3; ++i) kill(i);
        PBT_CHECK(blocks().empty(), "%zu block(s) never returned to their allocator", blocks().size());
    }
};
template<u32 B> static void go(const Case& cs, Ctx& ctx) { H<Cont<B>> h; h.run(cs, ctx); }
void pbt_run(const Case& cs, Ctx& ctx) {
    switch (cs.c(0) % 16) {
        case 0: return go<0>(cs, ctx); case 1: return go<1>(cs, ctx); case 2: return go<2>(cs, ctx); case 3: return go<3>(cs, ctx);
        case 4: return go<4>(cs, ctx); case 5: return go<5>(cs, ctx); case 6: return go<6>(cs, ctx); case 7: return go<7>(cs, ctx);
        case 8: return go<8>(cs, ctx); case 9: return go<9>(cs, ctx); case 10: return go<10>(cs, ctx); case 11: return go<11>(cs, ctx);
        case 12: return go<12>(cs, ctx); case 13: return go<13>(cs, ctx); case 14: return go<14>(cs, ctx); default: return go<15>(cs, ctx);
    }
}
