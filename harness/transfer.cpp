// C23: extract / node insertion / merge move elements between containers without losing, duplicating or copying them.
#include "types.hpp"
#include <gtl/btree.hpp>
#include <gtl/phmap.hpp>
#include <mutex>
#include <optional>
#include <tuple>
#ifndef CFG
    #define CFG 0
#endif
using namespace pbt;
enum { oIns, oFill, oErase, oExtractKey, oExtractIt, oPut, oPutHint, oPutEmpty, oDrop, oNodeMove, oNodeSwap, oRekey, oMerge, oMergeRv, oSwap, oClear, oRehash, oN };
static const char* names[] = { "insert", "fill", "erase", "extract_key", "extract_it", "put_node", "put_node_hint", "put_empty", "drop_node", "move_handle", "swap_handles", "rekey", "merge", "merge_rvalue", "swap", "clear", "rehash" };
const char* const* pbt_op_names = names;
int                pbt_num_ops  = oN;
enum { cExtract, cPut, cRefused, cMerged, cMergeRefused, cRekeyed, cAddr };
static const char* cn[]              = { "elements_extracted", "nodes_inserted", "nodes_refused", "elements_merged", "elements_refused_by_merge", "rekeyed", "addresses_checked", nullptr };
const char* const* pbt_counter_names = cn;
const char*        pbt_rule = "A case is a history of insertions, extractions (by key and position), node insertions (plain, hinted), handle moves, key changes and merges over three containers (one of a "
                              "different but compatible type) and three node handles; every element carries a serial number; non-trivial: at least 3 elements transferred and one refusal or key change";
void pbt_gen(Rng& r, Case& c) {
    static const u32 unis[] = { 3, 8, 30, 120, 700 };
    c.cfg = { unis[r.below(5)], r.below(8) };
    u32 len = r.chance(1, 2) ? r.range(5, 25) : r.range(25, 120);
    std::vector<u32> pool;
    for (u32 i = 0; i < oN; ++i)
        for (u32 k = r.below(3); k; --k) pool.push_back(i);
    for (u32 i : { oIns, oFill, oExtractKey, oExtractIt, oPut, oPut, oMerge }) pool.push_back(i);
    for (u32 i = 0; i < len; ++i)
        c.ops.push_back({ i < 2 ? (u32)oFill : pool[r.below(pool.size())], r.u() >> 2, r.skewed(8), r.below(3), r.below(64) });
}
struct El {
    TK  k;
    int serial = -1;
    El(int kk, int s) : k(kk), serial(s) {}
    friend bool operator==(const El& a, const El& b) { return a.k == b.k; }
    friend bool operator<(const El& a, const El& b) { return a.k < b.k; }
};
template<> struct pbt::Conv<El> { static El mk(int i) { return El(i, -1); } static int un(const El& e) { return e.k.get(); } };
static u32 g_hkind = 0;
template<class K, int Salt>
struct Hs {
    size_t operator()(const K& k) const { return hash_kind(g_hkind + Salt, (u64)(u32)Conv<K>::un(k)); }
};
template<class K>
struct Eq2 { // another equality type
    bool operator()(const K& a, const K& b) const { return Conv<K>::un(a) == Conv<K>::un(b); }
};
template<class K, int Salt>
struct Lt { // Salt 1: descending
    bool operator()(const K& a, const K& b) const { return Salt ? b < a : a < b; }
};
using PV = std::pair<const TK, TV>;
#if CFG == 0
using C0 = gtl::flat_hash_map<TK, TV, Hs<TK, 0>>; using C2 = gtl::flat_hash_map<TK, TV, Hs<TK, 1>>;
#elif CFG == 1
using C0 = gtl::node_hash_map<TK, TV, Hs<TK, 0>>; using C2 = gtl::node_hash_map<TK, TV, Hs<TK, 1>>;
#elif CFG == 2
using C0 = gtl::flat_hash_set<El, Hs<El, 0>>; using C2 = gtl::flat_hash_set<El, Hs<El, 1>>;
#elif CFG == 3
using C0 = gtl::node_hash_set<El, Hs<El, 0>>; using C2 = gtl::node_hash_set<El, Hs<El, 1>>;
#elif CFG == 4
using C0 = gtl::parallel_flat_hash_map<TK, TV, Hs<TK, 0>, std::equal_to<TK>, std::allocator<PV>, 2, std::mutex>; using C2 = gtl::parallel_flat_hash_map<TK, TV, Hs<TK, 0>, Eq2<TK>, std::allocator<PV>, 2, std::mutex>;
#elif CFG == 5
using C0 = gtl::parallel_node_hash_map<TK, TV, Hs<TK, 0>, std::equal_to<TK>, std::allocator<PV>, 3>; using C2 = C0;
#elif CFG == 6
using C0 = gtl::btree_map<TK, TV>; using C2 = gtl::btree_map<TK, TV, Lt<TK, 1>>;
#elif CFG == 7
using C0 = gtl::btree_multimap<TK, TV>; using C2 = gtl::btree_map<TK, TV, Lt<TK, 1>>;
#elif CFG == 8
using C0 = gtl::btree_set<El>; using C2 = gtl::btree_multiset<El, Lt<El, 1>>;
#elif CFG == 9
using C0 = gtl::btree_multiset<El>; using C2 = gtl::btree_set<El>;
#elif CFG == 10
using C0 = gtl::parallel_node_hash_set<El, Hs<El, 0>, std::equal_to<El>, std::allocator<El>, 2, std::mutex>; using C2 = gtl::parallel_node_hash_set<El, Hs<El, 0>, Eq2<El>, std::allocator<El>, 2, std::mutex>;
#elif CFG == 11
using C0 = gtl::parallel_flat_hash_set<El, Hs<El, 0>, std::equal_to<El>, std::allocator<El>, 0>; using C2 = C0;
#endif
static constexpr bool M = CFG == 0 || CFG == 1 || (CFG >= 4 && CFG <= 7), Node = CFG == 1 || CFG == 3 || CFG == 5 || CFG == 10, Btree = CFG >= 6 && CFG <= 9;
template<class C> struct IsMulti { template<class X> static constexpr bool f() { return !requires(X x, typename X::node_type n) { x.insert(std::move(n)).inserted; }; } static constexpr bool value = f<C>(); };
using E2 = std::pair<int, int>; // key, serial
using Content = std::set<E2>;
template<class X> static E2 un(const X& x) {
    if constexpr (M) return { Conv<TK>::un(x.first), Conv<TV>::un(x.second) };
    else { x.k.alive("read"); return { x.k.get(), x.serial }; }
}
static auto mk(int k, int s) {
    if constexpr (M) return std::pair<TK, TV>(TK(k), TV(s));
    else return El(k, s);
}
static auto mk_key(int k) { if constexpr (M) return TK(k); else return El(k, -2); }
static long copies() { return TK::copies + TV::copies; }

template<class N>
struct Handle {
    std::optional<N> n; // engaged: may hold an (empty) handle
    bool             full = false;
    E2               e;
};
template<class Ca, class Cb>
struct H {
    static constexpr bool SameNode = std::is_same_v<typename Ca::node_type, typename Cb::node_type>;
    using N0 = typename Ca::node_type;
    using N2 = typename Cb::node_type;
    Ca         a, b;
    Cb         c;
    Content    m[3];
    Handle<N0> h[3];
    Handle<N2> g; // for the third container where its node type is another one
    std::map<int, const void*> addr;
    int        nuni, next_serial = 1;
    u64        moved = 0, special = 0;

    template<class F> void with(int i, F&& f) { if (i == 0) f(a); else if (i == 1) f(b); else f(c); }
    template<class X, class F> void with_handle(X&, int hi, F&& f) {
        if constexpr (std::is_same_v<typename X::node_type, N0>) f(h[hi]);
        else f(g);
    }
    template<class N> static E2 node_elem(const N& n) {
        if constexpr (M) return { Conv<TK>::un(n.key()), Conv<TV>::un(n.mapped()) };
        else return un(n.value());
    }
    template<class N> static const void* node_addr(const N& n) {
        if constexpr (M) return &n.mapped(); else return &n.value();
    }
    template<class X> static const void* el_addr(const X& x) { if constexpr (M) return &x.second; else return &x; }
    void check_addr(int serial, const void* p) {
        if (!Node) return;
        auto [it, fresh] = addr.emplace(serial, p);
        note(cAddr);
        PBT_CHECK(it->second == p, "element #%d of a node container changed its address", serial);
    }
    static Content content(auto& x) {
        Content r;
        size_t  n = 0;
        for (auto& e : x) { ++n; PBT_CHECK(r.insert(un(e)).second, "element #%d is in the container twice", un(e).second); }
        PBT_CHECK(n == x.size(), "iteration visits %zu elements, size() is %zu", n, (size_t)x.size());
        return r;
    }
    static bool has(const Content& s, int k) { auto it = s.lower_bound({ k, INT32_MIN }); return it != s.end() && it->first == k; }
    void check_handle(auto& hh) {
        if (!hh.full) { PBT_CHECK(!hh.n || (hh.n->empty() && !*hh.n), "a node handle that gave its element away is not empty"); return; }
        PBT_CHECK(hh.n && !hh.n->empty(), "a node handle lost its element");
        PBT_CHECK(node_elem(*hh.n) == hh.e, "a node handle holds (%d, #%d), expected (%d, #%d)", node_elem(*hh.n).first, node_elem(*hh.n).second, hh.e.first, hh.e.second);
        check_addr(hh.e.second, node_addr(*hh.n));
    }
    void check() {
        for (int i = 0; i < 3; ++i)
            with(i, [&](auto& x) {
                Content got = content(x);
                PBT_CHECK(got == m[i], "container %d holds %zu elements that are not the expected %zu", i, got.size(), m[i].size());
                for (auto& e : x) check_addr(un(e).second, el_addr(e));
                if constexpr (!IsMulti<std::remove_cvref_t<decltype(x)>>::value)
                    for (auto& e : m[i]) { auto it = x.find(mk_key(e.first)); PBT_CHECK(it != x.end() && un(*it) == e, "key %d cannot be found after the transfer", e.first); }
            });
        for (auto& x : h) check_handle(x);
        check_handle(g);
        size_t total = m[0].size() + m[1].size() + m[2].size() + g.full;
        for (auto& x : h) total += x.full;
        PBT_CHECK((size_t)TK::live == total, "%ld key objects are alive, %zu elements exist", TK::live, total);
        if (M) PBT_CHECK((size_t)TV::live == total, "%ld mapped objects are alive, %zu elements exist", TV::live, total);
    }
    void ins(int i, int k) {
        int s = next_serial++;
        with(i, [&](auto& x) {
            bool multi = IsMulti<std::remove_cvref_t<decltype(x)>>::value;
            x.insert(mk(k, s));
            if (multi || !has(m[i], k)) m[i].insert({ k, s });
        });
    }
    // the container's answer to merge() is accepted iff it conserves the elements and refuses exactly the clashing ones
    template<class D, class S> void merged(D& d, S& s, int i, int j) {
        Content nd = content(d), ns = content(s), all0 = m[i], all1 = nd;
        for (auto& e : m[j]) all0.insert(e);
        for (auto& e : ns) PBT_CHECK(all1.insert(e).second, "element #%d is in both containers after merge", e.second);
        PBT_CHECK(all0 == all1, "merge changed the set of elements: %zu before, %zu after", all0.size(), all1.size());
        for (auto& e : m[i]) PBT_CHECK(nd.count(e), "merge removed element #%d from its destination", e.second);
        if constexpr (IsMulti<D>::value) PBT_CHECK(ns.empty(), "merge into a multi container left %zu elements behind", ns.size());
        else {
            for (auto it = nd.begin(); it != nd.end(); ++it) PBT_CHECK(std::next(it) == nd.end() || std::next(it)->first != it->first, "merge duplicated key %d in a unique container", it->first);
            for (auto& e : ns) PBT_CHECK(has(nd, e.first), "merge left key %d behind though the destination does not have it", e.first);
        }
        note(cMerged, nd.size() - m[i].size());
        note(cMergeRefused, ns.size());
        moved += nd.size() - m[i].size();
        if (!ns.empty()) ++special;
        m[i] = nd;
        m[j] = ns;
    }
    void step(const Op& o) {
        int i = o.d % 3, j = (i + 1 + (o.d / 3) % 2) % 3, hi = o.c % 3, k = (int)(o.a % nuni);
        switch (o.code % oN) {
            case oIns: ins(i, k); break;
            case oFill: for (u32 n = 0; n < std::min<u32>(o.b, 2 * nuni); ++n) ins(i, (int)((k + n * 5) % nuni)); break;
            case oErase: with(i, [&](auto& x) { x.erase(mk_key(k)); }); std::erase_if(m[i], [&](auto& e) { return e.first == k; }); break;
            case oExtractKey:
            case oExtractIt:
                with(i, [&](auto& x) { with_handle(x, hi, [&](auto& hh) {
                    long cp = 0;
                    bool had;
                    if (o.code % oN == oExtractKey) {
                        auto key = mk_key(k);
                        had      = has(m[i], k);
                        cp       = copies();
                        if (hh.n) *hh.n = x.extract(key); else hh.n.emplace(x.extract(key));
                    } else {
                        if (m[i].empty()) return;
                        had     = true;
                        auto it = x.begin();
                        for (size_t n = o.a % m[i].size(); n; --n) ++it;
                        k  = un(*it).first;
                        int s = un(*it).second;
                        cp = copies();
                        if (hh.n) *hh.n = x.extract(it); else hh.n.emplace(x.extract(it));
                        PBT_CHECK(!hh.n->empty() && node_elem(*hh.n).second == s, "extract(position) took another element than the one designated");
                    }
                    PBT_CHECK(copies() == cp, "extract copied %ld objects", copies() - cp);
                    hh.full = had;
                    PBT_CHECK(hh.n->empty() == !had, "extract of key %d: handle empty %d, key present %d", k, hh.n->empty(), had);
                    if (had) {
                        hh.e = node_elem(*hh.n);
                        PBT_CHECK(hh.e.first == k && m[i].erase(hh.e), "extract of key %d yields (%d, #%d), which was not in the container", k, hh.e.first, hh.e.second);
                        note(cExtract);
                        ++moved;
                    }
                }); });
                break;
            case oPut:
                with(i, [&](auto& x) { with_handle(x, hi, [&](auto& hh) {
                    if (!hh.n) return;
                    using X = std::remove_cvref_t<decltype(x)>;
                    long cp = copies();
                    if constexpr (IsMulti<X>::value) {
                        auto it = x.insert(std::move(*hh.n));
                        PBT_CHECK(copies() == cp, "inserting a node copied %ld objects", copies() - cp);
                        if (!hh.full) { PBT_REQUIRE(it == x.end()); return; }
                        PBT_CHECK(un(*it) == hh.e, "insert(node) returned another position");
                        m[i].insert(hh.e);
                        hh.full = false;
                        note(cPut);
                    } else {
                        auto res = x.insert(std::move(*hh.n));
                        PBT_CHECK(copies() == cp, "inserting a node copied %ld objects", copies() - cp);
                        PBT_CHECK(hh.n->empty(), "the argument of insert(node&&) still holds an element");
                        if (!hh.full) { PBT_REQUIRE(!res.inserted && res.position == x.end() && res.node.empty()); return; }
                        bool clash = has(m[i], hh.e.first);
                        PBT_CHECK(res.inserted == !clash, "insert(node) of key %d: inserted %d, key present before %d", hh.e.first, res.inserted, clash);
                        PBT_CHECK(res.node.empty() == !clash, "insert(node): returned handle empty %d, refused %d", res.node.empty(), clash);
                        PBT_CHECK(un(*res.position).first == hh.e.first, "insert(node) returned a position with key %d instead of %d", un(*res.position).first, hh.e.first);
                        if (clash) {
                            *hh.n = std::move(res.node);
                            PBT_REQUIRE(m[i].count(un(*res.position)));
                            note(cRefused);
                            ++special;
                        } else {
                            PBT_REQUIRE(un(*res.position) == hh.e);
                            m[i].insert(hh.e);
                            hh.full = false;
                            note(cPut);
                        }
                    }
                }); });
                break;
            case oPutHint:
                with(i, [&](auto& x) { with_handle(x, hi, [&](auto& hh) {
                    if (!hh.n) return;
                    using X   = std::remove_cvref_t<decltype(x)>;
                    auto hint = x.begin();
                    if (!m[i].empty()) for (size_t n = o.a % (m[i].size() + 1); n; --n) ++hint;
                    auto it = x.insert(typename X::const_iterator(hint), std::move(*hh.n));
                    if (!hh.full) { PBT_REQUIRE(it == x.end()); return; }
                    bool clash = !IsMulti<X>::value && has(m[i], hh.e.first);
                    PBT_CHECK(un(*it).first == hh.e.first, "insert(hint, node) returned a position with key %d instead of %d", un(*it).first, hh.e.first);
                    if (clash) { note(cRefused); ++special; PBT_CHECK(!hh.n->empty(), "a refused insert(hint, node) lost the element"); }
                    else { PBT_REQUIRE(un(*it) == hh.e); m[i].insert(hh.e); hh.full = false; note(cPut); }
                }); });
                break;
            case oPutEmpty: with(i, [&](auto& x) { typename std::remove_cvref_t<decltype(x)>::node_type n; auto r = x.insert(std::move(n)); (void)r; PBT_REQUIRE(n.empty()); }); break;
            case oDrop: with(i, [&](auto& x) { with_handle(x, hi, [&](auto& hh) { hh.n.reset(); hh.full = false; }); }); break;
            case oNodeMove: {
                int hj = (hi + 1) % 3;
                if (!h[hi].n) return;
                long cp = copies();
                if (h[hj].n && (o.b & 1)) *h[hj].n = std::move(*h[hi].n); else { h[hj].n.reset(); h[hj].n.emplace(std::move(*h[hi].n)); }
                PBT_REQUIRE(copies() == cp);
                h[hj].full = h[hi].full;
                h[hj].e    = h[hi].e;
                h[hi].full = false;
                break;
            }
            case oNodeSwap: {
                int hj = (hi + 1) % 3;
                if (!h[hi].n || !h[hj].n) return;
                std::swap(*h[hi].n, *h[hj].n);
                std::swap(h[hi].full, h[hj].full);
                std::swap(h[hi].e, h[hj].e);
                break;
            }
            case oRekey:
                with(i, [&](auto& x) { with_handle(x, hi, [&](auto& hh) {
                    if (!hh.full) return;
                    if constexpr (M) {
                        if constexpr (requires { hh.n->key() = TK(1); }) hh.n->key() = TK(k);
                        else return;
                    } else hh.n->value().k = TK(k);
                    hh.e.first = k;
                    note(cRekeyed);
                    ++special;
                }); });
                break;
            case oMerge:
            case oMergeRv:
                with(i, [&](auto& d) { with(j, [&](auto& s) {
                    long cp = copies();
                    if constexpr (requires { d.merge(s); d.merge(std::move(s)); }) {
                        if (o.code % oN == oMerge) d.merge(s); else d.merge(std::move(s));
                        if (!Btree) PBT_CHECK(copies() == cp, "merge copied %ld objects", copies() - cp);
                        if (Node) for (auto& e : d) check_addr(un(e).second, el_addr(e));
                        merged(d, s, i, j);
                    }
                }); });
                break;
            case oSwap: a.swap(b); std::swap(m[0], m[1]); break;
            case oClear: with(i, [&](auto& x) { x.clear(); }); m[i].clear(); break;
            case oRehash: with(i, [&](auto& x) { if constexpr (requires { x.rehash(1); }) x.rehash(o.b * 4); }); break;
        }
    }
    void run(const Case& cs, Ctx& ctx) {
        nuni  = (int)std::max(1u, cs.c(0));
        int n = 0;
        for (auto& o : cs.ops) {
            ctx.opno = n++;
            step(o);
            check();
        }
        ctx.nontrivial = moved >= 3 && special;
    }
};
void pbt_run(const Case& cs, Ctx& ctx) {
    g_hkind = cs.c(1);
    { H<C0, C2> h; h.run(cs, ctx); }
    PBT_EQ(TK::live, 0);
    PBT_EQ(TV::live, 0);
}
