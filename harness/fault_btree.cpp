// C08 (btrees): the comparator throws at every comparison an operation makes, in turn.
#include "types.hpp"
#include <gtl/btree.hpp>
using namespace pbt;
#ifndef CFG
    #define CFG 0
#endif
struct Less { bool operator()(const TK& a, const TK& b) const { fault_point(kEqF); return a < b; } };
template<class C_, bool Map_, bool Multi_> struct Cfg { using C = C_; static constexpr bool map = Map_, multi = Multi_; };
#if CFG == 0
using G = Cfg<gtl::btree_map<TK, TV, Less>, true, false>;
#elif CFG == 1
using G = Cfg<gtl::btree_set<TK, Less>, false, false>;
#elif CFG == 2
using G = Cfg<gtl::btree_multimap<TK, TV, Less>, true, true>;
#endif
enum { cFaults, cOps };
static const char* counters[] = { "faults_injected", "operations", nullptr };
static const char* names[] = { "insert", "insert_hint", "emplace", "insert_range", "erase_key", "find", "bounds", "extract_insert", "merge", "fill", "copy", "equal_range" };
enum { oI, oIH, oE, oIR, oEr, oF, oB, oX, oM, oFill, oC, oEq, oN };
const char* const* pbt_op_names = names;
int pbt_num_ops = oN;
const char* const* pbt_counter_names = counters;
const char* pbt_rule = "A case is a generated history of 1-25 btree operations, each tried once per comparison with the comparator throwing at that comparison, on a copy; non-trivial: at least 10 injected faults fired";
void pbt_gen(Rng& r, Case& c) {
    c.cfg = { r.range(4, 400) };
    u32 len = r.range(1, 25);
    c.ops.push_back(Op{ oFill, r.u() >> 4, r.below(200), 0, 0 });
    for (u32 i = 0; i < len; ++i) c.ops.push_back(Op{ r.below(oN), r.u() >> 4, r.skewed(8), r.skewed(5), r.u() >> 16 });
}
template<class G>
struct H {
    using C = typename G::C;
    using E = std::pair<int, int>;
    using L = std::vector<E>;
    static L contents(const C& x) {
        L l; x.verify();
        for (const auto& e : x) { if constexpr (G::map) l.push_back({ e.first.get(), e.second.get() }); else l.push_back({ e.get(), 0 }); }
        PBT_EQ(l.size(), x.size());
        for (size_t q = 1; q < l.size(); ++q) PBT_REQUIRE(G::multi ? l[q - 1].first <= l[q].first : l[q - 1].first < l[q].first);
        for (auto& e : l) PBT_REQUIRE(x.contains(TK(e.first)));
        return l;
    }
    static typename C::value_type val(int k, int v) { if constexpr (G::map) return typename C::value_type(TK(k), TV(v)); else return TK(k); }
    static void apply(C& x, C& z, const Op& o, int space) {
        int k = o.a % space;
        switch (o.code % oN) {
            case oI: x.insert(val(k, o.b)); break;
            case oIH: { auto it = x.begin(); std::advance(it, o.b % (x.size() + 1)); x.insert(it, val(k, o.b)); break; }
            case oE: if constexpr (G::map) x.emplace(TK(k), TV((int)o.b)); else x.emplace(TK(k)); break;
            case oIR: { std::vector<typename C::value_type> s; for (u32 q = 0; q < o.c % 8; ++q) s.push_back(val((k + q * 7) % space, 9000 + q)); x.insert(s.begin(), s.end()); break; }
            case oEr: x.erase(TK(k)); break;
            case oF: { bool c = x.contains(TK(k)); PBT_EQ(c, x.find(TK(k)) != x.end()); PBT_EQ(c, x.count(TK(k)) > 0); break; }
            case oB: { auto a = x.lower_bound(TK(k)), b = x.upper_bound(TK(k)); PBT_REQUIRE((size_t)std::distance(a, b) == x.count(TK(k))); break; }
            case oX: { auto n = x.extract(TK(k)); if (!n.empty()) { try { x.insert(std::move(n)); } catch (const Injected&) { PBT_REQUIRE(!n.empty()); throw; } } break; }
            case oM: x.merge(z); break;
            case oFill: for (u32 q = 0; q < o.b; ++q) { int kk = (int)(mix64(o.a + q) % space); (q % 3 ? x : z).insert(val(kk, q)); } break;
            case oC: { C y(x); PBT_EQ(y.size(), x.size()); break; }
            case oEq: { auto r = x.equal_range(TK(k)); PBT_REQUIRE((size_t)std::distance(r.first, r.second) == x.count(TK(k))); break; }
        }
    }
    static bool subset(L a, L b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return std::includes(b.begin(), b.end(), a.begin(), a.end()); }
    static L join(L a, const L& b) { a.insert(a.end(), b.begin(), b.end()); std::sort(a.begin(), a.end()); return a; }
    static void run(const Case& c, Ctx& ctx) {
        long l1 = TK::live, l2 = TV::live, fired = 0;
        {
            C x, other; L m, om; int space = std::max(2u, c.c(0));
            for (size_t i = 0; i < c.ops.size(); ++i) {
                ctx.opno = (int)i; const Op& o = c.ops[i]; u32 code = o.code % oN;
                note(cOps);
                if (code != oFill && !(code == oM && G::multi)) // a bulk multi merge moves elements one by one: no claim when the comparator throws midway
                    for (long n = 0; n < 60; ++n) {
                        bool hit = false;
                        C y(x), z(other);
                        { FaultGuard fg(code == oM ? n * n : n, kEqF); try { apply(y, z, o, space); } catch (const Injected&) { hit = true; } if (!hit && g_faults.fired) fail("the comparator's exception did not reach the caller"); }
                        if (!hit) break;
                        ++fired; note(cFaults);
                        L now = contents(y), onow = contents(z);
                        switch (code) {
                            case oM: PBT_CHECK(join(now, onow) == join(m, om), "a failed merge lost or duplicated elements"); PBT_REQUIRE(subset(m, now)); break;
                            case oIR: PBT_REQUIRE(subset(m, now)); PBT_REQUIRE(now.size() <= m.size() + o.c % 8); PBT_REQUIRE(onow == om); break;
                            case oX: PBT_REQUIRE(subset(now, m)); PBT_REQUIRE(now.size() + 1 >= m.size()); PBT_REQUIRE(onow == om); break;
                            default: PBT_CHECK(now == m && onow == om, "a failed %s changed the container", names[code]);
                        }
                        y.insert(val(space + 5, 1)); PBT_EQ(y.size(), now.size() + 1);
                    }
                apply(x, other, o, space); m = contents(x); om = contents(other);
            }
        }
        PBT_EQ(TK::live, l1); PBT_EQ(TV::live, l2);
        ctx.nontrivial = fired >= 10;
    }
};
void pbt_run(const Case& c, Ctx& ctx) { H<G>::run(c, ctx); }
