// C19 under exceptions: a fault is injected at every element operation of insert, resize, reserve, copy, assignment and sorting
// (in the comparator), on copies; the columns stay in step, and a failed operation leaves the rows as they were.
#include "types.hpp"
#include <gtl/soa.hpp>
using namespace pbt;
#ifndef CFG
    #define CFG 0
#endif
#if CFG == 0
using S = gtl::soa<TK, int, TK>;
static constexpr bool T1 = false;
#else
using S = gtl::soa<int, TK, TK>;
static constexpr bool T1 = true;
#endif
using R = std::tuple<int, int, int>;
using M = std::vector<R>;
enum { cFaults, cOps };
static const char* counters[] = { "faults_injected", "operations", nullptr };
static const char* names[] = { "insert", "resize", "reserve", "copy", "copy_assign", "sort_0", "sort_1", "sort_2", "clear", "write" };
enum { oIns, oRs, oRes, oCC, oCA, oS0, oS1, oS2, oClr, oWr, oN };
const char* const* pbt_op_names = names;
int pbt_num_ops = oN;
const char* const* pbt_counter_names = counters;
const char* pbt_rule = "A case is a generated history of 1-40 operations on a three-column table, each tried once per fault point (element construction, copy, assignment, and comparison) on a copy; non-trivial: at least 8 injected faults fired";
void pbt_gen(Rng& r, Case& c) {
    c.cfg = { 0 };
    u32 len = r.range(1, 40);
    for (u32 i = 0; i < len; ++i) c.ops.push_back(Op{ r.chance(1, 2) ? (u32)oIns : r.below(oN), r.u() >> 4, r.below(12), r.skewed(5), r.u() >> 16 });
}
static int val(int x) { return x; }
static int val(const TK& x) { return x.get(); }
static M rows(const S& s) {
    PBT_CHECK(s.get_column<0>().size() == s.size() && s.get_column<1>().size() == s.size() && s.get_column<2>().size() == s.size(), "columns of %zu, %zu and %zu elements", s.get_column<0>().size(), s.get_column<1>().size(), s.get_column<2>().size());
    M m;
    for (size_t i = 0; i < s.size(); ++i) { auto r = s[i]; m.emplace_back(val(std::get<0>(r)), val(std::get<1>(r)), val(std::get<2>(r))); }
    return m;
}
static void apply(S& x, S& other, const Op& o) {
    std::unique_ptr<TK> a, b;
    { long cd = g_faults.countdown; g_faults.countdown = -1; a.reset(new TK((int)o.b)); b.reset(new TK((int)(o.a % 9))); g_faults.countdown = cd; }
    auto lt = [](auto& p, auto& q) { fault_point(kCb); return val(p) < val(q); };
    switch (o.code % oN) {
        case oIns: if constexpr (T1) x.insert((int)o.c, *a, *b); else x.insert(*a, (int)o.c, *b); break;
        case oRs: x.resize(x.size() + o.b < 5 ? x.size() : x.size() + o.b - 5); break;
        case oRes: x.reserve(o.b * 4); break;
        case oCC: { S y(x); break; }
        case oCA: other = x; break;
        case oS0: x.sort_by_field<0>(lt); break;
        case oS1: x.sort_by_field<1>(lt); break;
        case oS2: x.sort_by_field<2>(lt); break;
        case oClr: if (o.d % 4 == 0) x.clear(); break;
        case oWr: break;
    }
}
static M expect(const M& m0, const Op& o) {
    M m = m0;
    auto by = [&](auto f) { std::stable_sort(m.begin(), m.end(), [&](auto& p, auto& q) { return f(p) < f(q); }); };
    switch (o.code % oN) {
        case oIns: if constexpr (T1) m.emplace_back((int)o.c, (int)o.b, (int)(o.a % 9)); else m.emplace_back((int)o.b, (int)o.c, (int)(o.a % 9)); break;
        case oRs: { size_t n = m.size() + o.b < 5 ? m.size() : m.size() + o.b - 5; int d0 = T1 ? 0 : TK().get(), d1 = T1 ? TK().get() : 0, d2 = TK().get(); m.resize(n, R(d0, d1, d2)); break; }
        case oS0: by([](auto& p) { return std::get<0>(p); }); break;
        case oS1: by([](auto& p) { return std::get<1>(p); }); break;
        case oS2: by([](auto& p) { return std::get<2>(p); }); break;
        case oClr: if (o.d % 4 == 0) m.clear(); break;
    }
    return m;
}
void pbt_run(const Case& c, Ctx& ctx) {
    long l0 = TK::live, fired = 0;
    {
        S x, other; M m, om;
        for (size_t i = 0; i < c.ops.size(); ++i) {
            ctx.opno = (int)i; const Op& o = c.ops[i]; u32 code = o.code % oN; note(cOps);
            for (long n = 0; n < 60; ++n) {
                long k1 = TK::live; bool hit = false;
                {
                    S y(x), z(other);
                    long base = TK::live;
                    {
                        FaultGuard fg(n, ~0u);
                        try { apply(y, z, o); } catch (const Injected&) { hit = true; }
                        if (!hit && g_faults.fired) fail("the exception thrown by user code did not reach the caller");
                    }
                    if (hit) {
                        ++fired; note(cFaults);
                        PBT_CHECK(rows(y) == m, "a failed %s changed the table", names[code]);
                        PBT_CHECK(rows(z) == om, "a failed %s changed another table", names[code]);
                        PBT_EQ(TK::live, base);
                        Op ins{ oIns, 1, 2, 3, 4 }; apply(y, z, ins); PBT_REQUIRE(rows(y) == expect(m, ins));
                    }
                }
                PBT_EQ(TK::live, k1);
                if (!hit) break;
            }
            apply(x, other, o);
            if (code == oCA) om = m;
            m = expect(m, o);
            PBT_CHECK(rows(x) == m, "the rows after %s are not the expected ones", names[code]); PBT_REQUIRE(rows(other) == om);
        }
    }
    PBT_EQ(TK::live, l0);
    ctx.nontrivial = fired >= 8;
}
