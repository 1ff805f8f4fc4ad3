// C08 (vector): a fault is injected at every user-code call an operation makes, on copies; every
// operation afterwards runs for real. TR_MOVE_MAY_THROW=true adds faults in move construction/assignment.
#if CFG == 2
    #define TR_MOVE_MAY_THROW true
#endif
#include "types.hpp"
#include <gtl/vector.hpp>
#include <list>
using namespace pbt;
#ifndef CFG
    #define CFG 0
#endif
#if CFG == 0
using V = gtl::vector<TK, TrackAlloc<TK>>;
#else
using V = gtl::vector<TK>;
#endif
using M = std::vector<int>;
enum { cFaults, cOps, cStrict };
static const char* counters[] = { "faults_injected", "operations", "exact_state_checks", nullptr };
static const char* names[] = { "push_back", "push_back_self", "emplace_back", "insert", "insert_move", "emplace", "insert_n", "insert_range", "resize", "resize_val", "assign_n", "assign_range", "copy_ctor", "copy_assign", "reserve", "shrink_to_fit", "erase", "erase_range", "ctor_n", "ctor_range", "ilist_assign", "pop_back", "clear" };
enum { oPB, oPBS, oEB, oI, oIM, oE, oIN, oIR, oRs, oRsV, oAN, oAR, oCC, oCA, oRes, oShr, oEr, oErR, oCN, oCR, oIlA, oPop, oClr, oN };
const char* const* pbt_op_names = names;
int pbt_num_ops = oN;
const char* const* pbt_counter_names = counters;
const char* pbt_rule = "A case is a generated history of 1-40 vector operations, each tried once per fault point (element copy/default/value construction, assignment, allocation, and in one configuration moves) on a copy; non-trivial: at least 10 "
                       "injected faults fired";
void pbt_gen(Rng& r, Case& c) {
    c.cfg = { 0 };
    u32 len = r.range(1, 40);
    std::vector<u32> pool;
    for (u32 i = 0; i < oN; ++i) if (r.chance(1, 2)) pool.push_back(i);
    pool.push_back(oPB); pool.push_back(oIR);
    for (u32 i = 0; i < len; ++i) c.ops.push_back(Op{ pool[r.below(pool.size())], r.u() >> 4, r.skewed(6), r.skewed(5), r.u() >> 16 });
}
template<int D>
struct H {
    static M contents(const V& x) { M m; for (auto& e : x) m.push_back(e.get()); PBT_EQ(m.size(), x.size()); PBT_REQUIRE(x.capacity() >= x.size()); return m; }
    static void apply(V& x, V& other, const Op& o) {
        size_t sz = x.size(), p = o.a % (sz + 1), n = o.c % 12;
        TK* tmp; std::vector<TK>* src;
        { long cd = g_faults.countdown; g_faults.countdown = -1; tmp = new TK((int)o.b); src = new std::vector<TK>(); for (size_t q = 0; q < n; ++q) src->emplace_back((int)(100 + q)); g_faults.countdown = cd; }
        std::unique_ptr<TK> g1(tmp); std::unique_ptr<std::vector<TK>> g2(src);
        switch (o.code % oN) {
            case oPB: x.push_back(*tmp); break;
            case oPBS: if (sz) x.push_back(x[o.b % sz]); break;
            case oEB: x.emplace_back((int)o.b); break;
            case oI: x.insert(x.begin() + p, *tmp); break;
            case oIM: x.insert(x.begin() + p, std::move(*tmp)); break;
            case oE: x.emplace(x.begin() + p, (int)o.b); break;
            case oIN: x.insert(x.begin() + p, n, *tmp); break;
            case oIR: x.insert(x.begin() + p, src->begin(), src->end()); break;
            case oRs: x.resize(n * 3); break;
            case oRsV: x.resize(n * 3, *tmp); break;
            case oAN: x.assign(n, *tmp); break;
            case oAR: x.assign(src->begin(), src->end()); break;
            case oCC: { V y(x); break; }
            case oCA: other = x; break;
            case oRes: x.reserve(n * 4); break;
            case oShr: x.shrink_to_fit(); break;
            case oEr: if (sz) x.erase(x.begin() + o.a % sz); break;
            case oErR: if (sz) { size_t a = o.a % sz, b = a + o.b % (sz - a + 1); x.erase(x.begin() + a, x.begin() + b); } break;
            case oCN: { V y(n, *tmp); V z(n); break; }
            case oCR: { V y(src->begin(), src->end()); break; }
            case oIlA: x = { *tmp, *tmp }; break;
            case oPop: if (sz) x.pop_back(); break;
            case oClr: x.clear(); break;
        }
    }
    static void run(const Case& c, Ctx& ctx) {
        long l0 = TK::live, fired = 0;
        {
            V x, other; M m, om;
            for (size_t i = 0; i < c.ops.size(); ++i) {
                ctx.opno = (int)i; const Op& o = c.ops[i];
                u32 code = o.code % oN;
                note(cOps);
                for (long n = 0; n < 60; ++n) {
                    long k1 = TK::live; size_t b0 = blocks().size(); bool hit = false;
                    {
                        V y(x), z(other);
                        if (o.d & 1) y.reserve(y.size() + o.d % 20); // with and without spare room
                        long base = TK::live;
                        {
                            FaultGuard fg(n, ~0u);
                            try { apply(y, z, o); } catch (const Injected&) { hit = true; }
                            if (!hit && g_faults.fired) { if (code != oShr) fail("the exception thrown by user code did not reach the caller"); hit = true; } // shrink_to_fit is a request: it may give up silently
                        }
                        if (hit) {
                            ++fired; note(cFaults);
                            M now = contents(y), onow = contents(z);
                            PBT_CHECK(TK::live == base + (long)now.size() - (long)m.size() + (long)onow.size() - (long)om.size(), "after a failed %s, %ld elements live outside the vectors", names[code], TK::live - base - (long)now.size() + (long)m.size() - (long)onow.size() + (long)om.size());
                            bool movefault = D == 2;
                            bool strong = code == oPB || code == oPBS || code == oEB || code == oCC || code == oRes || code == oShr || code == oCN || code == oCR;
                            if (strong && !movefault) { note(cStrict); PBT_CHECK(now == m, "a failed %s changed the vector", names[code]); }
                            if (code != oCA) PBT_REQUIRE(onow == om);
                            y.push_back(TK(7)); PBT_EQ(y.size(), now.size() + 1); PBT_EQ(y.back().get(), 7);
                        }
                    }
                    PBT_EQ(TK::live, k1); PBT_EQ(blocks().size(), b0);
                    if (!hit) break;
                }
                apply(x, other, o); m = contents(x); om = contents(other);
            }
        }
        PBT_EQ(TK::live, l0);
        ctx.nontrivial = fired >= 10;
    }
};
void pbt_run(const Case& c, Ctx& ctx) { H<CFG>::run(c, ctx); }
