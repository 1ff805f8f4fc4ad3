// C08 (hash containers): a fault is injected at every user-code call an operation makes.
// Each operation of a generated history is first tried on a copy of the container once per fault
// point (0, 1, 2, ... until it completes), then once on the container itself with a random fault point
// (so that tombstones and old layouts take part), then for real.
#include "types.hpp"
#include <mutex>
#include <gtl/phmap.hpp>
using namespace pbt;
#ifndef CFG
    #define CFG 0
#endif
struct ChkMutex { // fails on recursive locking and on unlocking what is not locked; counts what is held
    static inline long held = 0;
    bool               on   = false;
    void lock() { if (on) fail("an internal lock is taken twice (a lock was not released)"); on = true; ++held; }
    bool try_lock() { if (on) return false; on = true; ++held; return true; }
    void unlock() { if (!on) fail("an internal lock that is not held is released"); on = false; --held; }
};
using HS = StatefulHash<TK>;
using EQ = StatefulEq<TK>;
using PA = TrackAlloc<std::pair<const TK, TV>>;
using KA = TrackAlloc<TK>;
template<class C_, bool Map_, bool Par_, bool Node_> struct Cfg { using C = C_; static constexpr bool map = Map_, par = Par_, node = Node_; };
#if CFG == 0
using G = Cfg<gtl::flat_hash_map<TK, TV, HS, EQ, PA>, true, false, false>;
#elif CFG == 1
using G = Cfg<gtl::node_hash_map<TK, TV, HS, EQ, PA>, true, false, true>;
#elif CFG == 2
using G = Cfg<gtl::flat_hash_set<TK, HS, EQ, KA>, false, false, false>;
#elif CFG == 3
using G = Cfg<gtl::node_hash_set<TK, HS, EQ, KA>, false, false, true>;
#elif CFG == 4
using G = Cfg<gtl::parallel_flat_hash_map<TK, TV, HS, EQ, PA, 1, ChkMutex>, true, true, false>;
#elif CFG == 5
using G = Cfg<gtl::parallel_node_hash_map<TK, TV, HS, EQ, PA, 1, ChkMutex>, true, true, true>;
#elif CFG == 6
using G = Cfg<gtl::parallel_flat_hash_set<TK, HS, EQ, KA, 2, ChkMutex>, false, true, false>;
#endif
enum { cFaults, cDirect, cOps, cStrict };
static const char* counters[] = { "faults_injected_on_copies", "faults_injected_directly", "operations", "exact_state_checks", nullptr };
static const char* names[] = { "insert_copy", "insert_move", "emplace", "try_emplace", "insert_or_assign", "subscript", "insert_range", "insert_ilist", "erase_key", "lookup", "rehash", "reserve", "copy_ctor", "copy_assign",
    "merge", "lazy_emplace", "extract_insert", "erase_if", "if_contains", "modify_if", "erase_if_key", "try_emplace_l", "lazy_emplace_l", "for_each", "ctor_range", "equality", "erase_plain", "clear" };
enum { oIC, oIM, oE, oTE, oIA, oSub, oIR, oIL, oEr, oLk, oRh, oRs, oCC, oCA, oMg, oLz, oXI, oEIf, oIfC, oMod, oEIfK, oTEL, oLEL, oFE, oCR, oEq, oErP, oClr, oN };
const char* const* pbt_op_names = names;
int pbt_num_ops = oN;
const char* const* pbt_counter_names = counters;
const char* pbt_rule = "A case is a generated history of 1-40 operations; for every operation a fault is injected at each fault point in turn (element copy/default/value construction, assignment, allocation, callback, and hash/equality "
                       "where no rehash can be involved), on a copy of the container, and at one random point on the container itself; non-trivial: at least 10 injected faults fired";
void pbt_gen(Rng& r, Case& c) {
    c.cfg = { r.below(8), r.range(2, 60) };
    u32 len = r.range(1, 40);
    std::vector<u32> pool;
    for (u32 i = 0; i < oN; ++i) if (r.chance(1, 2)) pool.push_back(i);
    for (u32 b : { oIC, oE, oErP }) if (r.chance(2, 3)) { pool.push_back(b); pool.push_back(b); }
    if (pool.empty()) pool.push_back(oIC);
    for (u32 i = 0; i < len; ++i) c.ops.push_back(Op{ pool[r.below(pool.size())], r.u() >> 4, r.skewed(7), r.skewed(6), r.u() >> 16 });
}
template<class G>
struct H {
    using C = typename G::C;
    using M = std::map<int, int>;
    static constexpr u32 kBasic = kCopy | kDefault | kValueCtor | kAlloc | kAssign | kCb;
    template<class E> static int kk(const E& e) { if constexpr (G::map) return e.first.get(); else return e.get(); }
    template<class E> static int vv(const E& e) { if constexpr (G::map) return e.second.get(); else return 0; }
    static M contents(const C& x) {
        M m; size_t n = 0;
        for (const auto& e : x) { PBT_CHECK(m.emplace(kk(e), vv(e)).second, "key %d is present twice", kk(e)); ++n; }
        PBT_CHECK(x.size() == n, "size() is %zu but iteration visits %zu elements", (size_t)x.size(), n);
        for (auto& [k, v] : m) { auto it = x.find(TK(k)); PBT_CHECK(it != x.end(), "key %d is visited by iteration but not found", k); PBT_EQ(kk(*it), k); }
        PBT_EQ((int)ChkMutex::held, 0);
        return m;
    }
    static typename C::value_type val(int k, int v) { if constexpr (G::map) return typename C::value_type(TK(k), TV(v)); else return TK(k); }
    struct Args { u32 code; int k, v; std::vector<std::pair<int, int>> many; u32 num; };
    // performs the operation; `other` is a second container (for merge/assign). Returns the model's new contents.
    // out_new collects the elements which a fault may legitimately leave behind
    static void apply(C& x, C& other, const Args& a) {
        TK k(0); TV v(0);
        { long cd = g_faults.countdown; g_faults.countdown = -1; k = TK(a.k); v = TV(a.v); g_faults.countdown = cd; }
        switch (a.code) {
            case oIC: { const auto e = quiet([&] { return new typename C::value_type(val(a.k, a.v)); }); std::unique_ptr<typename C::value_type> g(e); x.insert(*static_cast<const typename C::value_type*>(e)); break; }
            case oIM: { auto e = quiet([&] { return new typename C::value_type(val(a.k, a.v)); }); std::unique_ptr<typename C::value_type> g(e); x.insert(std::move(*e)); break; }
            case oE: if constexpr (G::map) x.emplace(k, v); else x.emplace(k); break;
            case oTE: if constexpr (G::map) x.try_emplace(k, a.v); else x.emplace(a.k); break;
            case oIA: if constexpr (G::map) x.insert_or_assign(k, v); else x.insert(k); break;
            case oSub: if constexpr (G::map) x[k]; else x.insert(k); break;
            case oIR: { auto* es = quiet([&] { auto* r = new std::vector<typename C::value_type>(); for (auto& [kk, v2] : a.many) r->push_back(val(kk, v2)); return r; }); std::unique_ptr<std::vector<typename C::value_type>> g(es); x.insert(es->begin(), es->end()); break; }
            case oIL: { auto* e = quiet([&] { return new std::initializer_list<typename C::value_type>(); }); delete e; if constexpr (G::map) x.insert({ { k, v }, { TK(a.k + 1), TV(a.v) } }); else x.insert({ k, TK(a.k + 1) }); break; }
            case oEr: case oErP: x.erase(k); break;
            case oLk: { bool c = x.contains(k); PBT_EQ(c, x.count(k) == 1); if (c) PBT_REQUIRE(x.find(k) != x.end()); if constexpr (G::map) if (c) (void)x.at(k).get(); break; }
            case oRh: x.rehash(a.num); break;
            case oRs: x.reserve(a.num); break;
            case oCC: { C y(x); break; }
            case oCA: other = x; break;
            case oMg: if constexpr (!G::par) x.merge(other); else for (auto& e : other) x.insert(e); break;
            case oLz: if constexpr (!G::par) { x.lazy_emplace(k, [&](const typename C::constructor& ctor) { fault_point(kCb); if constexpr (G::map) ctor(k, v); else ctor(k); }); } else x.insert(val(a.k, a.v)); break;
            case oXI: { auto n = x.extract(k); if (!n.empty()) { try { x.insert(std::move(n)); } catch (const Injected&) { PBT_CHECK(!n.empty(), "the node handle lost its element in a failed insertion"); throw; } } break; }
            case oEIf: if constexpr (!G::par) { erase_if(x, [&](const auto& e) { fault_point(kCb); return kk(e) % 3 == a.k % 3; }); } else x.erase(k); break;
            case oIfC: if constexpr (G::par) x.if_contains(k, [&](const auto& e) { fault_point(kCb); (void)kk(e); }); break;
            case oMod: if constexpr (G::par && G::map) x.modify_if(k, [&](auto& e) { fault_point(kCb); e.second = v; }); break;
            case oEIfK: if constexpr (G::par) x.erase_if(k, [&](auto& e) { fault_point(kCb); (void)kk(e); return a.v % 2 == 0; }); break;
            case oTEL: if constexpr (G::par && G::map) x.try_emplace_l(k, [&](auto& e) { fault_point(kCb); e.second = v; }, v); break;
            case oLEL: if constexpr (G::par) x.lazy_emplace_l(k, [&](auto& e) { fault_point(kCb); (void)kk(e); }, [&](const typename C::constructor& ctor) { fault_point(kCb); if constexpr (G::map) ctor(k, v); else ctor(k); }); break;
            case oFE: if constexpr (G::par) { if constexpr (G::map) x.for_each_m([&](auto& e) { fault_point(kCb); (void)kk(e); }); x.for_each([&](const auto& e) { fault_point(kCb); (void)kk(e); }); } break;
            case oCR: { C y(x.begin(), x.end()); PBT_EQ(y.size(), x.size()); break; }
            case oEq: { bool e = x == other; (void)e; break; }
            case oClr: x.clear(); break;
        }
    }
    template<class F> static auto quiet(F f) { long cd = g_faults.countdown; g_faults.countdown = -1; auto r = f(); g_faults.countdown = cd; return r; }
    static u32 mask_of(u32 code, bool roomy) {
        switch (code) {
            case oLk: case oIfC: case oMod: case oEIfK: case oEr: case oFE: return ~0u;
            case oIC: case oIM: case oE: case oTE: case oIA: case oLz: case oTEL: case oLEL: return roomy ? ~0u : kBasic;
            case oEIf: return ~0u; // only a callback and element reads
            default: return kBasic;
        }
    }
    static bool single(u32 code) { return !(code == oIR || code == oIL || code == oCA || code == oMg || code == oXI || code == oEIf || code == oClr || code == oIM); }
    // after a fault: every element is one of the old ones or one the operation was adding
    static void check(const C& x, const C& other, const M& m, const M& om, const Args& a) {
        M now = contents(x), onow = contents(other);
        if (a.code == oMg && !G::par) {
            for (auto& [k, v] : m) { auto it = now.find(k); PBT_CHECK(it != now.end() && it->second == v, "key %d lost or changed by a failed merge", k); }
            for (auto& [k, v] : om) { int n = (onow.count(k) && onow[k] == v) + (!m.count(k) && now.count(k) && now[k] == v); PBT_CHECK(n == 1, "element %d of the source of a failed merge is in %d places", k, n); }
            PBT_EQ(now.size() + onow.size(), m.size() + om.size());
            return;
        }
        if (a.code != oCA) PBT_REQUIRE(onow == om);
        else for (auto& [k, v] : onow) PBT_CHECK((om.count(k) && om.at(k) == v) || (m.count(k) && m.at(k) == v), "copy assignment left foreign element %d", k);
        if (single(a.code) || a.code == oCA) { note(cStrict); PBT_CHECK(now == m, "operation %s failed with an exception but changed the container (%zu elements, before %zu)", names[a.code], now.size(), m.size()); return; }
        if (a.code == oEIf) { for (auto& [k, v] : now) PBT_REQUIRE(m.count(k) && m.at(k) == v); for (auto& [k, v] : m) PBT_CHECK(now.count(k) || ((k % 3) == (a.k % 3)), "erase_if removed %d which does not match", k); return; }
        if (a.code == oXI) { M e = m; e.erase(a.k); PBT_REQUIRE(now == m || now == e); return; }
        if (a.code == oClr) return;
        for (auto& [k, v] : m) { auto it = now.find(k); PBT_CHECK(it != now.end() && it->second == v, "element %d was lost or changed by a failed insertion", k); }
        for (auto& [k, v] : now) {
            if (m.count(k)) continue;
            bool ok = false;
            if (a.code == oIR) { for (auto& [k2, v2] : a.many) if (k2 == k) { ok = (!G::map || v2 == v); break; } }
            else if (a.code == oIL) ok = (k == a.k || k == a.k + 1) && (!G::map || v == a.v);
            else if (a.code == oMg) ok = om.count(k);
            else if (a.code == oIM) ok = false;
            PBT_CHECK(ok, "a failed insertion left element %d (value %d) behind", k, v);
        }
    }
    static void usable(C& x) { // the container still works
        size_t n = x.size();
        for (int q = 0; q < 3; ++q) { auto r = x.insert(val(5000 + q, q)); PBT_REQUIRE(r.second); }
        PBT_EQ(x.size(), n + 3);
        for (int q = 0; q < 3; ++q) { PBT_REQUIRE(x.contains(TK(5000 + q))); PBT_EQ(x.erase(TK(5000 + q)), 1u); }
        PBT_EQ(x.size(), n);
    }
    static void run(const Case& c, Ctx& ctx) {
        long l1 = TK::live, l2 = TV::live, fired = 0;
        {
            u32 hk = c.c(0), space = std::max(2u, c.c(1));
            C x(0, HS(hk)), other(0, HS(hk));
            M m, om;
            for (size_t i = 0; i < c.ops.size(); ++i) {
                ctx.opno = (int)i; const Op& o = c.ops[i];
                Args a; a.code = o.code % oN; a.k = o.a % space; a.v = o.b; a.num = o.c * 3;
                for (u32 q = 0; q < o.b % 9; ++q) a.many.push_back({ (int)((o.a >> 3) + q * (1 + o.c % 5)) % (int)(space + 8), (int)(q + 1) });
                bool roomy = o.d & 1;
                note(cOps);
                // 1. every fault point, on copies
                for (long n = 0; n < 48; ++n) {
                    long k1 = TK::live, k2 = TV::live; size_t b0 = blocks().size();
                    bool hit = false;
                    {
                        C y(x), z(other);
                        if (roomy) y.reserve(y.size() + 16);
                        {
                            FaultGuard fg(n, mask_of(a.code, roomy && !G::par));
                            try { apply(y, z, a); } catch (const Injected&) { hit = true; }
                            if (!hit && g_faults.fired) fail("the exception thrown by user code did not reach the caller");
                        }
                        if (hit) { ++fired; note(cFaults); check(y, z, m, om, a); usable(y); }
                    }
                    PBT_EQ(TK::live, k1); PBT_EQ(TV::live, k2); PBT_EQ(blocks().size(), b0);
                    if (!hit) break;
                }
                // 2. one fault point, in place
                if (o.d & 2) {
                    bool hit = false;
                    { FaultGuard fg((o.d >> 3) % 12, mask_of(a.code, false)); try { apply(x, other, a); } catch (const Injected&) { hit = true; } }
                    if (hit) { ++fired; note(cDirect); check(x, other, m, om, a); }
                    m = contents(x); om = contents(other);
                    usable(x);
                }
                // 3. without a fault
                apply(x, other, a);
                m = contents(x); om = contents(other);
            }
        }
        PBT_EQ(TK::live, l1); PBT_EQ(TV::live, l2);
        PBT_CHECK(blocks().empty(), "%zu blocks never returned to the allocator", blocks().size());
        ctx.nontrivial = fired >= 10;
    }
};
void pbt_run(const Case& c, Ctx& ctx) { H<G>::run(c, ctx); }
