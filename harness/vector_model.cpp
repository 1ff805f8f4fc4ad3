// C12: gtl::vector against std::vector<int> over generated histories.
#include "types.hpp"
#include <gtl/vector.hpp>
#include <iterator>
#include <list>
#include <sstream>
using namespace pbt;
#ifndef CFG
    #define CFG 0
#endif
struct Pod { // trivially copyable class of 28 bytes, all-zero represents 0
    int a[7];
    friend bool operator==(const Pod& x, const Pod& y) { return !memcmp(x.a, y.a, sizeof x.a); }
    friend bool operator<(const Pod& x, const Pod& y) { return x.a[0] < y.a[0]; }
};
template<> struct pbt::Conv<Pod> {
    static Pod mk(int i) { Pod p; for (int k = 0; k < 7; ++k) p.a[k] = i * (k + 1); return p; }
    static int un(const Pod& p) { for (int k = 0; k < 7; ++k) if (p.a[k] != p.a[0] * (k + 1)) fail("torn element"); return p.a[0]; }
};
struct Str { // std::string payload, default constructed = 0
    std::string s;
    Str() : s("0") {}
    Str(int i) : s(Conv<std::string>::mk(i)) {}
    friend bool operator==(const Str& x, const Str& y) { return x.s == y.s; }
    friend bool operator<(const Str& x, const Str& y) { return Conv<std::string>::un(x.s) < Conv<std::string>::un(y.s); }
};
template<> struct pbt::Conv<Str> { static Str mk(int i) { return Str(i); } static int un(const Str& s) { return s.s.empty() ? -9 : Conv<std::string>::un(s.s); } };
struct TrivNoDef { // trivially copyable, non-trivial default constructor
    long long x;
    TrivNoDef() : x(0) {}
    TrivNoDef(int i) : x(i) {}
    friend bool operator==(const TrivNoDef& a, const TrivNoDef& b) { return a.x == b.x; }
    friend bool operator<(const TrivNoDef& a, const TrivNoDef& b) { return a.x < b.x; }
};
template<> struct pbt::Conv<TrivNoDef> { static TrivNoDef mk(int i) { return TrivNoDef(i); } static int un(const TrivNoDef& s) { return (int)s.x; } };

template<class E_, class V_> struct Cfg { using E = E_; using V = V_; };
#if CFG == 0
using G = Cfg<TK, gtl::vector<TK>>;
#elif CFG == 1
using G = Cfg<int, gtl::vector<int>>;
#elif CFG == 2
using G = Cfg<Pod, gtl::vector<Pod>>;
#elif CFG == 3
using G = Cfg<Str, gtl::vector<Str>>;
#elif CFG == 4
using G = Cfg<unsigned char, gtl::vector<unsigned char>>;
#elif CFG == 5
using G = Cfg<TK, gtl::vector<TK, TrackAlloc<TK>>>;
#elif CFG == 6
using G = Cfg<TrivNoDef, gtl::vector<TrivNoDef>>;
#elif CFG == 7
using G = Cfg<Pod, gtl::vector<Pod, TrackAlloc<Pod, true, true, true>>>;
#elif CFG == 8
using G = Cfg<double, gtl::vector<double>>;
#endif
static constexpr int kMaxVal = CFG == 4 ? 250 : 100000;

enum { cRealloc, cInsMid, cAlias, cEraseMid, cInputIt, cFull };
static const char* counters[] = { "reallocations", "mid_insertions", "aliasing_arguments", "mid_erases", "input_iterator_ranges", "full_comparisons", nullptr };
static const char* names[] = { "push_back", "push_back_move", "push_back_self", "emplace_back", "emplace_back_self", "pop_back", "insert_copy", "insert_move",
    "insert_self", "insert_n", "insert_n_self", "insert_range", "insert_list_range", "insert_input", "insert_ilist", "emplace", "emplace_self", "erase", "erase_range",
    "resize", "resize_val", "resize_self", "reserve", "shrink_to_fit", "clear", "assign_n", "assign_self", "assign_range", "assign_input", "assign_ilist",
    "copy_ctor", "copy_assign", "move_ctor", "move_assign", "self_assign", "swap", "compare", "at", "ctor_n", "ctor_range", "ctor_input", "reserve_exact_fill",
    "erase_value", "erase_if", "compact_resize", "relinquish_attach", "insert_self_move", "front_back", "steal_data" };
enum { oPB, oPBM, oPBS, oEB, oEBS, oPop, oIC, oIM, oIS, oIN, oINS, oIR, oIL, oII, oIIl, oE, oES, oEr, oErR, oRs, oRsV, oRsS, oRes, oShr, oClr, oAN, oAS, oAR, oAI, oAIl,
       oCC, oCA, oMC, oMA, oSA, oSw, oCmp, oAt, oCN, oCR, oCI, oFill, oEV, oEIf, oCpt, oRel, oISM, oFB, oStl, oN };
const char* const* pbt_op_names = names;
int pbt_num_ops = oN;
const char* const* pbt_counter_names = counters;
const char* pbt_rule = "A case is a generated history of 1-200 operations over three vectors of one element type checked against std::vector after every "
                       "operation; non-trivial: at least one reallocation, one insertion and one erasure away from the end";
void pbt_gen(Rng& r, Case& c) {
    c.cfg = { r.below(4) };
    u32 len = r.chance(1, 3) ? r.range(1, 15) : r.chance(2, 3) ? r.range(16, 60) : r.range(61, 200);
    std::vector<u32> pool;
    for (u32 i = 0; i < oN; ++i) if (r.chance(1, 2)) pool.push_back(i);
    u32 basics[] = { oPB, oIC, oEr, oIR, oEB };
    for (u32 b : basics) if (r.chance(2, 3)) pool.push_back(b);
    if (pool.empty()) pool.push_back(oPB);
    bool big = r.chance(1, 20);
    for (u32 i = 0; i < len; ++i) c.ops.push_back(Op{ pool[r.below(pool.size())], r.u() >> 2, r.skewed(10), r.skewed(big ? 11 : 5), r.below(64) });
}

template<class G>
struct H {
    using E = typename G::E;
    using V = typename G::V;
    using M = std::vector<int>;
    static E mk(int i) { return Conv<E>::mk(i); }
    static int un(const E& e) { return Conv<E>::un(e); }
    struct World {
        V v[3];
        M m[3];
        bool re = false, ins = false, er = false;
        void full(int i) {
            note(cFull);
            V& x = v[i]; const V& cx = x; M& mm = m[i];
            PBT_EQ(x.size(), mm.size()); PBT_EQ(x.empty(), mm.empty());
            PBT_REQUIRE(x.capacity() >= x.size());
            PBT_EQ((size_t)(cx.end() - cx.begin()), mm.size());
            for (size_t q = 0; q < mm.size(); ++q)
                PBT_CHECK(un(cx[q]) == mm[q], "element %zu of %zu is %d, expected %d", q, mm.size(), un(cx[q]), mm[q]);
            size_t q = mm.size();
            for (auto it = cx.rbegin(); it != cx.rend(); ++it) { PBT_REQUIRE(q > 0); --q; PBT_EQ(un(*it), mm[q]); }
            if (!mm.empty()) { PBT_REQUIRE(x.data() == &x[0]); PBT_REQUIRE(&x.front() == x.data()); PBT_REQUIRE(&x.back() == x.data() + mm.size() - 1); }
        }
    };
    struct InIt { // single-pass
        using iterator_category = std::input_iterator_tag; using value_type = E; using difference_type = long; using pointer = const E*; using reference = E;
        const M* src; size_t pos;
        E operator*() const { return mk((*src)[pos]); }
        InIt& operator++() { ++pos; return *this; }
        void operator++(int) { ++pos; }
        friend bool operator==(const InIt& a, const InIt& b) { return a.pos == b.pos; }
        friend bool operator!=(const InIt& a, const InIt& b) { return a.pos != b.pos; }
    };
    struct InRef { // single-pass, and the elements it yields are lvalues of somebody else
        using iterator_category = std::input_iterator_tag; using value_type = E; using difference_type = long; using pointer = E*; using reference = E&;
        std::vector<E>* src; size_t pos;
        E& operator*() const { return (*src)[pos]; }
        InRef& operator++() { ++pos; return *this; }
        void operator++(int) { ++pos; }
        friend bool operator==(const InRef& a, const InRef& b) { return a.pos == b.pos; }
        friend bool operator!=(const InRef& a, const InRef& b) { return a.pos != b.pos; }
    };
    static void one(World& w, const Op& o, int& ctr) {
        int i = o.d % 3, j = (o.d / 3) % 3;
        V& x = w.v[i]; M& m = w.m[i];
        auto val = [&]() { ctr = (ctr + 1) % kMaxVal; return ctr; };
        size_t sz = m.size();
        size_t p = o.b % 4 == 0 ? sz : o.b % 4 == 1 ? 0 : o.a % (sz + 1);
        size_t s = sz ? o.c % sz : 0;
        auto* data0 = x.data(); size_t cap0 = x.capacity();
        bool keep = false; // an operation that must not reallocate when the result fits
        auto src = [&](size_t n) { M r; for (size_t q = 0; q < n; ++q) r.push_back(val()); return r; };
        auto vsrc = [&](const M& a) { std::vector<E> r; for (int q : a) r.push_back(mk(q)); return r; };
        auto same = [&](auto& r, const M& a) { size_t q = 0; for (auto& e : r) { PBT_CHECK(un(e) == a[q], "copying a range changed its source: element %zu was %d, is %d", q, a[q], un(e)); ++q; } };
        auto pos = [&](auto it) { PBT_CHECK((size_t)(it - x.begin()) == p, "insertion at %zu returned position %zd", p, (ssize_t)(it - x.begin())); if (p < sz) { w.ins = true; note(cInsMid); } };
        switch (o.code % oN) {
            case oPB: { int a = val(); E e = mk(a); x.push_back(e); m.push_back(a); PBT_EQ(un(e), a); keep = true; break; }
            case oPBM: { int a = val(); x.push_back(mk(a)); m.push_back(a); keep = true; break; }
            case oPBS: if (sz) { x.push_back(x[s]); m.push_back(m[s]); note(cAlias); keep = true; } break;
            case oEB: { int a = val(); auto& r = x.emplace_back(mk(a)); m.push_back(a); PBT_REQUIRE(&r == &x.back()); keep = true; break; }
            case oEBS: if (sz) { auto& r = x.emplace_back(x[s]); m.push_back(m[s]); PBT_REQUIRE(&r == &x.back()); note(cAlias); keep = true; } break;
            case oPop: if (sz) { x.pop_back(); m.pop_back(); keep = true; } break;
            case oIC: { int a = val(); E e = mk(a); pos(x.insert(x.begin() + p, e)); m.insert(m.begin() + p, a); PBT_EQ(un(e), a); keep = true; break; }
            case oIM: { int a = val(); pos(x.insert(x.begin() + p, mk(a))); m.insert(m.begin() + p, a); keep = true; break; }
            case oIS: if (sz) { int a = m[s]; pos(x.insert(x.begin() + p, x[s])); m.insert(m.begin() + p, a); note(cAlias); keep = true; } break;
            case oIN: { int a = val(); size_t n = o.c % 40; pos(x.insert(x.begin() + p, n, mk(a))); m.insert(m.begin() + p, n, a); keep = true; break; }
            case oINS: if (sz) { int a = m[s]; size_t n = o.c % 20; pos(x.insert(x.begin() + p, n, x[s])); m.insert(m.begin() + p, n, a); note(cAlias); keep = true; } break;
            case oIR: { M a = src(o.c); auto e = vsrc(a); pos(x.insert(x.begin() + p, e.begin(), e.end())); same(e, a); m.insert(m.begin() + p, a.begin(), a.end()); keep = true; break; }
            case oIL: { M a = src(o.c); auto e = vsrc(a); std::list<E> l(e.begin(), e.end()); pos(x.insert(x.begin() + p, l.begin(), l.end())); same(l, a); m.insert(m.begin() + p, a.begin(), a.end()); keep = true; break; }
            case oII: { M a = src(o.c); if (o.b & 16) { auto e = vsrc(a); pos(x.insert(x.begin() + p, InRef{ &e, 0 }, InRef{ &e, e.size() })); same(e, a); } else pos(x.insert(x.begin() + p, InIt{ &a, 0 }, InIt{ &a, a.size() })); m.insert(m.begin() + p, a.begin(), a.end()); note(cInputIt); break; }
            case oIIl: { int a = val(), b = val(), d = val(); pos(x.insert(x.begin() + p, { mk(a), mk(b), mk(d) })); int t[] = { a, b, d }; m.insert(m.begin() + p, t, t + 3); keep = true; break; }
            case oE: { int a = val(); pos(x.emplace(x.begin() + p, mk(a))); m.insert(m.begin() + p, a); keep = true; break; }
            case oES: if (sz) { int a = m[s]; pos(x.emplace(x.begin() + p, x[s])); m.insert(m.begin() + p, a); note(cAlias); keep = true; } break;
            case oEr: if (sz) { size_t q = o.a % sz; auto r = x.erase(x.begin() + q); m.erase(m.begin() + q); PBT_EQ((size_t)(r - x.begin()), q); if (q + 1 < sz) { w.er = true; note(cEraseMid); } keep = true; } break;
            case oErR: { size_t a = o.a % (sz + 1), b = a + o.b % (sz - a + 1); auto r = x.erase(x.begin() + a, x.begin() + b); m.erase(m.begin() + a, m.begin() + b); PBT_EQ((size_t)(r - x.begin()), a); if (b > a && b < sz) { w.er = true; note(cEraseMid); } keep = true; break; }
            case oRs: { size_t n = o.b % 100; x.resize(n); m.resize(n); keep = true; break; }
            case oRsV: { size_t n = o.b % 100; int a = val(); x.resize(n, mk(a)); m.resize(n, a); keep = true; break; }
            case oRsS: if (sz) { size_t n = sz + o.b % 20; int a = m[s]; x.resize(n, x[s]); m.resize(n, a); note(cAlias); keep = true; } break;
            case oRes: { size_t n = o.b % 300; x.reserve(n); PBT_CHECK(x.capacity() >= n, "reserve(%zu) left capacity %zu", n, x.capacity()); PBT_REQUIRE(x.capacity() >= cap0); if (n <= cap0) PBT_REQUIRE(x.data() == data0); break; }
            case oShr: { x.shrink_to_fit(); PBT_REQUIRE(x.capacity() >= x.size() && x.capacity() <= cap0); break; }
            case oClr: x.clear(); m.clear(); PBT_EQ(x.capacity(), cap0); keep = true; break;
            case oAN: { int a = val(); size_t n = o.b % 60; x.assign(n, mk(a)); m.assign(n, a); break; }
            case oAS: if (sz) { int a = m[s]; size_t n = o.b % 60; x.assign(n, x[s]); m.assign(n, a); note(cAlias); } break;
            case oAR: { M a = src(o.c); auto e = vsrc(a); if (o.b & 1) x.assign(e.begin(), e.end()), same(e, a); else { std::list<E> l(e.begin(), e.end()); x.assign(l.begin(), l.end()); same(l, a); } m = a; break; }
            case oAI: { M a = src(o.c); if (o.b & 16) { auto e = vsrc(a); x.assign(InRef{ &e, 0 }, InRef{ &e, e.size() }); same(e, a); } else x.assign(InIt{ &a, 0 }, InIt{ &a, a.size() }); m = a; note(cInputIt); break; }
            case oAIl: { int a = val(), b = val(); if (o.b & 1) x.assign({ mk(a), mk(b) }); else x = { mk(a), mk(b) }; m = { a, b }; break; }
            case oCC: { V t(x); PBT_REQUIRE(t == x); w.full(i); if (i != j) { w.v[j] = std::move(t); w.m[j] = m; w.full(j); } break; }
            case oCA: w.v[j] = x; w.m[j] = m; w.full(j); break;
            case oMC: { V t(std::move(x)); M mm = m; PBT_EQ(t.size(), mm.size()); if (sz) PBT_REQUIRE(t.data() == data0); x = V(); m.clear(); w.v[j] = std::move(t); w.m[j] = mm; w.full(i); w.full(j); break; }
            case oMA: if (i != j) { w.v[j] = std::move(x); w.m[j] = m; x = V(); m.clear(); w.full(j); } break;
            case oSA: { V& al = x; x = al; break; }
            case oSw: { auto* dj = w.v[j].data(); if (o.b & 1) x.swap(w.v[j]); else { using std::swap; swap(x, w.v[j]); } std::swap(m, w.m[j]); if (i != j) { PBT_REQUIRE(w.v[j].data() == data0 && x.data() == dj); w.full(j); } break; }
            case oCmp: {
                auto& y = w.v[j]; auto& my = w.m[j];
                PBT_EQ((x == y), (m == my)); PBT_EQ((x != y), (m != my)); PBT_EQ((x < y), (m < my)); PBT_EQ((x > y), (m > my)); PBT_EQ((x <= y), (m <= my)); PBT_EQ((x >= y), (m >= my));
                V t(x);
                if (sz) { t[s] = mk(m[s] + 1); PBT_CHECK(!(t == x), "vectors differing in element %zu compare equal", s); }
                break;
            }
            case oAt: {
                size_t n = o.b % (2 * sz + 2); bool threw = false; const V& cx = x;
                try { PBT_EQ(un(o.c & 1 ? x.at(n) : cx.at(n)), n < sz ? m[n] : -1); PBT_REQUIRE(n < sz); } catch (const std::out_of_range&) { threw = true; }
                PBT_EQ(threw, n >= sz);
                break;
            }
            case oCN: { size_t n = o.b % 50; if (o.c & 1) { x = V(n); m.assign(n, 0); } else { int a = val(); x = V(n, mk(a)); m.assign(n, a); } break; }
            case oCR: { M a = src(o.c); auto e = vsrc(a); x = V(e.begin(), e.end()); same(e, a); m = a; break; }
            case oCI: { M a = src(o.c); if (o.b & 16) { auto e = vsrc(a); x = V(InRef{ &e, 0 }, InRef{ &e, e.size() }); same(e, a); } else x = V(InIt{ &a, 0 }, InIt{ &a, a.size() }); m = a; note(cInputIt); break; }
            case oFill: { // after reserve(n), growing to n elements never moves them
                size_t n = sz + o.b % 60; x.reserve(n); auto* d = x.data();
                while (m.size() < n) { int a = val(); if (m.size() % 3 == 0) x.insert(x.begin() + m.size() / 2, mk(a)), m.insert(m.begin() + m.size() / 2, a); else x.push_back(mk(a)), m.push_back(a); PBT_CHECK(n == 0 || x.data() == d, "reallocation although reserve(%zu) was called", n); }
                break;
            }
            case oEV: if (sz) { int a = m[s]; gtl::erase(x, mk(a)); std::erase(m, a); } break;
            case oEIf: { int md = 2 + o.b % 4; gtl::erase_if(x, [&](const E& e) { return un(e) % md == 0; }); std::erase_if(m, [&](int e) { return e % md == 0; }); break; }
            case oCpt: { size_t n = o.b % 60; gtl::compactResize(&x, n); m.resize(n); break; }
            case oRel: { size_t s0 = x.size(), c0 = x.capacity(); E* d = gtl::relinquish(x); PBT_EQ(x.size(), (size_t)0); PBT_EQ(x.capacity(), (size_t)0); gtl::attach(x, d, s0, c0); PBT_EQ(x.capacity(), c0); break; }
            case oStl: { // the storage leaves the vector and comes back in another one
                size_t s0 = x.size(), c0 = x.capacity();
                E*     d0 = x.data();
                auto   p0 = x.steal_data();
                PBT_REQUIRE(p0.get() == d0);
                PBT_EQ(x.size(), (size_t)0); PBT_EQ(x.capacity(), (size_t)0);
                V y(std::move(p0), s0, c0, x.get_allocator());
                PBT_EQ(y.size(), s0); PBT_EQ(y.capacity(), c0); PBT_REQUIRE(y.data() == d0);
                x.swap(y);
                break;
            }
            case oISM: if (sz) { int a = m[s]; bool last = false; (void)last; E t = x[s]; pos(x.insert(x.begin() + p, std::move(t))); m.insert(m.begin() + p, a); keep = true; } break;
            case oFB: if (sz) { const V& cx = x; PBT_EQ(un(cx.front()), m.front()); PBT_EQ(un(cx.back()), m.back()); int a = val(); x.front() = mk(a); m.front() = a; a = val(); x.back() = mk(a); m.back() = a; } break;
        }
        if (x.data() != data0 || x.capacity() != cap0) { w.re = true; note(cRealloc); }
        if (keep && m.size() <= cap0 && sz <= cap0 && cap0 > 0)
            PBT_CHECK(x.data() == data0 && x.capacity() == cap0, "reallocated although the result of %zu elements fits the capacity of %zu", m.size(), cap0);
    }
};

void pbt_run(const Case& cs, Ctx& ctx) {
    long lk = TK::live;
    {
        using HT = H<G>;
        typename HT::World w;
        int ctr = 0;
        for (size_t q = 0; q < cs.ops.size(); ++q) {
            ctx.opno = (int)q;
            HT::one(w, cs.ops[q], ctr);
            w.full(cs.ops[q].d % 3);
        }
        for (int q = 0; q < 3; ++q) w.full(q);
        ctx.nontrivial = w.re && w.ins && w.er;
    }
    PBT_EQ(TK::live, lk);
    PBT_CHECK(blocks().empty(), "%zu allocator blocks never released", blocks().size());
}
