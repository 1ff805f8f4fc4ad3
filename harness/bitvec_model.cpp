// C13/C14: gtl::bit_vector and gtl::bit_view against std::vector<bool> over generated histories.
// CFG 0: whole-vector operations. CFG 1: views (any first/last, aligned or not, overlapping or not).
#include "types.hpp"
#include <cstring>
#include <sstream>
#include <gtl/bit_vector.hpp>
using namespace pbt;
#ifndef CFG
    #define CFG 0
#endif
using BV = gtl::bit_vector;
using M  = std::vector<bool>;
enum { cOverlapFwd, cOverlapBwd, cUnaligned, cMultiSlot, cEmpty, cFound, cGrowOnes, cFull };
static const char* counters[] = { "overlap_dest_after", "overlap_dest_before", "unaligned_views", "multi_word_views", "empty_operands", "bits_found", "grow_with_ones", "full_comparisons", nullptr };
static const char* names[] = { "set_bit", "reset_bit", "flip_bit", "set_bit_val", "set_all", "reset_all", "flip_all", "resize", "resize_ones", "ctor", "ctor_ilist", "assign_ilist",
    "or", "and", "xor", "minus", "or_not", "binary_ops", "shl", "shr", "shift_ops", "predicates", "binary_predicates", "equality", "find", "strings", "copy", "swap", "randomize", "word_assign", "view_assign", "view_compound" };
enum { oSet, oReset, oFlip, oSetV, oSetAll, oResetAll, oFlipAll, oResize, oResize1, oCtor, oCtorIl, oAssignIl, oOr, oAnd, oXor, oMinus, oOrNot, oBin, oShl, oShr, oShOps, oPred, oBinPred, oEq, oFind, oStr, oCopy, oSwap, oRand, oWord, oAssign, oCompound, oN };
const char* const* pbt_op_names = names;
int pbt_num_ops = oN;
const char* const* pbt_counter_names = counters;
const char* pbt_rule = "A case is a generated history of 1-80 operations on three bit_vectors (sizes 0-400, concentrated around multiples of 64) and on views of them, every vector "
                       "compared bit by bit with std::vector<bool> after every operation; non-trivial: at least one operation ran on an operand spanning more than one 64-bit word with a "
                       "partial word at one end";
static u32 gen_size(Rng& r) {
    if (r.chance(1, 12)) return 0;
    if (r.chance(1, 2)) { int b = 64 * r.range(1, 5); return (u32)(b + (int)r.range(0, 6) - 3); }
    return r.below(401);
}
void pbt_gen(Rng& r, Case& c) {
    c.cfg = { gen_size(r), gen_size(r), r.chance(1, 2) ? 1u : 0u, r.u() };
    u32 len = r.chance(1, 3) ? r.range(1, 10) : r.range(11, 80);
    std::vector<u32> pool;
    for (u32 i = 0; i < oN; ++i) if (r.chance(1, 2)) pool.push_back(i);
    pool.push_back(oRand);
    for (u32 i = 0; i < len; ++i) {
        u32 code = pool[r.below(pool.size())];
        u32 c_ = code == oResize || code == oResize1 || code == oCtor ? gen_size(r) : r.u() >> 3;
        c.ops.push_back(Op{ code, r.u() >> 3, r.u() >> 3, c_, r.u() >> 8 });
    }
}
// a moved-from vector has some size and as many bits, and can be used
static void moved(BV& c, size_t other) {
    size_t n = c.size(), ones = 0;
    PBT_EQ(c.num_blocks(), (n + 63) / 64);
    for (size_t q = 0; q < n; ++q) ones += c[q];
    PBT_EQ(c.count(), ones); PBT_EQ(c.any(), ones > 0);
    BV z(n, true); c |= z; PBT_EQ(c.count(), n); BV d(c); PBT_REQUIRE(d == c);
    c.resize(other, true); PBT_EQ(c.count(), other); c.flip(); PBT_REQUIRE(c.none());
}
template<int C>
struct H {
    struct World {
        BV v[3];
        M  m[3];
        bool nt = false;
        void full(int i) {
            note(cFull);
            const BV& x = v[i]; const M& mm = m[i];
            PBT_EQ(x.size(), mm.size()); PBT_EQ(x.empty(), mm.empty());
            PBT_EQ(x.num_blocks(), (mm.size() + 63) / 64);
            for (size_t q = 0; q < mm.size(); ++q)
                PBT_CHECK(x[q] == mm[q], "bit %zu of %zu is %d, expected %d", q, mm.size(), (int)x[q], (int)mm[q]);
            for (size_t b = 0; b < x.num_blocks(); ++b) { // bits past the end never set: hashing, block(), to_ullong rely on it
                uint64_t w = 0;
                for (size_t q = b * 64; q < mm.size() && q < b * 64 + 64; ++q) if (mm[q]) w |= 1ull << (q & 63);
                PBT_CHECK(x.block(b) == w, "block %zu is %llx, expected %llx", b, (unsigned long long)x.block(b), (unsigned long long)w);
            }
        }
    };
    static M sub(const M& m, size_t f, size_t l) { return M(m.begin() + f, m.begin() + l); }
    static void put(M& m, size_t f, const M& s) { for (size_t q = 0; q < s.size(); ++q) m[f + q] = s[q]; }
    static size_t pick(u32 x, size_t n) { // a boundary in [0, n], half of the time next to a multiple of 64
        if (x & 1) { size_t k = ((x >> 1) % 7) * 64 + ((x >> 5) % 5); k = k >= 2 ? k - 2 : 0; return std::min(k, n); }
        return (x >> 1) % (n + 1);
    }
    static M shl(const M& a, size_t c) { M r(a.size(), false); for (size_t q = 0; q + c < a.size() && c <= a.size(); ++q) r[q] = a[q + c]; return r; }
    static M shr(const M& a, size_t c) { M r(a.size(), false); for (size_t q = c; q < a.size(); ++q) r[q] = a[q - c]; return r; }
    static M comb(const M& a, const M& b, u32 k) {
        M r(a.size());
        for (size_t q = 0; q < a.size(); ++q) {
            bool x = a[q], y = b[q];
            r[q] = k == 0 ? x || y : k == 1 ? x && y : k == 2 ? x != y : k == 3 ? x && !y : x || !y;
        }
        return r;
    }
    static std::string hex(const M& a) {
        if (a.empty()) return "<empty>";
        std::string s; size_t nb = (a.size() + 7) / 8;
        for (size_t n = 0; n < nb * 2; ++n) { int d = 0; for (int k = 0; k < 4; ++k) if (n * 4 + k < a.size() && a[n * 4 + k]) d |= 1 << k; s.insert(s.begin(), "0123456789abcdef"[d]); }
        return "0x" + s;
    }
    static size_t find(const M& a, size_t from) { for (size_t q = from; q < a.size(); ++q) if (a[q]) return q; return BV::npos; }
    static size_t shift_amount(u32 x, size_t n) { // around 0, 63, 64, 65, 128, the size, and beyond it
        switch (x % 6) { case 0: return (x / 6) % 5; case 1: return 62 + (x / 6) % 5; case 2: return 126 + (x / 6) % 5; case 3: return n - std::min<size_t>(n, (x / 6) % 3); case 4: return n + (x / 6) % 70; default: return (x / 6) % (n + 2); }
    }
    template<class V>
    static void predicates(const V& x, const M& m) {
        size_t cnt = (size_t)std::count(m.begin(), m.end(), true);
        PBT_EQ(x.count(), cnt); PBT_EQ(x.any(), cnt > 0); PBT_EQ(x.none(), cnt == 0); PBT_EQ(x.every(), cnt == m.size());
        PBT_EQ(x.size(), m.size()); PBT_EQ(x.empty(), m.empty());
    }
    template<class V>
    static void binpred(const V& x, const V& y, const M& a, const M& b) {
        size_t n = std::min(a.size(), b.size());
        bool inter = false, cont = true;
        for (size_t q = 0; q < n; ++q) { if (a[q] && b[q]) inter = true; if (b[q] && !a[q]) cont = false; }
        PBT_EQ(x.disjoint(y), !inter);
        if (b.size() <= a.size()) PBT_EQ(x.contains(y), cont);
        PBT_EQ(x == y, a == b);
    }
    template<class V>
    static void findall(const V& x, const M& m, u32 from) {
        PBT_CHECK(x.find_first() == find(m, 0), "find_first is %zd, expected %zd", (ssize_t)x.find_first(), (ssize_t)find(m, 0));
        size_t p = 0; size_t steps = 0; // iterate over all set bits, as users do
        for (size_t i = x.find_first(); i != V::npos; i = x.find_next(i + 1)) {
            size_t e = find(m, p);
            PBT_CHECK(i == e, "iteration over the set bits reached %zd, expected %zd", (ssize_t)i, (ssize_t)e);
            p = i + 1; note(cFound);
            PBT_REQUIRE(++steps <= m.size());
        }
        PBT_CHECK(find(m, p) == BV::npos, "iteration over the set bits ended before %zd", (ssize_t)find(m, p));
        size_t f = from % (m.size() + 3);
        PBT_CHECK(x.find_next(f) == find(m, f), "find_next(%zu) is %zd, expected %zd", f, (ssize_t)x.find_next(f), (ssize_t)find(m, f));
    }
    static std::initializer_list<uint64_t> il(u32) { return {}; }
    template<class F>
    static void with_il(Rng& r, u32 n, F f) { // n in 0..5
        uint64_t w[5]; for (auto& x : w) x = r.chance(1, 5) ? ~0ull : r.chance(1, 5) ? 0 : r.next();
        switch (n) { case 0: f(std::initializer_list<uint64_t>{}, w, 0u); break; case 1: f({ w[0] }, w, 1u); break; case 2: f({ w[0], w[1] }, w, 2u); break; case 3: f({ w[0], w[1], w[2] }, w, 3u); break;
            case 4: f({ w[0], w[1], w[2], w[3] }, w, 4u); break; default: f({ w[0], w[1], w[2], w[3], w[4] }, w, 5u); }
    }
    static void one(World& w, const Op& o) {
        int i = o.d % 3, j = (o.d / 3) % 3;
        BV& x = w.v[i]; M& m = w.m[i];
        BV& y = w.v[j]; M& n = w.m[j];
        Rng r(mix64(((u64)o.a << 32) | o.b));
        size_t sz = m.size();
        // the operand: either the whole vector (CFG 0) or a view of it
        size_t f = 0, l = sz, g = 0, h = n.size();
        if (C == 1) {
            f = pick(o.a, sz); l = pick(o.b, sz); if (f > l) std::swap(f, l);
            if (o.d % 5 == 0 && l - f > 64) l = f + 1 + o.c % 64;
            if (l == sz && (o.d >> 10) % 2) {} // the default `last`
        }
        size_t len = l - f;
        if ((f & 63) || (l & 63)) { note(cUnaligned); if (l > f && (f >> 6) != ((l - 1) >> 6)) { w.nt = true; note(cMultiSlot); } }
        if (!len) note(cEmpty);
        M cur = sub(m, f, l);
        // second operand of the same length (where it exists)
        bool two = n.size() >= len;
        if (C == 1 && two) { g = pick(o.c, n.size() - len); h = g + len; if (i == j && (o.d >> 12) % 2) { size_t near = (f > 70 ? f - 70 : 0) + (o.c >> 4) % 140; g = std::min(near, n.size() - len); h = g + len; } }
        else if (C == 0) two = n.size() == len;
        if (two && i == j && C == 1 && len) { if (g < f && h > f) note(cOverlapFwd); if (g > f && g < l) note(cOverlapBwd); }
        auto VX = [&]() { return l == sz && (o.d >> 10) % 2 ? x.view(f) : x.view(f, l); };
        auto VY = [&]() { return y.view(g, h); };
        switch (o.code % oN) {
            case oSet: if (len) { size_t b = o.c % len; if (C) { auto v = VX(); PBT_REQUIRE(&v.set(b) == &v); } else PBT_REQUIRE(&x.set(b) == &x); m[f + b] = true; } break;
            case oReset: if (len) { size_t b = o.c % len; if (C) VX().reset(b); else x.reset(b); m[f + b] = false; } break;
            case oFlip: if (len) { size_t b = o.c % len; if (C) VX().flip(b); else x.flip(b); m[f + b] = !m[f + b]; } break;
            case oSetV: if (len) { size_t b = o.c % len; bool val = o.d & 64; if (C) VX().set(b, val); else x.set(b, val); m[f + b] = val; if (C) PBT_EQ(VX()[b], val); else PBT_EQ(x.test(b), val); } break;
            case oSetAll: if (C) VX().set(); else x.set(); put(m, f, M(len, true)); break;
            case oResetAll: if (C) VX().reset(); else x.reset(); put(m, f, M(len, false)); break;
            case oFlipAll: if (C) VX().flip(); else x.flip(); for (size_t q = f; q < l; ++q) m[q] = !m[q]; break;
            case oResize: { size_t s = o.c % 450; x.resize(s); m.resize(s, false); break; }
            case oResize1: { size_t s = o.c % 450; if (s > sz) note(cGrowOnes); x.resize(s, true); m.resize(s, true); break; }
            case oCtor: { size_t s = o.c % 450; bool val = o.d & 64; x = BV(s, val); m.assign(s, val); break; }
            case oCtorIl: with_il(r, o.c % 6, [&](std::initializer_list<uint64_t> L, const uint64_t* ww, u32 k) { x = BV(L); m.assign(64 * k, false); for (size_t q = 0; q < 64 * k; ++q) m[q] = (ww[q / 64] >> (q & 63)) & 1; }); break;
            case oAssignIl: { // words replace the leading 64-bit chunks, the rest stays
                size_t most = std::min<size_t>(5, (len + 63) / 64);
                with_il(r, o.c % (most + 1), [&](std::initializer_list<uint64_t> L, const uint64_t* ww, u32 k) { if (C) VX() = L; else x = L; for (size_t q = 0; q < std::min<size_t>(64 * k, len); ++q) m[f + q] = (ww[q / 64] >> (q & 63)) & 1; });
                break;
            }
            case oOr: case oAnd: case oXor: case oMinus: case oOrNot: case oCompound:
                if (two) {
                    u32 k = o.code == oCompound ? r.below(5) : o.code - oOr;
                    M res = comb(cur, sub(n, g, h), k);
                    if (C) { auto vx = VX(); auto vy = VY(); switch (k) { case 0: vx |= vy; break; case 1: vx &= vy; break; case 2: vx ^= vy; break; case 3: vx -= vy; break; default: vx.or_not(vy); } }
                    else switch (k) { case 0: x |= y; break; case 1: x &= y; break; case 2: x ^= y; break; case 3: x -= y; break; default: x.or_not(y); }
                    put(m, f, res);
                }
                break;
            case oBin: if (!C && two) {
                const BV& a = x; const BV& b = y;
                BV c[] = { a | b, a & b, a ^ b, a - b };
                for (u32 k = 0; k < 4; ++k) { M res = comb(cur, n, k); PBT_EQ(c[k].size(), res.size()); for (size_t q = 0; q < res.size(); ++q) PBT_CHECK(c[k][q] == res[q], "operator %u: bit %zu", k, q); }
                BV d = ~a; for (size_t q = 0; q < sz; ++q) PBT_CHECK(d[q] == !m[q], "operator~: bit %zu", q);
                PBT_REQUIRE(d.count() + a.count() == sz);
            } break;
            case oShl: { size_t c = shift_amount(o.c, len); M res = shl(cur, c); if (C) VX() <<= c; else x <<= c; put(m, f, res); break; }
            case oShr: { size_t c = shift_amount(o.c, len); M res = shr(cur, c); if (C) VX() >>= c; else x >>= c; put(m, f, res); break; }
            case oShOps: if (!C) {
                size_t c = shift_amount(o.c, len); const BV& a = x; BV p = a << c, q2 = a >> c; M e1 = shl(cur, c), e2 = shr(cur, c);
                PBT_EQ(p.size(), sz); PBT_EQ(q2.size(), sz);
                for (size_t q = 0; q < sz; ++q) { PBT_CHECK(p[q] == e1[q], "<< %zu: bit %zu", c, q); PBT_CHECK(q2[q] == e2[q], ">> %zu: bit %zu", c, q); }
            } break;
            case oPred: if (C) predicates(VX(), cur); else predicates(x, cur); break;
            case oBinPred:
                if (C) { // independent sizes for the second view
                    size_t g2 = pick(o.c, n.size()), h2 = pick(o.c >> 9, n.size()); if (g2 > h2) std::swap(g2, h2);
                    if (two && (o.d >> 14) % 2) { g2 = g; h2 = h; }
                    binpred(VX(), y.view(g2, h2), cur, sub(n, g2, h2)); PBT_EQ(VX().intersect(y.view(g2, h2)), !VX().disjoint(y.view(g2, h2)));
                } else { binpred(x, y, cur, n); PBT_EQ(x.intersects(y), !x.disjoint(y)); PBT_EQ(x != y, cur != n); }
                break;
            case oEq: {
                BV c(x); PBT_REQUIRE(c == x); PBT_EQ(std::hash<BV>()(c), std::hash<BV>()(x)); PBT_REQUIRE(x == x);
                if (sz) { size_t b = o.c % sz; c.flip(b); PBT_REQUIRE(c != x); PBT_REQUIRE(!(c == x)); if (C) { bool in = b >= f && b < l; PBT_EQ(c.view(f, l) == VX(), !in); } c.flip(b); PBT_REQUIRE(c == x); PBT_EQ(std::hash<BV>()(c), std::hash<BV>()(x)); }
                if (m == n) { PBT_REQUIRE(x == y); PBT_EQ(std::hash<BV>()(x), std::hash<BV>()(y)); }
                // the same bits reached through a different history
                BV e(sz + (o.d >> 9) % 70, true); e.resize(sz); e.reset(); for (size_t q = 0; q < sz; ++q) if (m[q]) e.set(q);
                PBT_REQUIRE(e == x); PBT_EQ(std::hash<BV>()(e), std::hash<BV>()(x));
                break;
            }
            case oFind: if (C) findall(VX(), cur, o.c); else findall(x, cur, o.c); break;
            case oStr: {
                std::string e = hex(cur);
                if (C) { auto v = VX(); std::string s = v; PBT_CHECK(s == e, "string is %s, expected %s", s.c_str(), e.c_str()); std::ostringstream os; os << v; PBT_REQUIRE(os.str() == e); std::string ap = "pre"; v.append_to_string(ap); PBT_REQUIRE(ap == "pre" + (cur.empty() ? "" : e.substr(2))); }
                else {
                    std::string s = (std::string)x; PBT_CHECK(s == e, "string is %s, expected %s", s.c_str(), e.c_str()); std::ostringstream os; os << x; PBT_REQUIRE(os.str() == e); std::string ap = "pre"; x.append_to_string(ap); PBT_REQUIRE(ap == "pre" + (cur.empty() ? "" : e.substr(2)));
                    std::string b = x.to_string(), eb; for (size_t q = sz; q-- > 0;) eb += m[q] ? '1' : '0'; PBT_REQUIRE(b == eb);
                    std::string b2 = x.to_string('.', '#'); for (size_t q = 0; q < sz; ++q) PBT_REQUIRE(b2[q] == (eb[q] == '1' ? '#' : '.'));
                    uint64_t lo = 0; for (size_t q = 0; q < std::min<size_t>(sz, 64); ++q) if (m[q]) lo |= 1ull << q;
                    PBT_REQUIRE(x.to_ullong() == lo); PBT_REQUIRE(x.to_ulong() == (unsigned long)lo);
                }
                break;
            }
            case oCopy: { BV c(y); PBT_REQUIRE(c == y); if (o.c % 2) x = y; else { BV t(std::move(c)); x = std::move(t); moved(c, y.size()); moved(t, n.size()); if (o.c % 8 == 2 && i != j) { x = std::move(y); moved(y, n.size()); y = BV(x); } } m = M(n); break; }
            case oSwap: if (i != j) { x.swap(y); m.swap(n); } break;
            case oRand: { u32 dens = r.range(1, 9); size_t lo = 0, hi = sz; if (o.c % 3 == 0) { lo = pick(o.c >> 3, sz); hi = sz; } for (size_t q = lo; q < hi; ++q) { bool b = r.below(10) < dens && !(o.c % 5 == 0 && !r.chance(1, 20)); x.set(q, b); m[q] = b; } break; }
            case oWord: if (C) { // a view of at most 64 bits takes a word
                size_t k = o.c % 65; size_t f2 = pick(o.a, sz), l2 = std::min(sz, f2 + k); uint64_t val = o.d & 128 ? ~0ull : r.next();
                x.view(f2, l2) = val; for (size_t q = f2; q < l2; ++q) m[q] = (val >> (q - f2)) & 1;
            } break;
            case oAssign: if (C && two) { M src = sub(n, g, h); VX() = VY(); put(m, f, src); } break;
        }
    }
    static void run(const Case& c, Ctx& ctx) {
        World w;
        Rng r(c.c(3));
        for (int i = 0; i < 3; ++i) {
            size_t s = i == 2 ? c.c(0) % 450 : c.c(i) % 450; // two vectors of the same size, so that binary operations apply
            bool val = i != 1 && c.c(2);
            w.v[i] = BV(s, val); w.m[i].assign(s, val);
            if (i != 1) for (size_t q = 0; q < s; ++q) if (r.chance(1, 3)) { w.v[i].flip(q); w.m[i][q] = !w.m[i][q]; }
        }
        for (int i = 0; i < 3; ++i) w.full(i);
        for (size_t k = 0; k < c.ops.size(); ++k) { ctx.opno = (int)k; one(w, c.ops[k]); for (int i = 0; i < 3; ++i) w.full(i); }
        ctx.nontrivial = w.nt;
    }
};
void pbt_run(const Case& c, Ctx& ctx) { H<CFG>::run(c, ctx); }
