// C03, C12, C13: requests for more than can be allocated (any amount, in particular those whose size in bytes is not
// representable) throw std::length_error or std::bad_alloc and leave the container as it was, and usable.
#include "types.hpp"
#include <gtl/bit_vector.hpp>
#include <gtl/phmap.hpp>
#include <gtl/vector.hpp>
#include <mutex>
#include <new>
#include <stdexcept>
using namespace pbt;
#ifndef CFG
    #define CFG 0
#endif
enum { cThrown, cOverflow, cKept, cOther };
static const char* counters[] = { "requests_refused", "requests_whose_size_in_bytes_overflows", "containers_compared", "ordinary_operations", nullptr };
const char* const* pbt_counter_names = counters;
const char*        pbt_rule = "A case is a history of ordinary operations and of requests (reserve, rehash, resize, assign, insert, construction) for 2^55 to 2^64-1 elements, each of which must throw and leave the contents as they were; "
                              "non-trivial: a request met a non-empty container, and an ordinary operation followed it";
#if CFG < 10
enum { oAdd, oErase, oSmall, oReserve, oRehash, oCtor, oN };
static const char* names[] = { "insert", "erase", "reserve_small", "reserve_huge", "rehash_huge", "construct_huge" };
#elif CFG < 20
enum { oAdd, oErase, oSmall, oReserve, oResize, oResizeV, oInsert, oInsertEnd, oAssign, oCtor, oCtorV, oN };
static const char* names[] = { "push_back", "pop_back", "reserve_small", "reserve_huge", "resize_huge", "resize_value_huge", "insert_huge", "insert_at_end_huge", "assign_huge", "construct_huge", "construct_value_huge" };
#else
enum { oAdd, oErase, oSmall, oResize, oResizeV, oCtor, oN };
static const char* names[] = { "set", "reset", "resize_small", "resize_huge", "resize_ones_huge", "construct_huge" };
#endif
const char* const* pbt_op_names = names;
int                pbt_num_ops  = oN;
void pbt_gen(Rng& r, Case& c) {
    c.cfg   = { r.below(40) };
    u32 len = r.range(1, 20);
    for (u32 i = 0; i < len; ++i)
        c.ops.push_back({ r.below(oN), r.below(63), r.u() >> 2, r.below(4), r.below(64) });
}
static size_t huge_(const Op& o) { // 2^55 .. 2^64-1
    size_t base;
    switch (o.c % 4) {
        case 0: base = ~size_t(0) - o.a % 8; break;                                    // the largest numbers
        case 1: base = (size_t(1) << (55 + o.a % 9)) + (o.b % 9) - 1; break;           // around powers of two
        case 2: base = ~size_t(0) / (1 + o.a % 400) + (o.b % 5); break;                // just past the point where n * k overflows
        default: base = (mix64(o.b) | (size_t(1) << (55 + o.a % 9))); break;
    }
    return std::max(base, size_t(1) << 55);
}
template<class X> static void escape(X& x) { asm volatile("" : : "r"(&x) : "memory"); } // or the allocation could be optimised away
template<class F> static void refused(const char* what, size_t n, F f) {
    note(cThrown);
    try { f(); }
    catch (const std::length_error&) { return; }
    catch (const std::bad_alloc&) { return; }
    PBT_CHECK(false, "%s(%zu) returned, though no such amount can be allocated", what, n);
}
#if CFG < 10
    #if CFG == 0
using C = gtl::flat_hash_set<char>;
    #elif CFG == 1
using C = gtl::flat_hash_map<int, int>;
    #elif CFG == 2
using C = gtl::node_hash_set<std::string>;
    #elif CFG == 3
struct Wide { std::string s; long pad[20] = {}; };
using C = gtl::flat_hash_map<std::string, Wide>;
    #elif CFG == 4
using C = gtl::parallel_flat_hash_set<int>;
    #elif CFG == 5
using C = gtl::parallel_node_hash_map<std::string, int, gtl::Hash<std::string>, gtl::EqualTo<std::string>, std::allocator<std::pair<const std::string, int>>, 2, std::mutex>;
    #endif
using K = C::key_type;
template<class T = K> static T mk(int i) { if constexpr (std::is_same_v<T, std::string>) return "k" + std::to_string(i); else return (T)i; }
template<class C> static void add(C& c, int i) { if constexpr (requires { typename C::mapped_type; }) c.try_emplace(mk(i)); else c.insert(mk(i)); }
void pbt_run(const Case& cs, Ctx& ctx) {
    C c; std::vector<bool> m(64); size_t n = 0; bool met = false;
    auto put = [&](int i) { add(c, i); if (!m[i]) { m[i] = true; ++n; } };
    for (u32 i = 0; i < cs.c(0) % 40; ++i) put((int)(i * 7 % 64));
    for (size_t q = 0; q < cs.ops.size(); ++q) {
        ctx.opno = (int)q; const Op& o = cs.ops[q]; int k = (int)(o.d % 64); size_t h = huge_(o);
        switch (o.code % oN) {
            case oAdd: put(k); note(cOther); if (met) ctx.nontrivial = true; break;
            case oErase: c.erase(mk(k)); if (m[k]) { m[k] = false; --n; } note(cOther); if (met) ctx.nontrivial = true; break;
            case oSmall: c.reserve(o.b % 300); note(cOther); break;
            case oReserve: refused("reserve", h, [&] { c.reserve(h); }); met |= n > 0; break;
            case oRehash: refused("rehash", h, [&] { c.rehash(h); }); met |= n > 0; break;
            case oCtor: refused("bucket-count constructor", h, [&] { C x(h); escape(x); }); break;
        }
        if (o.code % oN >= oReserve && h > (size_t)PTRDIFF_MAX / sizeof(C::value_type)) note(cOverflow);
        PBT_EQ(c.size(), n); size_t seen = 0;
        for (auto it = c.begin(); it != c.end(); ++it) ++seen;
        PBT_EQ(seen, n);
        for (int i = 0; i < 64; ++i) PBT_CHECK(c.contains(mk(i)) == m[i], "key %d is %s", i, m[i] ? "missing" : "present");
        note(cKept);
    }
}
#elif CFG < 20
    #if CFG == 10
using E = int;
    #elif CFG == 11
using E = std::string;
    #elif CFG == 12
using E = char;
    #elif CFG == 13
struct E { int v; long pad[6]; E(int i = 0) : v(i), pad{} {} operator int() const { return v; } };
    #endif
using C = gtl::vector<E>;
template<class T = E> static T mk(int i) { if constexpr (std::is_same_v<T, std::string>) return "a rather long element " + std::to_string(i); else return T(i); }
void pbt_run(const Case& cs, Ctx& ctx) {
    C c; std::vector<int> m; bool met = false;
    auto put = [&](int i) { c.push_back(mk(i)); m.push_back(i); };
    for (u32 i = 0; i < cs.c(0) % 40; ++i) put((int)(i * 7 % 64));
    for (size_t q = 0; q < cs.ops.size(); ++q) {
        ctx.opno = (int)q; const Op& o = cs.ops[q]; int k = (int)(o.d % 64); size_t h = huge_(o), at = m.empty() ? 0 : o.b % m.size(); bool whole = false;
        if (!m.empty() && o.code % oN >= oReserve) met = true;
        switch (o.code % oN) {
            case oAdd: put(k); note(cOther); if (met) ctx.nontrivial = true; break;
            case oErase: if (!m.empty()) { c.pop_back(); m.pop_back(); } note(cOther); if (met) ctx.nontrivial = true; break;
            case oSmall: c.reserve(o.b % 300); note(cOther); break;
            case oReserve: refused("reserve", h, [&] { c.reserve(h); }); break;
            case oResize: refused("resize", h, [&] { c.resize(h); }); break;
            case oResizeV: { E e = mk(k); refused("resize", h, [&] { c.resize(h, e); }); break; }
            case oInsert: { E e = mk(k); refused("insert", h, [&] { c.insert(c.begin() + (ptrdiff_t)at, h, e); }); break; }
            case oInsertEnd: { E e = mk(k); refused("insert", h, [&] { c.insert(c.end(), h, e); }); break; }
            case oAssign: { E e = mk(k); refused("assign", h, [&] { c.assign(h, e); }); whole = true; break; }
            case oCtor: refused("constructor", h, [&] { C x(h); escape(x); }); break;
            case oCtorV: { E e = mk(k); refused("constructor", h, [&] { C x(h, e); escape(x); }); break; }
        }
        if (o.code % oN >= oReserve && h > (size_t)PTRDIFF_MAX / sizeof(E)) note(cOverflow);
        if (whole && c.size() != m.size()) { PBT_CHECK(c.empty(), "%zu elements after a refused assign", c.size()); m.clear(); } // basic guarantee
        PBT_EQ(c.size(), m.size()); PBT_CHECK(c.capacity() >= c.size() && c.capacity() < 100000, "capacity %zu, size %zu", c.capacity(), c.size());
        for (size_t i = 0; i < m.size(); ++i) PBT_CHECK(c[i] == mk(m[i]), "element %zu of %zu differs", i, m.size());
        note(cKept);
    }
}
#else
void pbt_run(const Case& cs, Ctx& ctx) {
    gtl::bit_vector c; std::vector<bool> m; bool met = false;
    auto resize = [&](size_t n, bool v) { c.resize(n, v); m.resize(n, v); };
    resize(cs.c(0) % 40 * 5, false);
    for (size_t q = 0; q < cs.ops.size(); ++q) {
        ctx.opno = (int)q; const Op& o = cs.ops[q]; size_t h = huge_(o), at = m.empty() ? 0 : o.b % m.size();
        if (!m.empty() && o.code % oN >= oResize) met = true;
        switch (o.code % oN) {
            case oAdd: if (!m.empty()) { c.set(at); m[at] = true; } note(cOther); if (met) ctx.nontrivial = true; break;
            case oErase: if (!m.empty()) { c.reset(at); m[at] = false; } note(cOther); if (met) ctx.nontrivial = true; break;
            case oSmall: resize(o.b % 300, o.d & 1); note(cOther); break;
            case oResize: refused("resize", h, [&] { c.resize(h); }); break;
            case oResizeV: refused("resize", h, [&] { c.resize(h, true); }); break;
            case oCtor: refused("constructor", h, [&] { gtl::bit_vector x(h, o.d & 1); escape(x); }); break;
        }
        if (o.code % oN >= oResize && h > ~size_t(0) - 63) note(cOverflow);
        PBT_EQ(c.size(), m.size()); PBT_EQ(c.num_blocks(), (m.size() + 63) / 64);
        for (size_t i = 0; i < m.size(); ++i) PBT_CHECK(c[i] == m[i], "bit %zu of %zu differs", i, m.size());
        for (size_t b = 0; b < c.num_blocks(); ++b) {
            uint64_t w = 0;
            for (size_t i = b * 64; i < m.size() && i < b * 64 + 64; ++i) if (m[i]) w |= 1ull << (i & 63);
            PBT_CHECK(c.block(b) == w, "block %zu differs", b);
        }
        note(cKept);
    }
}
#endif
