// C03: capacity management of the hash containers.
#include "types.hpp"
#include <gtl/phmap.hpp>
#include <cmath>
#include <mutex>
using namespace pbt;
#ifndef CFG
    #define CFG 0
#endif
#if CFG == 0
using C = gtl::flat_hash_set<TK, StatefulHash<TK>>;
#elif CFG == 1
using C = gtl::node_hash_set<TK, StatefulHash<TK>>;
#elif CFG == 2
using C = gtl::flat_hash_set<TK, StatefulHash<TK>, StatefulEq<TK>, TrackAlloc<TK>>;
#elif CFG == 3
using C = gtl::flat_hash_set<TK, StatefulHash<TK>>; // portable group (flags)
#elif CFG == 4
using C = gtl::parallel_flat_hash_set<TK, StatefulHash<TK>, std::equal_to<TK>, std::allocator<TK>, 2>;
#elif CFG == 5
using C = gtl::parallel_node_hash_set<TK, StatefulHash<TK>, std::equal_to<TK>, std::allocator<TK>, 4, std::mutex>;
#endif
enum { oInsert, oErase, oReserveFill, oRehash, oRehash0, oClear, oChurn, oGrow, oCtor, oEraseAll, oCopy, oDrain, oMoveReuse, oAssign, oSwap, oN };
static const char* names[] = { "insert", "erase", "reserve_fill", "rehash", "rehash0", "clear", "churn", "grow", "ctor_buckets", "erase_all", "copy", "drain_refill", "move_and_reuse", "copy_assign", "swap" };
const char* const* pbt_op_names = names;
int                pbt_num_ops  = oN;
enum { cCapChange, cChurnSteps, cReserveFill, cInserts };
static const char* counters[] = { "capacity_changes", "churn_steps", "reserve_fills", "inserts", nullptr };
const char* const* pbt_counter_names = counters;
const char*        pbt_rule = "A case is a history of insertions, erasures, churn, reserve/rehash/clear on one container with capacity laws checked "
                              "after every step; non-trivial: at least two capacity changes and 30 erasures or insertions";
void pbt_gen(Rng& r, Case& c) {
    c.cfg = { r.below(8) };
    u32 len = r.chance(1, 3) ? r.range(1, 10) : r.range(10, 60);
    bool big = r.chance(1, 10);
    for (u32 i = 0; i < len; ++i)
        c.ops.push_back({ r.below(oN), r.u() >> 2, r.skewed(big ? 13 : 9), r.skewed(big ? 12 : 9), r.below(64) });
}
template<class X> constexpr size_t tables() { if constexpr (requires { X::subcnt(); }) return X::subcnt(); else return 1; }
constexpr size_t NT = tables<C>();
template<class X, class F> void each_table(X& x, F&& f) {
    if constexpr (requires { X::subcnt(); }) {
        for (size_t i = 0; i < X::subcnt(); ++i) x.with_submap(i, [&](const auto& t) { f(i, t.size(), t.capacity()); });
    } else f(0, x.size(), x.capacity());
}
static size_t growth_floor(size_t cap) { return cap - cap / 8; } // documented 87.5% maximum fill

void pbt_run(const Case& cs, Ctx& ctx) {
    u32 hk = cs.c(0) % 8;
    bool slow = hk == 2 || hk == 3;
    u64 changes = 0, muts = 0;
    long lk = TK::live;
    {
        C             x(0, C::hasher(hk));
        std::set<int> m;
        std::array<size_t, NT> peak{}; // largest size of each table since the container was last sized explicitly
        size_t        floor_cap = 0; // capacity requested explicitly
        size_t        promise = 0;   // largest reserve() since an element was last removed or the table resized by other means
        auto laws = [&]() {
            PBT_EQ(x.size(), m.size());
            size_t cap = x.capacity();
            PBT_EQ(x.bucket_count(), cap);
            PBT_CHECK(x.size() <= cap, "more elements (%zu) than buckets (%zu)", x.size(), cap);
            size_t bound = 0, sum = 0, caps = 0;
            each_table(x, [&](size_t i, size_t n, size_t c) {
                PBT_CHECK(n <= c, "more elements (%zu) than buckets (%zu)", n, c);
                if (c >= 15)
                    PBT_CHECK(n <= growth_floor(c), "%zu elements in %zu buckets exceeds the 7/8 maximum fill", n, c);
                peak[i] = std::max(peak[i], n);
                bound += peak[i] * 5 + 40;
                sum += n; caps += c;
            });
            PBT_REQUIRE(sum == x.size() && caps == cap);
            PBT_REQUIRE(x.load_factor() <= x.max_load_factor());
            PBT_REQUIRE(cap == 0 ? x.load_factor() == 0.0f : std::fabs(x.load_factor() - (double)x.size() / cap) < 1e-4);
            // bounded growth whatever the history of insertions and erasures
            PBT_CHECK(cap <= (NT == 1 ? std::max(bound, floor_cap) : bound + floor_cap), "capacity %zu although no more than %zu elements were ever held, and %zu asked for", cap, (bound - 40 * NT) / 5, floor_cap);
        };
        auto ins = [&](int k) {
            size_t cap0 = x.capacity();
            bool   n    = m.insert(k).second;
            PBT_EQ(x.insert(TK(k)).second, n);
            if (x.capacity() != cap0) PBT_CHECK(m.size() > promise || NT > 1, "table rehashed at size %zu although reserve(%zu) had been called", m.size(), promise);
            if (x.capacity() != cap0) { ++changes; note(cCapChange); PBT_REQUIRE(n); }
            note(cInserts); ++muts;
            laws();
        };
        auto er = [&](int k) {
            size_t cap0 = x.capacity();
            bool   in   = m.erase(k) != 0;
            PBT_EQ(x.erase(TK(k)), (size_t)in);
            if (in) { ++muts; promise = 0; }
            PBT_CHECK(x.capacity() == cap0, "erase changed the capacity");
            laws();
        };
        for (size_t q = 0; q < cs.ops.size(); ++q) {
            ctx.opno = (int)q;
            Op o = cs.ops[q];
            if (slow) { o.b %= 64; o.c %= 64; }
            if (u32 k = o.code % oN; k != oInsert && k != oErase && k != oReserveFill && k != oGrow && k != oCtor && k != oCopy) promise = 0;
            switch (o.code % oN) {
                case oInsert: ins((int)(o.a % 5000)); break;
                case oErase: if (!m.empty()) { auto it = m.lower_bound((int)(o.a % 5000)); er(it == m.end() ? *m.begin() : *it); } break;
                case oReserveFill: {
                    size_t n = o.b, cap0 = x.capacity();
                    x.reserve(n);
                    promise = n ? std::max(promise, n) : 0; // reserve(0) is rehash(0)
                    if (x.capacity() != cap0) { ++changes; }
                    PBT_CHECK(x.capacity() >= n, "reserve(%zu) leaves %zu buckets", n, x.capacity());
                    floor_cap = std::max({ floor_cap, n * 3 + 16 * NT });
                    laws();
                    if (NT > 1) { // the elements may all belong to one table: only the total is promised
                        size_t room = 0;
                        each_table(x, [&](size_t, size_t, size_t c) { room += growth_floor(c); });
                        PBT_CHECK(room >= n, "reserve(%zu) makes room for %zu elements", n, room);
                    } else if (o.d % 3) {
                        size_t cp = x.capacity();
                        int    k  = 100000;
                        while (m.size() < n) {
                            ins(k++);
                            PBT_CHECK(x.capacity() == cp, "table rehashed at size %zu although reserve(%zu) had been called", m.size(), n);
                        }
                        note(cReserveFill);
                    }
                    break;
                }
                case oRehash: {
                    size_t n = o.b + 1, cap0 = x.capacity();
                    x.rehash(n);
                    PBT_CHECK(x.bucket_count() >= n, "rehash(%zu) leaves %zu buckets", n, x.bucket_count());
                    if (x.capacity() != cap0) { ++changes; }
                    floor_cap = std::max(floor_cap, n * 2 + 2 * NT);
                    laws();
                    break;
                }
                case oRehash0:
                    x.rehash(0);
                   
                    peak = {}; floor_cap = 0;
                    PBT_CHECK(x.capacity() <= m.size() * 3 + 16 * NT, "rehash(0) leaves %zu buckets for %zu elements", x.capacity(), m.size());
                    laws();
                    if (m.empty()) PBT_REQUIRE(x.capacity() <= 16 * NT);
                    break;
                case oClear: x.clear(); m.clear(); laws(); PBT_REQUIRE(x.begin() == x.end()); break;
                case oChurn: { // bounded population, unbounded history
                    int n = (int)o.c * 4 + 8, pop = (int)m.size();
                    for (int k = 0; k < n; ++k) {
                        ins(1000000 + (int)o.a % 1000 + k);
                        if (!m.empty()) { auto it = m.begin(); std::advance(it, std::min<size_t>(m.size() - 1, (o.a >> 4) % 7)); er(*it); }
                        note(cChurnSteps);
                    }
                    PBT_REQUIRE((int)m.size() <= pop + 1);
                    break;
                }
                case oGrow: { // amortised growth of a fresh table
                    C    y(0, C::hasher(hk));
                    size_t n = o.c * 2 + 1, ch = 0;
                    long mv0 = TK::moves;
                    for (size_t k = 0; k < n; ++k) {
                        size_t c0 = y.capacity();
                        y.emplace((int)(o.a % 1000 + k * (1 + o.b % 3)));
                        if (y.capacity() != c0) { ++ch; PBT_REQUIRE(y.capacity() > c0); }
                    }
                    PBT_EQ(y.size(), n);
                    PBT_CHECK(ch <= NT * ((size_t)std::log2((double)n) + 3), "%zu rehashes while inserting %zu elements", ch, n);
                    PBT_CHECK(TK::moves - mv0 <= (long)(n * 6 + 64), "%ld element moves while inserting %zu elements", TK::moves - mv0, n);
                    PBT_CHECK(y.capacity() <= n * 5 + 16 * NT, "%zu buckets for %zu inserted elements", y.capacity(), n);
                    break;
                }
                case oCtor: {
                    C y(o.b, C::hasher(hk));
                    PBT_CHECK(y.bucket_count() >= o.b, "constructing with %u buckets gives %zu", o.b, y.bucket_count());
                    PBT_REQUIRE(y.empty());
                    PBT_REQUIRE(y.find(TK(1)) == y.end());
                    for (u32 k = 0; k < std::min(o.b + 2, 200u); ++k) PBT_REQUIRE(y.insert(TK((int)k)).second);
                    PBT_REQUIRE(y.find(TK(-5)) == y.end());
                    break;
                }
                case oEraseAll: while (!m.empty()) er(*m.begin()); PBT_REQUIRE(x.begin() == x.end()); break;
                case oCopy: {
                    C y(x);
                    PBT_EQ(y.size(), x.size());
                    PBT_CHECK(y.capacity() <= std::max(x.capacity(), m.size() * 5 + 40 * NT), "copy of %zu elements has %zu buckets", m.size(), y.capacity());
                    each_table(y, [&](size_t, size_t n, size_t c) { if (c >= 15) PBT_REQUIRE(n <= growth_floor(c)); });
                    break;
                }
                case oMoveReuse: { // the moved-from table is used again, the new one goes on
                    size_t cap0 = x.capacity(), n = m.size();
                    C      y(std::move(x));
                    PBT_EQ(y.size(), n);
                    PBT_CHECK(y.capacity() == cap0, "moving a table of %zu buckets gives one of %zu", cap0, y.capacity());
                    std::set<int> keep = m;
                    if ((o.b & 1) || !x.empty()) x.clear(); // its state is unspecified, but it is a table
                    m.clear();
                    laws();
                    for (u32 k = 0; k < std::min(o.c, 40u); ++k) ins((int)(o.a % 100 + k * 3));
                    switch (o.d % 3) {
                        case 0: break; // go on with the table moved from
                        case 1: x = std::move(y); m = keep; break;
                        case 2: x.swap(y); m = keep; break;
                    }
                            laws();
                    break;
                }
                case oAssign: { // a copy goes on in place of its source
                    C y(o.b % 200, C::hasher(hk));
                    for (u32 k = 0; k < std::min(o.c, 60u); ++k) y.insert(TK((int)(o.a % 50 + k)));
                    if (o.d & 1) for (u32 k = 0; k < std::min(o.c, 60u); k += 2) y.erase(TK((int)(o.a % 50 + k)));
                    floor_cap = std::max({ floor_cap, y.capacity() });
                    y = x;
                    if (o.d & 2) { swap(x, y); }
                    else if (o.d & 4) { x = y; }
                    laws();
                    break;
                }
                case oSwap: {
                    C             y(o.b % 300, C::hasher(hk));
                    std::set<int> ym;
                    for (u32 k = 0; k < std::min(o.c, 60u); ++k) { y.insert(TK((int)(o.a % 50 + k))); ym.insert((int)(o.a % 50 + k)); }
                    size_t cx = x.capacity(), cy = y.capacity();
                    x.swap(y);
                    PBT_REQUIRE(x.capacity() == cy && y.capacity() == cx);
                    floor_cap = std::max(floor_cap, cy);
                    m.swap(ym);
                   
                    laws();
                    if (o.d & 1) { // and the other one keeps to the same laws
                        for (u32 k = 0; k < std::min(o.c, 40u); ++k) { y.insert(TK((int)(3000000 + k))); ym.insert((int)(3000000 + k)); }
                        PBT_EQ(y.size(), ym.size());
                        each_table(y, [&](size_t, size_t n, size_t c) { if (c >= 15) PBT_REQUIRE(n <= growth_floor(c)); });
                        PBT_REQUIRE(y.size() <= y.capacity());
                    }
                    break;
                }
                case oDrain: { // fill, erase everything, fill again: the tombstones must not stay forever
                    int n = (int)o.c;
                    for (int rep = 0; rep < 3; ++rep) {
                        for (int k = 0; k < n; ++k) ins(2000000 + k);
                        for (int k = n; k-- > 0;) er(2000000 + k);
                    }
                    break;
                }
            }
        }
        ctx.nontrivial = changes >= 2 && muts >= 30;
    }
    PBT_EQ(TK::live, lk);
}
