// C21: lookup cost with weak-but-injective hashes. CFG 0 flat set, default hash; 1 flat map, user identity hash;
// 2 node set; 3 parallel flat map (16 submaps); 4 parallel node set (64 submaps); 5 32-bit keys; 6 pointers, gtl::Hash;
// 7 parallel map with mutex, gtl::Hash (4 submaps); the hashes gtl supplies: 8 double, 9 float, 10 pair, 11 tuple, 12 bit_vector
#include "types.hpp"
#include <gtl/bit_vector.hpp>
#include <gtl/phmap.hpp>
#include <mutex>
#include <unordered_set>
#ifndef CFG
    #define CFG 0
#endif
using namespace pbt;
// Largest averages seen on the library as it is, over 10^5 key sets: 2.9 comparisons, 3.6 extra groups, 5x the mean
// submap size. Without mixing of the hash the same key sets give hundreds to thousands (and 16x).
static constexpr bool kPar = CFG == 3 || CFG == 4 || CFG == 7;
static constexpr double BOUND_CMP = 10, BOUND_PROBES = 8, BOUND_SPREAD = CFG == 4 ? 14 : CFG == 7 ? 3.3 : 9;
// groups inspected before the key is found / known to be absent (the library's own debugging interface, used by its tests)
template<class C, class Q>
static auto dbgacc(const C& c, Q k) -> decltype((u64)gtl::priv::hashtable_debug_internal::HashtableDebugAccess<C>::GetNumProbes(c, k)) {
    return gtl::priv::hashtable_debug_internal::HashtableDebugAccess<C>::GetNumProbes(c, k);
}
template<class C, class Q>
static u64 num_probes(const C& c, Q k) {
    if constexpr (!kPar && requires { dbgacc<C, Q>(c, k); }) return dbgacc<C, Q>(c, k);
    else return 0;
}
const char* pbt_rule = "a case is a structured key set (progression, shifted, grid, high bits only; 100-20000 keys) inserted into a container with an identity hash, with optional churn; "
                       "non-trivial: every case (the cost bounds are evaluated on hits and misses)";
enum { kKeys, kCmpHit, kCmpMiss, kProbes, kMaxAvgPct };
static const char* cn[]              = { "keys", "comparisons_hits", "comparisons_misses", "extra_probes", "sum_avg_probe_percent", nullptr };
const char* const* pbt_counter_names = cn;
const char* const* pbt_op_names      = nullptr;
int                pbt_num_ops       = 0;

void pbt_gen(Rng& r, Case& c) {
    u32 n = r.chance(1, 4) ? r.range(100, 400) : r.chance(2, 3) ? r.range(400, 3000) : r.range(3000, 20000);
    c.cfg = { n, r.below(6), r.u(), r.u(), r.u(), r.u(), r.below(3) };
}
static u64 key(const Case& c, u64 i) {
    u64 p = c.c(2), q = c.c(3), base = ((u64)c.c(4) << 32 | c.c(5));
    switch (c.c(1) % 6) {
        case 0: return base % 1000 + i * (1 + p % 64);           // small stride
        case 1: return i << (p % 49);                            // multiples of a power of two
        case 2: return (base & ~((1ull << (p % 40)) - 1)) + (i << (p % 40)); // same, elsewhere
        case 3: return i * 4096 * (1 + p % 16); // page-sized strides
        case 4: return ((i / 64) << (8 + p % 40)) + (i % 64) * (1 + q % 4); // grid
        default: return (i << 48 >> (p % 16)) | (base & 0xffff & ((1u << (p % 16 ? 0 : 4)) - 1)); // high bits only
    }
}
static FILE* dbg() {
    static FILE* f = getenv("COST_DEBUG") ? fopen(getenv("COST_DEBUG"), "a") : nullptr;
    if (f) setvbuf(f, nullptr, _IOLBF, 4096);
    return f;
}
static u64 g_eq = 0;
struct CountEq {
    template<class T> bool operator()(const T& a, const T& b) const { ++g_eq; return a == b; }
};
struct Ident {
    size_t operator()(u64 a) const { return (size_t)a; }
};
#if CFG == 0
using C = gtl::flat_hash_set<u64, gtl::Hash<u64>, CountEq>;
#elif CFG == 1
using C = gtl::flat_hash_map<u64, int, Ident, CountEq>;
#elif CFG == 2
using C = gtl::node_hash_set<u64, Ident, CountEq>;
#elif CFG == 4
using C = gtl::parallel_node_hash_set<u64, Ident, CountEq, std::allocator<u64>, 6>;
#elif CFG == 5
using C = gtl::flat_hash_set<u32, gtl::Hash<u32>, CountEq>;
#elif CFG == 6
using C = gtl::flat_hash_map<const int*, int, gtl::Hash<const int*>, CountEq>;
#elif CFG == 7
using C = gtl::parallel_flat_hash_map<u64, int, gtl::Hash<u64>, CountEq, std::allocator<std::pair<const u64, int>>, 2, std::mutex>;
#elif CFG == 8
using C = gtl::flat_hash_set<double, gtl::Hash<double>, CountEq>;
#elif CFG == 9
using C = gtl::flat_hash_map<float, int, gtl::Hash<float>, CountEq>;
#elif CFG == 10
using C = gtl::flat_hash_set<std::pair<u32, u32>, gtl::Hash<std::pair<u32, u32>>, CountEq>;
#elif CFG == 11
using C = gtl::node_hash_set<std::tuple<u32, u64, uint16_t>, gtl::Hash<std::tuple<u32, u64, uint16_t>>, CountEq>;
#elif CFG == 12
using C = gtl::flat_hash_set<gtl::bit_vector, gtl::Hash<gtl::bit_vector>, CountEq>;
#else
using C = gtl::parallel_flat_hash_map<u64, int, Ident, CountEq, std::allocator<std::pair<const u64, int>>, 4>;
#endif
using K = typename C::key_type;
template<class K> static K conv_to(u64 k) { // injective on the key sets used: 32-bit keys are rotated, so that high bits stay
    if constexpr (std::is_pointer<K>::value) return (K)(uintptr_t)(k << 3 | k >> 61);
    else if constexpr (std::is_same<K, double>::value) return k & 1 ? (double)k * 0.125 : (double)(int64_t)k;
    else if constexpr (std::is_same<K, float>::value) return (float)(int64_t)(k ^ k >> 32);
    else if constexpr (std::is_same<K, std::pair<u32, u32>>::value) return { (u32)(k >> 32) ^ (u32)(k / 64), (u32)k }; // both halves vary
    else if constexpr (std::is_same<K, std::tuple<u32, u64, uint16_t>>::value) return { (u32)(k >> 40), k >> 6, (uint16_t)(k & 63) };
    else if constexpr (std::is_same<K, gtl::bit_vector>::value) { // 200 bits, the key somewhere in the middle
        gtl::bit_vector b(200);
        for (int i = 0; i < 64; ++i) if (k >> i & 1) b.set(i + 50);
        return b;
    }
    else if constexpr (sizeof(K) == 4) return (K)(k ^ k >> 32);
    else return k;
}
static K conv(u64 k) { return conv_to<K>(k); }
template<class K> static std::string bytes(const K& k) {
    if constexpr (std::is_same<K, gtl::bit_vector>::value) return (std::string)k;
    else if constexpr (std::is_same<K, std::tuple<u32, u64, uint16_t>>::value) return std::to_string(std::get<0>(k)) + "," + std::to_string(std::get<1>(k)) + "," + std::to_string(std::get<2>(k));
    else if constexpr (std::is_same<K, std::pair<u32, u32>>::value) return std::to_string(k.first) + "," + std::to_string(k.second);
    else return std::string((const char*)&k, sizeof k);
}
template<class X> constexpr bool is_map() { return requires { typename X::mapped_type; }; }
static constexpr bool kIsMap = is_map<C>();
template<class C> static void ins(C& c, u64 k) {
    if constexpr (kIsMap) c.emplace(conv(k), 1);
    else c.insert(conv(k));
}
void pbt_run(const Case& cs, Ctx& ctx) {
    ctx.nontrivial = true;
    u32 n = std::max(100u, cs.c(0)), churn = cs.c(6);
    if constexpr (CFG >= 8 || sizeof(K) == 4) { // folding the keys must leave them distinct
        std::unordered_set<std::string> d;
        for (u64 i = 0; i < 3 * (u64)n; ++i)
            if (!d.insert(bytes(conv(key(cs, i)))).second) { ctx.nontrivial = false; return; }
    }
    C c;
    if (churn == 2) c.reserve(n);
    g_eq = 0;
    for (u64 i = 0; i < n; ++i) ins(c, key(cs, i));
    if (c.size() < n / 2) return; // shrunk to a degenerate key set
    n = (u32)c.size();
    double ins_cost = (double)g_eq / n;
    if (churn == 1) // slide the window of keys: erasures leave tombstones
        for (u64 i = 0; i < n; ++i) {
            c.erase(conv(key(cs, i)));
            ins(c, key(cs, n + i));
        }
    u64 off = churn == 1 ? n : 0;
    g_eq    = 0;
    u64 probes = 0, maxp = 0;
    for (u64 i = 0; i < n; ++i) PBT_REQUIRE(c.find(conv(key(cs, off + i))) != c.end());
    double hit = (double)g_eq / n;
    for (u64 i = 0; i < n; ++i) {
        u64 p = num_probes(c, conv(key(cs, off + i)));
        probes += p;
        maxp = std::max(maxp, p);
    }
    double avgp = (double)probes / n;
    g_eq        = 0;
    u64 misses = 0, mp = 0;
    for (u64 i = 0; i < n; ++i) {
        auto k = conv(key(cs, off + n + i));
        if (c.find(k) == c.end()) ++misses;
        mp += num_probes(c, k);
    }
    double miss = (double)g_eq / (kPar ? 1 : 2) / n, avgmp = (double)mp / n; // GetNumProbes compares too
    note(kKeys, n);
    note(kCmpHit, (u64)(hit * n));
    note(kCmpMiss, (u64)(miss * n));
    note(kProbes, probes);
    if (dbg()) fprintf(dbg(), "n %u fam %u churn %u ins %.2f hit %.2f miss %.2f probes %.2f (max %llu) missprobes %.2f\n", n, cs.c(1) % 6, churn, ins_cost, hit, miss, avgp, (unsigned long long)maxp, avgmp);
    PBT_CHECK(ins_cost <= BOUND_CMP, "%.2f key comparisons per insertion of %u structured keys", ins_cost, n);
    PBT_CHECK(hit <= 1 + BOUND_CMP, "%.2f key comparisons per successful find among %u structured keys", hit, n);
    PBT_CHECK(miss <= BOUND_CMP, "%.2f key comparisons per unsuccessful find among %u structured keys", miss, n);
    PBT_CHECK(avgp <= BOUND_PROBES, "%.2f extra probes per successful find among %u structured keys", avgp, n);
    PBT_CHECK(avgmp <= 2 * BOUND_PROBES, "%.2f extra probes per unsuccessful find among %u structured keys", avgmp, n);
#if CFG == 3 || CFG == 4 || CFG == 7
    size_t mx = 0, tot = 0;
    for (size_t i = 0; i < c.subcnt(); ++i) {
        size_t sz = 0;
        c.with_submap(i, [&](const auto& s) { sz = s.size(); });
        mx = std::max(mx, sz);
        tot += sz;
    }
    PBT_EQ(tot, c.size());
    if (dbg()) fprintf(dbg(), "   submaps max/avg %.2f\n", (double)mx * c.subcnt() / tot);
    if (n >= 1600) PBT_CHECK(mx * c.subcnt() <= tot * BOUND_SPREAD, "the fullest of %zu submaps holds %zu of %u keys", c.subcnt(), mx, n);
#endif
}
