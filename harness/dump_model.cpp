// C09: dump / load round trips. CFG 0 flat map, 1 flat set, 2 parallel flat map, 3 flat map with stateful hash and allocator, 4 flat set of 72-byte elements,
// 5 parallel flat set with a mutex and stateful hash
#include "types.hpp"
// stands for cereal's binary archives: the library hooks into cereal when its headers come first
#define CEREAL_SIZE_TYPE uint64_t
namespace cereal {
struct BinaryOutputArchive {
    std::string d;
    void        saveBinary(const void* p, std::ptrdiff_t n) { d.append((const char*)p, (size_t)n); }
};
struct BinaryInputArchive {
    const std::string& d;
    size_t             pos = 0;
    void               loadBinary(void* const p, std::ptrdiff_t n) {
        PBT_CHECK(pos + n <= d.size(), "load reads %zu bytes at %zu of a dump of %zu bytes", (size_t)n, pos, d.size());
        memcpy(p, d.data() + pos, (size_t)n);
        pos += (size_t)n;
    }
};
} // namespace cereal
#include <gtl/phmap_dump.hpp>
#include <mutex>
#ifndef CFG
    #define CFG 0
#endif
using namespace pbt;
enum { oIns, oFill, oErase, oEraseMany, oClear, oReserve, oRehash, oMem, oMemSplit, oFile, oFileTwo, oLegacy, oMismatch, oChurn, oTwin, oCereal, oN };
static const char* names[] = { "insert", "fill", "erase", "erase_many", "clear", "reserve", "rehash", "roundtrip_memory", "roundtrip_memory_api", "roundtrip_file", "roundtrip_two_in_a_file", "load_unversioned", "submap_mismatch", "churn", "twin", "roundtrip_cereal" };
const char* const* pbt_op_names = names;
int                pbt_num_ops  = oN;
enum { cTrips, cElems, cAfter, cTomb };
static const char* cn[]              = { "round_trips", "elements_round_tripped", "mutations_of_loaded_containers", "round_trips_after_erasures", nullptr };
const char* const* pbt_counter_names = cn;
const char*        pbt_rule = "A case is a history of mutations and dump/load round trips (memory archive, file archives, cereal hooks, two containers in one file, unversioned format) between three containers; "
                              "non-trivial: at least two round trips of non-empty containers, one after erasures, and a later mutation of a loaded container";
void pbt_gen(Rng& r, Case& c) {
    static const u32 unis[] = { 4, 12, 50, 300, 3000 };
    c.cfg = { unis[r.below(5)], r.below(8), r.below(8), r.below(8) };
    if (CFG >= 3 && (c.cfg[1] % 8 == 2 || c.cfg[1] % 8 == 3 || c.cfg[1] % 8 == 7)) c.cfg[0] = std::min(c.cfg[0], 200u); // colliding hashes
    u32 len = r.chance(1, 2) ? r.range(4, 20) : r.range(20, 70);
    std::vector<u32> pool;
    for (u32 i = 0; i < oN; ++i)
        for (u32 k = (i == oFile || i == oFileTwo) ? r.chance(1, 3) : r.below(4); k; --k) pool.push_back(i);
    for (u32 i : { oIns, oFill, oErase, oMem }) pool.push_back(i);
    for (u32 i = 0; i < len; ++i)
        c.ops.push_back({ i == 0 ? (u32)oFill : pool[r.below(pool.size())], r.u() >> 2, r.skewed(11), r.below(8), r.below(64) });
}
template<class K, class V, class E, bool Map>
struct Tt { using Key = K; using Val = V; using El = E; static constexpr bool M = Map; };
#if CFG == 0
using T = Tt<unsigned, unsigned long, std::pair<const unsigned, unsigned long>, true>;
using C = gtl::flat_hash_map<unsigned, unsigned long>;
#elif CFG == 1
using T = Tt<int, int, int, false>;
using C = gtl::flat_hash_set<int>;
#elif CFG == 2
using T = Tt<int, short, std::pair<const int, short>, true>;
using C = gtl::parallel_flat_hash_map<int, short, gtl::Hash<int>, gtl::EqualTo<int>, std::allocator<std::pair<const int, short>>, 2>;
using COther = gtl::parallel_flat_hash_map<int, short, gtl::Hash<int>, gtl::EqualTo<int>, std::allocator<std::pair<const int, short>>, 3>;
#elif CFG == 3
using T = Tt<int, int, std::pair<const int, int>, true>;
using C = gtl::flat_hash_map<int, int, StatefulHash<int>, StatefulEq<int>, TrackAlloc<std::pair<const int, int>>>;
#elif CFG == 4
using T = Tt<Big, int, Big, false>;
using C = gtl::flat_hash_set<Big, StatefulHash<Big>>;
#elif CFG == 5
using T = Tt<int, int, int, false>;
using C = gtl::parallel_flat_hash_set<int, StatefulHash<int>, StatefulEq<int>, std::allocator<int>, 3, std::mutex>;
using COther = gtl::parallel_flat_hash_set<int, StatefulHash<int>, StatefulEq<int>, std::allocator<int>, 2, std::mutex>;
#endif
struct MemOut {
    std::string d;
    bool saveBinary(const void* p, size_t n) { d.append((const char*)p, n); return true; }
    template<class V> bool saveBinary(const V& v) { return saveBinary(&v, sizeof v); }
};
struct MemIn {
    const std::string& d;
    size_t             pos = 0;
    bool loadBinary(void* p, size_t n) {
        PBT_CHECK(pos + n <= d.size(), "load reads %zu bytes at %zu of a dump of %zu bytes", n, pos, d.size());
        memcpy(p, d.data() + pos, n);
        pos += n;
        return true;
    }
    template<class V> bool loadBinary(V* v) { return loadBinary(v, sizeof *v); }
};
// the layout written before the version number was introduced: [size][capacity]([ctrl][slots])
struct LegacyOut {
    std::string d;
    int         field = 0, skip_from;
    std::vector<std::string> fields;
    bool saveBinary(const void* p, size_t n) { fields.emplace_back((const char*)p, n); return true; }
    std::string legacy() {
        std::string r = fields[1] + fields[2];
        if (fields.size() > 3) r += fields[4] + fields[5];
        return r;
    }
};
static const char* scratch() {
    static char b[64];
    static pid_t owner = 0;
    if (owner != getpid()) { snprintf(b, sizeof b, "/tmp/pbt_dump_%d_%d", (int)getppid(), (int)getpid()); owner = getpid(); }
    return b;
}
template<class C, class T>
struct H {
    C                  c[3] = { make(0), make(1), make(2) };
    std::map<int, int> m[3];
    bool               dirty[3] = {}, loaded[3] = {};
    u32                hk[3];
    u32                nuni;
    u64                trips = 0, after_erase = 0, mutated = 0;
    static inline u32  kinds[3];
    static C make(int i) {
        (void)i;
#if CFG == 3
        return C(0, typename C::hasher(kinds[0]), typename C::key_equal(7), typename C::allocator_type(i + 1));
#elif CFG == 4 || CFG == 5
        return C(0, typename C::hasher(kinds[0]));
#else
        return C();
#endif
    }
    template<class X> static int kof(const X& x) { if constexpr (T::M) return Conv<typename T::Key>::un(x.first); else return Conv<typename T::Key>::un(x); }
    template<class X> static int vof(const X& x) { if constexpr (T::M) return (int)x.second; else return 0; }
    void ins(int i, int k, int v) {
        if constexpr (T::M) c[i].emplace(Conv<typename T::Key>::mk(k), (typename T::Val)v); else c[i].insert(Conv<typename T::Key>::mk(k));
        m[i].emplace(k, T::M ? v : 0);
        mut(i);
    }
    void mut(int i) { if (loaded[i]) { note(cAfter); ++mutated; } }
    void ers(int i, int k) {
        size_t n = c[i].erase(Conv<typename T::Key>::mk(k));
        PBT_EQ(n, m[i].erase(k));
        if (n) dirty[i] = true;
        mut(i);
    }
    void check(int i) {
        PBT_CHECK(c[i].size() == m[i].size(), "container %d: size() is %zu, expected %zu", i, (size_t)c[i].size(), m[i].size());
        size_t n = 0;
        for (auto& e : c[i]) {
            auto it = m[i].find(kof(e));
            PBT_CHECK(it != m[i].end() && it->second == vof(e), "container %d holds (%d, %d), which it should not", i, kof(e), vof(e));
            ++n;
        }
        PBT_CHECK(n == m[i].size(), "iteration over container %d visits %zu elements of %zu", i, n, m[i].size());
        for (auto& [k, v] : m[i]) { auto it = c[i].find(Conv<typename T::Key>::mk(k)); PBT_CHECK(it != c[i].end() && vof(*it) == v, "key %d of container %d cannot be found", k, i); }
        for (u32 k = 0; k < std::min(nuni + 3, 64u); ++k) PBT_REQUIRE(c[i].contains(Conv<typename T::Key>::mk((int)k)) == (m[i].count((int)k) != 0));
        PBT_CHECK((size_t)c[i].size() <= c[i].capacity(), "container %d: %zu elements, capacity %zu", i, (size_t)c[i].size(), (size_t)c[i].capacity());
    }
    void done(int i, int j) { // container j was loaded from a dump of i
        m[j]      = m[i];
        loaded[j] = true;
        PBT_CHECK(c[j].capacity() == c[i].capacity(), "capacity %zu became %zu", (size_t)c[i].capacity(), (size_t)c[j].capacity());
        PBT_CHECK(c[j] == c[i], "the loaded container differs from the dumped one");
        if (!m[i].empty()) {
            ++trips;
            note(cTrips);
            note(cElems, m[i].size());
            if (dirty[i]) { ++after_erase; note(cTomb); }
        }
        dirty[j] = dirty[i];
    }
    void step(const Op& o) {
        int i = o.d % 3, j = (o.d / 3) % 3, k = (int)(o.a % nuni), v = (int)(o.a / nuni % 1000);
        switch (o.code % oN) {
            case oIns: ins(i, k, v); break;
            case oFill: for (u32 n = 0; n < o.b; ++n) ins(i, (int)((k + n * 7ull) % nuni), v + (int)n); break;
            case oErase: ers(i, k); break;
            case oEraseMany: for (u32 n = 0; n < o.b; ++n) ers(i, (int)((k + n * (1 + o.c)) % nuni)); break;
            case oClear: c[i].clear(); m[i].clear(); mut(i); break;
            case oReserve: c[i].reserve(o.b); mut(i); break;
            case oRehash: c[i].rehash(o.b % 512); mut(i); break;
            case oChurn: for (u32 n = 0; n < 2 * o.b; ++n) { int kk = (int)((k + n) % nuni); if (m[i].count(kk)) ers(i, kk); else if (m[i].size() < nuni / 2 + 1) ins(i, kk, v); } break;
            case oMem: {
                MemOut out;
                PBT_REQUIRE(c[i].phmap_dump(out));
                MemIn in{ out.d };
                PBT_REQUIRE(c[j].phmap_load(in));
                PBT_CHECK(in.pos == out.d.size(), "load read %zu bytes of a dump of %zu", in.pos, out.d.size());
                done(i, j);
                break;
            }
            case oCereal: {
                cereal::BinaryOutputArchive out;
                cereal::save(out, (const C&)c[i]);
                cereal::BinaryInputArchive in{ out.d };
                cereal::load(in, c[j]);
                PBT_CHECK(in.pos == out.d.size(), "load read %zu bytes of a dump of %zu", in.pos, out.d.size());
                done(i, j);
                break;
            }
            case oMemSplit: { // two containers through one archive
                MemOut out;
                int    j2 = (j + 1) % 3, i2 = (i + 1) % 3;
                PBT_REQUIRE(c[i].phmap_dump(out) && c[i2].phmap_dump(out));
                MemIn in{ out.d };
                C     n1 = make(0), n2 = make(1);
                PBT_REQUIRE(n1.phmap_load(in) && n2.phmap_load(in));
                PBT_EQ(in.pos, out.d.size());
                PBT_CHECK(n1 == c[i] && n2 == c[i2], "one of two containers dumped into one archive did not come back");
                (void)j2;
                ++trips;
                break;
            }
            case oFile: {
                { gtl::BinaryOutputArchive ar(scratch()); if (o.c & 1) { PBT_REQUIRE(c[i].phmap_dump(ar)); } else PBT_REQUIRE(ar.saveBinary(c[i])); }
                { gtl::BinaryInputArchive ar(scratch()); if (o.c & 2) { PBT_REQUIRE(c[j].phmap_load(ar)); } else PBT_REQUIRE(ar.loadBinary(&c[j])); }
                unlink(scratch());
                done(i, j);
                break;
            }
            case oFileTwo: {
                int    i2 = (i + 1) % 3;
                size_t tag = 0x1234567890ull + o.a;
                { gtl::BinaryOutputArchive ar(scratch()); PBT_REQUIRE(ar.saveBinary(c[i]) && ar.saveBinary(tag) && ar.saveBinary(c[i2])); }
                C      n1 = make(0), n2 = make(1);
                size_t got = 0;
                { gtl::BinaryInputArchive ar(scratch()); PBT_REQUIRE(ar.loadBinary(&n1) && ar.loadBinary(&got) && ar.loadBinary(&n2)); }
                unlink(scratch());
                PBT_EQ(got, tag);
                PBT_CHECK(n1 == c[i] && n2 == c[i2], "one of two containers saved to one file did not come back");
                break;
            }
            case oTwin: { // from now on the loaded container does what the original does, step by step
                MemOut out;
                PBT_REQUIRE(c[i].phmap_dump(out));
                MemIn in{ out.d };
                C     t = make(1);
                bool  exact = CFG != 2 && CFG != 5 && !m[i].empty(); // an empty table is dumped without its tombstones
                PBT_REQUIRE(t.phmap_load(in));
                for (u32 n = 0; n < std::min(o.b, 200u); ++n) {
                    int kk = (int)((k + n * (1 + 2 * o.c)) % (2 * nuni));
                    if (m[i].count(kk) && (o.a >> 7 & 1)) { ers(i, kk); PBT_EQ(t.erase(Conv<typename T::Key>::mk(kk)), 1u); }
                    else {
                        ins(i, kk, v);
                        if constexpr (T::M) t.emplace(Conv<typename T::Key>::mk(kk), (typename T::Val)v); else t.insert(Conv<typename T::Key>::mk(kk));
                    }
                    PBT_CHECK(!exact || t.capacity() == c[i].capacity(), "after %u further operations the loaded container has capacity %zu, the original %zu", n + 1, (size_t)t.capacity(), (size_t)c[i].capacity());
                }
                PBT_CHECK(t == c[i], "the loaded container no longer equals the original after the same operations");
                auto a = t.begin();
                auto b = c[i].begin();
                for (; exact && b != c[i].end(); ++a, ++b) PBT_CHECK(a != t.end() && kof(*a) == kof(*b) && vof(*a) == vof(*b), "the loaded container iterates differently from the original");
                break;
            }
            case oLegacy:
#if CFG != 2 && CFG != 5
            {
                LegacyOut out;
                PBT_REQUIRE(c[i].phmap_dump(out));
                PBT_REQUIRE(out.fields.size() == 3 || out.fields.size() == 6);
                std::string d = out.legacy();
                MemIn       in{ d };
                PBT_REQUIRE(c[j].phmap_load(in));
                PBT_EQ(in.pos, d.size());
                if (i != j) done(i, j);
            }
#endif
                break;
            case oMismatch:
#if CFG == 2 || CFG == 5
            {
                COther other{};
                if constexpr (T::M) other.emplace(Conv<typename T::Key>::mk(k), (typename T::Val)v); else other.insert(Conv<typename T::Key>::mk(k));
                MemOut out;
                PBT_REQUIRE(other.phmap_dump(out));
                MemIn in{ out.d };
                PBT_CHECK(!c[i].phmap_load(in), "loading a dump with another number of submaps is reported as a success");
            }
#endif
                break;
        }
    }
};
void pbt_run(const Case& cs, Ctx& ctx) {
    static bool quiet = (std::cerr.rdbuf(nullptr), true);
    (void)quiet;
    for (int i = 0; i < 3; ++i) H<C, T>::kinds[i] = cs.c(1 + i);
    {
        H<C, T> h;
        h.nuni = std::max(1u, cs.c(0));
        int n  = 0;
        for (auto& o : cs.ops) {
            ctx.opno = n++;
            h.step(o);
            for (int i = 0; i < 3; ++i) h.check(i);
        }
        ctx.nontrivial = h.trips >= 2 && h.after_erase && h.mutated;
    }
    PBT_CHECK(blocks().empty(), "%zu allocator blocks never released", blocks().size());
}
