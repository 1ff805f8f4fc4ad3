// C24: the standard library's thread-safety rules. A shared container is built by a generated history, then several real threads
// (under ThreadSanitizer) read it at the same time, write distinct elements of it, and mutate instances of their own.
// CFG 0 flat map, 1 node map (strings), 2 flat set, 3 parallel flat map without mutex, 4 parallel node set with a mutex, 5 btree_map, 6 btree_multimap (strings),
// 7 btree_set, 8 gtl::vector, 9 bit_vector, 10 soa, 11 caches and memoizers (own instances only), 12 parallel node map, shared mutex
#include "core.hpp"
#include <gtl/bit_vector.hpp>
#include <gtl/btree.hpp>
#include <gtl/lru_cache.hpp>
#include <gtl/memoize.hpp>
#include <gtl/phmap.hpp>
#include <gtl/phmap_dump.hpp>
#include <gtl/soa.hpp>
#include <gtl/vector.hpp>
#include <map>
#include <mutex>
#include <sched.h>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <thread>
#ifndef CFG
    #define CFG 0
#endif
using namespace pbt;

const char* pbt_rule = "A case is a history that builds a shared container, followed by 2-4 real threads (ThreadSanitizer) each running a generated program of reads of the shared container, "
                       "writes to elements only that thread uses, and arbitrary mutations of two instances of its own; every result is compared with a model. Non-trivial: two threads used the "
                       "non-empty shared container (or, for the caches, their own instances) and one mutated an instance of its own";
enum { kReads, kOwn, kElem, kCopies, kMixed };
static const char* cn[]              = { "reads_of_shared", "mutations_of_own", "element_writes", "copies_of_shared", "cases_reading_and_mutating", nullptr };
const char* const* pbt_counter_names = cn;
// build ops come first; the rest are thread ops: thread = d
enum { B_INS, B_FILL, B_ERASE, B_ERASEMANY, B_SHAPE, R_POINT, R_ITER, R_RANGE, R_META, R_COPY, R_CMP, R_EXTRA, W_ELEM, O_INS, O_FILL, O_ERASE, O_CLEAR, O_SHAPE, O_SWAP, O_MOVE, O_COPY, O_FRESH, O_CHECK, O_EXTRA, NOPS };
static const char* opn[]        = { "build_insert", "build_fill", "build_erase", "build_erase_many", "build_shape", "read_point", "read_iterate", "read_range", "read_meta", "read_copy", "read_compare",
                                    "read_extra", "write_element", "own_insert", "own_fill", "own_erase", "own_clear", "own_shape", "own_swap", "own_move", "own_copy_shared", "own_fresh", "own_check", "own_extra" };
const char* const* pbt_op_names = opn;
int                pbt_num_ops  = NOPS;
void pbt_gen(Rng& r, Case& c) {
    static const u32 unis[] = { 3, 20, 100, 600 };
    c.cfg = { r.range(2, 4), unis[r.below(4)], r.below(2) };
    u32 nb = r.chance(1, 10) ? 0 : r.range(1, 6), nt = r.chance(1, 2) ? r.range(2, 12) : r.range(12, 50);
    for (u32 i = 0; i < nb; ++i)
        c.ops.push_back({ i == 0 ? (u32)B_FILL : r.below(R_POINT), r.u() >> 4, r.skewed(8), r.u() >> 8, 0 });
    std::vector<u32> pool;
    for (u32 i = R_POINT; i < NOPS; ++i)
        if (r.chance(2, 3)) pool.push_back(i);
    pool.push_back(R_POINT);
    for (u32 i = 0; i < nt; ++i)
        c.ops.push_back({ pool[r.below(pool.size())], r.u() >> 4, r.skewed(7), r.u() >> 8, r.below(4) });
}

// ---- values ----------------------------------------------------------------------------
template<class T>
struct V {
    static T   mk(int i) { return T(i); }
    static int un(const T& t) { return (int)t; }
};
template<>
struct V<std::string> {
    static std::string mk(int i) { return std::string(i % 3 == 0 ? "a long enough key to live on the heap " : "k") + std::to_string(i); }
    static int         un(const std::string& s) {
        size_t q = s.size();
        while (q && isdigit((unsigned char)s[q - 1])) --q;
        return atoi(s.c_str() + q);
    }
};
struct Sink {
    std::string d;
    bool saveBinary(const void* p, size_t n) { d.append((const char*)p, n); return true; }
    template<class X> bool saveBinary(const X& v) { return saveBinary(&v, sizeof v); }
};
struct Source {
    const std::string& d;
    size_t             at = 0;
    bool loadBinary(void* p, size_t n) { if (at + n > d.size()) return false; memcpy(p, d.data() + at, n); at += n; return true; }
    template<class X> bool loadBinary(X* v) { return loadBinary(v, sizeof *v); }
};

static thread_local int  t_self = 0;     // which thread runs
static thread_local bool t_own  = false; // it is using an instance of its own
static u32              g_nt   = 2; // set before the threads start
static bool             g_elem = false; // this case writes elements of the shared container
struct Stat { u64 reads = 0, own = 0, elem = 0, copies = 0; };

#if CFG <= 7 || CFG == 12
    #if CFG == 0
using Cont = gtl::flat_hash_map<int, long>;
using K = int; using W = long; static constexpr bool Map = true, Multi = false, Tree = false, Par = false, Dump = true;
    #elif CFG == 1
using Cont = gtl::node_hash_map<std::string, int>;
using K = std::string; using W = int; static constexpr bool Map = true, Multi = false, Tree = false, Par = false, Dump = false;
    #elif CFG == 2
using Cont = gtl::flat_hash_set<int>;
using K = int; using W = int; static constexpr bool Map = false, Multi = false, Tree = false, Par = false, Dump = true;
    #elif CFG == 3
using Cont = gtl::parallel_flat_hash_map<int, long, gtl::Hash<int>, gtl::EqualTo<int>, std::allocator<std::pair<const int, long>>, 2>;
using K = int; using W = long; static constexpr bool Map = true, Multi = false, Tree = false, Par = true, Dump = true;
    #elif CFG == 4
using Cont = gtl::parallel_node_hash_set<std::string, gtl::Hash<std::string>, gtl::EqualTo<std::string>, std::allocator<std::string>, 2, std::mutex>;
using K = std::string; using W = int; static constexpr bool Map = false, Multi = false, Tree = false, Par = true, Dump = false;
    #elif CFG == 12
using Cont = gtl::parallel_node_hash_map<int, std::string, gtl::Hash<int>, gtl::EqualTo<int>, std::allocator<std::pair<const int, std::string>>, 2, std::shared_mutex>;
using K = int; using W = std::string; static constexpr bool Map = true, Multi = false, Tree = false, Par = true, Dump = false;
    #elif CFG == 5
using Cont = gtl::btree_map<int, int>;
using K = int; using W = int; static constexpr bool Map = true, Multi = false, Tree = true, Par = false, Dump = false;
    #elif CFG == 6
using Cont = gtl::btree_multimap<std::string, int>;
using K = std::string; using W = int; static constexpr bool Map = true, Multi = true, Tree = true, Par = false, Dump = false;
    #else
using Cont = gtl::btree_set<int>;
using K = int; using W = int; static constexpr bool Map = false, Multi = false, Tree = true, Par = false, Dump = false;
    #endif
// a model element: key -> values (sorted, for multi containers; duplicates of a key carry distinct values)
using M = std::map<int, std::multiset<int>>;
template<class C>
struct H {
    static int kof(typename C::const_reference e) {
        if constexpr (Map) return V<K>::un(e.first);
        else return V<K>::un(e);
    }
    static int vof(typename C::const_reference e) {
        if constexpr (Map) return V<W>::un(e.second);
        else return 0;
    }
    static bool mine(int k) { return !g_elem || t_own || (u32)k % g_nt == (u32)t_self; } // may I look at the mapped value of k?
    static size_t msize(const M& m) { size_t n = 0; for (auto& [k, s] : m) n += s.size(); return n; }
    static bool ins(C& c, M& m, int k, int v) {
        if constexpr (!Map) v = 0;
        bool fresh = !m.count(k);
        if constexpr (Map && Multi) {
            c.insert({ V<K>::mk(k), V<W>::mk(v) });
            m[k].insert(v);
            return true;
        } else {
            bool done;
            if constexpr (Map) done = c.try_emplace(V<K>::mk(k), V<W>::mk(v)).second;
            else done = c.insert(V<K>::mk(k)).second;
            PBT_EQ(done, fresh);
            if (fresh) m[k].insert(v);
            return fresh;
        }
    }
    static void del(C& c, M& m, int k) {
        auto it = m.find(k);
        size_t n = it == m.end() ? 0 : it->second.size();
        PBT_EQ((size_t)c.erase(V<K>::mk(k)), n);
        if (n) m.erase(it);
    }
    // everything: CC is C or const C
    template<class CC>
    static void iterate(CC& c, const M& m) {
        size_t n = 0;
        std::map<int, size_t> seen;
        int prev = -1;
        std::string prevk;
        for (auto it = c.begin(), e = c.end(); it != e; ++it) {
            int k = kof(*it);
            auto f = m.find(k);
            PBT_CHECK(f != m.end(), "iteration yields key %d, which is not in the container", k);
            if (mine(k)) PBT_CHECK(f->second.count(vof(*it)), "key %d has value %d", k, vof(*it));
            ++seen[k];
            ++n;
            if constexpr (Tree && std::is_same_v<K, int>) { PBT_CHECK(Multi ? k >= prev : k > prev, "iteration out of order at %d", k); prev = k; }
        }
        PBT_EQ(n, msize(m));
        for (auto& [k, s] : m) PBT_EQ(seen[k], s.size());
        PBT_EQ(c.size(), n);
    }
    template<class CC>
    static void point(CC& c, const M& m, int k) {
        K key = V<K>::mk(k);
        auto f = m.find(k);
        size_t n = f == m.end() ? 0 : f->second.size();
        PBT_EQ((size_t)c.count(key), n);
        PBT_EQ(c.contains(key), n > 0);
        auto it = c.find(key);
        PBT_CHECK((it != c.end()) == (n > 0), "find(%d): found %d, expected %zu elements", k, (int)(it != c.end()), n);
        if (n) {
            PBT_EQ(kof(*it), k);
            if (mine(k)) PBT_CHECK(f->second.count(vof(*it)), "key %d has value %d", k, vof(*it));
            if constexpr (Map && !Multi) { if (mine(k)) PBT_EQ(V<W>::un(c.at(key)), *f->second.begin()); else (void)&c.at(key); }
        }
    }
    template<class CC>
    static void range(CC& c, const M& m, int k) {
        K key = V<K>::mk(k);
        auto f = m.find(k);
        size_t n = f == m.end() ? 0 : f->second.size(), q = 0;
        if constexpr (!Par) {
            auto [a, b] = c.equal_range(key);
            for (; a != b; ++a, ++q) PBT_EQ(kof(*a), k);
            PBT_EQ(q, n);
        }
        if constexpr (Tree) {
            auto lo = c.lower_bound(key);
            auto hi = c.upper_bound(key);
            if constexpr (std::is_same_v<K, int>) {
                auto ml = m.lower_bound(k), mh = m.upper_bound(k);
                PBT_CHECK((lo == c.end()) == (ml == m.end()) && (hi == c.end()) == (mh == m.end()), "bounds of %d", k);
                if (lo != c.end()) PBT_EQ(kof(*lo), ml->first);
                if (hi != c.end()) PBT_EQ(kof(*hi), mh->first);
            }
            size_t back = 0;
            for (auto it = c.rbegin(); it != c.rend(); ++it) back += m.count(kof(*it));
            PBT_EQ(back, msize(m));
        }
    }
    static void meta(C& nc, const M& m) {
        const C& c = nc;
        PBT_EQ(c.size(), msize(m));
        PBT_EQ(c.empty(), m.empty());
        PBT_EQ(c.begin() == c.end(), m.empty());
        (void)c.max_size();
        (void)c.get_allocator();
        if constexpr (Tree) {
            (void)c.key_comp(); (void)c.value_comp(); c.verify();
        } else {
            PBT_REQUIRE(c.bucket_count() >= c.size());
            PBT_REQUIRE(c.capacity() >= c.size());
            (void)c.load_factor(); (void)c.max_load_factor(); (void)c.hash_function(); (void)c.key_eq();
        }
    }
    static void extra(C& nc, const M& m, int k) {
        const C& c = nc;
        K key = V<K>::mk(k);
        size_t n = m.count(k);
        (void)n; (void)key;
        if constexpr (!Tree) {
            auto h = c.hash(key);
            PBT_EQ(c.contains(key, h), n > 0);
            nc.prefetch(key);
            PBT_EQ(nc.find(key, h) != nc.end(), n > 0);
        }
        if constexpr (Par) {
            size_t q = 0, found = 0;
            c.for_each([&](typename C::const_reference e) { q += m.count(kof(e)); });
            PBT_EQ(q, msize(m));
            bool r = c.if_contains(key, [&](typename C::const_reference e) { found += kof(e) == k; });
            PBT_EQ(r, n > 0);
            PBT_EQ(found, n);
            q = 0;
            for (size_t i = 0; i < C::subcnt(); ++i) c.with_submap(i, [&](const auto& set) { q += set.size(); });
            PBT_EQ(q, msize(m));
        }
        if constexpr (Dump) {
            if (g_elem) return; // a dump reads every value
            Sink   o;
            PBT_REQUIRE(c.phmap_dump(o));
            Source in{ o.d };
            C      d;
            PBT_REQUIRE(d.phmap_load(in));
            iterate((const C&)d, m);
        }
    }
    struct Own { C c[2]; M m[2]; };
    static void copy(C& shared, const M& m, C& to, M& tm) {
        to = (const C&)shared;
        tm = m;
    }
    static void build(C& c, M& m, const Op& o, u32 uni) {
        switch (o.code) {
        case B_INS: ins(c, m, o.a % uni, o.c % 1000); break;
        case B_FILL: for (u32 i = 0; i < o.b; ++i) ins(c, m, (o.a + i * 7) % uni, (o.c + i) % 1000); break;
        case B_ERASE: del(c, m, o.a % uni); break;
        case B_ERASEMANY: for (u32 i = 0; i < o.b; ++i) del(c, m, (o.a + i * 3) % uni); break;
        default: shape(c, m, o); break;
        }
    }
    static void shape(C& c, M& m, const Op& o) {
        if constexpr (!Tree) {
            if (o.c % 3 == 0) c.rehash(0);
            else if (o.c % 3 == 1) c.reserve(o.b);
            else c.rehash(o.b * 2);
        } else {
            if (o.c % 2) { C t(std::move(c)); c = std::move(t); }
            else { C t(c); c.swap(t); }
        }
    }
    static void run(C& sh, const M& sm, M& over, Own& w, const Op& o, u32 uni, Stat& st) {
        int k = o.a % uni;
        C&  c = w.c[o.c % 2];
        M&  m = w.m[o.c % 2];
        C&  c2 = w.c[1 - o.c % 2];
        M&  m2 = w.m[1 - o.c % 2];
        bool nonconst = o.c & 4;
        if (o.code >= R_POINT && o.code <= R_EXTRA) ++st.reads;
        if (o.code >= O_INS) ++st.own;
        switch (o.code) {
        case R_POINT: for (u32 i = 0; i <= o.b % 16; ++i) { if (nonconst) point(sh, over, (k + i) % (int)uni); else point((const C&)sh, over, (k + i) % (int)uni); } break;
        case R_ITER: if (nonconst) iterate(sh, over); else iterate((const C&)sh, over); break;
        case R_RANGE: if (nonconst) range(sh, over, k); else range((const C&)sh, over, k); break;
        case R_META: meta(sh, over); break;
        case R_COPY: if (!g_elem) { ++st.copies; C t((const C&)sh); iterate(t, sm); } break;
        case R_CMP:
            if (!g_elem) {
                PBT_REQUIRE((const C&)sh == (const C&)sh);
                PBT_EQ((const C&)sh == c, sm == m);
                PBT_EQ(c != (const C&)sh, !(sm == m));
                if constexpr (Tree) (void)(c < (const C&)sh);
            }
            break;
        case R_EXTRA: extra(sh, over, k); break;
        case W_ELEM:
            if constexpr (Map)
                if (g_elem)
                    for (u32 i = 0; i <= o.b; ++i) {
                        int kk = (k + i) % uni;
                        if (!mine(kk) || !over.count(kk)) continue;
                        ++st.elem;
                        auto it = sh.find(V<K>::mk(kk));
                        auto& s = over[kk];
                        s.erase(s.find(vof(*it)));
                        int nv = (o.c + i) % 1000;
                        it->second = V<W>::mk(nv);
                        s.insert(nv);
                    }
            break;
        case O_INS: ins(c, m, k, o.b); break;
        case O_FILL: for (u32 i = 0; i < o.b; ++i) ins(c, m, (k + i * 5) % uni, i); break;
        case O_ERASE: for (u32 i = 0; i <= o.b % 32; ++i) del(c, m, (k + i) % uni); break;
        case O_CLEAR: c.clear(); m.clear(); break;
        case O_SHAPE: shape(c, m, o); break;
        case O_SWAP: c.swap(c2); m.swap(m2); break;
        case O_MOVE: c = std::move(c2); c2 = C(); m = std::move(m2); m2.clear(); break;
        case O_COPY: if (!g_elem) { ++st.copies; copy(sh, sm, c, m); } break;
        case O_FRESH: c = C(); m.clear(); point(c, m, k); iterate(c, m); range(c, m, k); del(c, m, k); break;
        case O_CHECK: iterate(c, m); point(c, m, k); break;
        default:
            if constexpr (!Multi) {
                c.merge(c2);
                for (auto it = m2.begin(); it != m2.end();) if (m.insert({ it->first, it->second }).second) it = m2.erase(it); else ++it;
                iterate(c2, m2);
            } else {
                std::swap(c, c2);
                m.swap(m2);
            }
            iterate(c, m);
        }
    }
    static bool nonempty(const M& m) { return !m.empty(); }
    static void fin(C& c, const M& m) { // no thread runs any more: every value may be looked at
        bool g = g_elem; g_elem = false;
        iterate(c, m);
        g_elem = g;
    }
    static void join(M& all, const M& over, u32 t) { // take over what thread t wrote
        for (auto& [k, s] : over) if ((u32)k % g_nt == t) all[k] = s;
    }
};
#elif CFG == 8
using Cont = gtl::vector<std::string>;
using M = std::vector<std::string>;
template<class C>
struct H {
    struct Own { C c[2]; M m[2]; };
    static bool mine(size_t i) { return !g_elem || t_own || i % g_nt == (u32)t_self; }
    static std::string mk(u32 x) { return V<std::string>::mk((int)(x % 1000)); }
    static void all(const C& c, const M& m) {
        PBT_EQ(c.size(), m.size());
        size_t i = 0;
        for (auto& s : c) { if (mine(i)) PBT_CHECK(s == m[i], "element %zu differs", i); ++i; }
        PBT_EQ(i, m.size());
    }
    static void mut(C& c, M& m, u32 kind, const Op& o) {
        switch (kind % 8) {
        case 0: c.push_back(mk(o.a)); m.push_back(mk(o.a)); break;
        case 1: for (u32 i = 0; i < o.b; ++i) { c.emplace_back(mk(o.a + i)); m.emplace_back(mk(o.a + i)); } break;
        case 2: { size_t p = o.a % (m.size() + 1); c.insert(c.begin() + p, mk(o.c)); m.insert(m.begin() + p, mk(o.c)); } break;
        case 3: if (!m.empty()) { size_t p = o.a % m.size(); c.erase(c.begin() + p); m.erase(m.begin() + p); } break;
        case 4: { size_t p = o.a % (m.size() + 1); c.insert(c.begin() + p, o.b % 40, mk(o.c)); m.insert(m.begin() + p, o.b % 40, mk(o.c)); } break;
        case 5: c.resize(o.b); m.resize(o.b); break;
        case 6: c.reserve(o.b); c.shrink_to_fit(); break;
        default: if (!m.empty()) { c.pop_back(); m.pop_back(); } break;
        }
    }
    static void build(C& c, M& m, const Op& o, u32) { mut(c, m, o.code == B_FILL ? 1 : o.c, o); }
    static void run(C& sh, const M& sm, M& over, Own& w, const Op& o, u32, Stat& st) {
        C& c = w.c[o.c % 2]; M& m = w.m[o.c % 2]; C& c2 = w.c[1 - o.c % 2]; M& m2 = w.m[1 - o.c % 2];
        const C& cs = sh;
        if (o.code >= R_POINT && o.code <= R_EXTRA) ++st.reads;
        if (o.code >= O_INS) ++st.own;
        size_t n = over.size(), i = n ? o.a % n : 0;
        switch (o.code) {
        case R_POINT: if (n && mine(i)) { PBT_REQUIRE(cs[i] == over[i]); PBT_REQUIRE(sh[i] == over[i]); PBT_REQUIRE(cs.at(i) == over[i]); PBT_REQUIRE(sh.data()[i] == over[i]); } break;
        case R_ITER: all(cs, over); break;
        case R_RANGE: { size_t q = 0; for (auto it = sh.rbegin(); it != sh.rend(); ++it) ++q; PBT_EQ(q, n); if (n) { (void)&sh.front(); (void)&cs.back(); } } break;
        case R_META: PBT_EQ(cs.size(), n); PBT_EQ(cs.empty(), n == 0); PBT_REQUIRE(cs.capacity() >= n); PBT_EQ((size_t)(sh.end() - sh.begin()), n); break;
        case R_COPY: if (!g_elem) { ++st.copies; C t(cs); all(t, sm); C u(cs.begin(), cs.end()); PBT_REQUIRE(u == cs); } break;
        case R_CMP: if (!g_elem) { PBT_EQ(cs == c, sm == m); PBT_EQ(cs < c, sm < m); } break;
        case R_EXTRA: if (!g_elem && n) { c.push_back(cs[i]); m.push_back(over[i]); } break;
        case W_ELEM: if (g_elem) for (u32 q = 0; q <= o.b && n; ++q) { size_t p = (i + q) % n; if (!mine(p)) continue; ++st.elem; over[p] = mk(o.c + q); (q & 1 ? sh[p] : *(sh.begin() + p)) = mk(o.c + q); } break;
        case O_CLEAR: c.clear(); m.clear(); break;
        case O_SWAP: c.swap(c2); m.swap(m2); break;
        case O_MOVE: c = std::move(c2); m = std::move(m2); c2.clear(); m2.clear(); break;
        case O_COPY: if (!g_elem) { ++st.copies; c = cs; m = sm; } break;
        case O_FRESH: c = C(); m.clear(); PBT_REQUIRE(c.begin() == c.end()); break;
        case O_CHECK: all(c, m); break;
        default: mut(c, m, o.c >> 1, o);
        }
    }
    static bool nonempty(const M& m) { return !m.empty(); }
    static void fin(C& c, const M& m) { PBT_EQ(c.size(), m.size()); for (size_t q = 0; q < m.size(); ++q) PBT_CHECK(c[q] == m[q], "element %zu differs at the end", q); }
    static void join(M& allm, const M& over, u32 t) { for (size_t q = t; q < over.size(); q += g_nt) allm[q] = over[q]; }
};
#elif CFG == 9
using Cont = gtl::bit_vector;
using M = std::vector<bool>;
template<class C>
struct H {
    struct Own { C c[2]; M m[2]; };
    static void all(const C& c, const M& m) {
        PBT_EQ(c.size(), m.size());
        for (size_t i = 0; i < m.size(); ++i) PBT_CHECK(c[i] == m[i], "bit %zu differs", i);
        PBT_EQ(c.count(), (size_t)std::count(m.begin(), m.end(), true));
    }
    static void mut(C& c, M& m, u32 kind, const Op& o) {
        size_t n = m.size(), i = n ? o.a % n : 0;
        switch (kind % 7) {
        case 0: if (n) { c.set(i); m[i] = true; } break;
        case 1: for (u32 q = 0; q < o.b && n; ++q) { size_t p = (i + q * 5) % n; c.set(p, (o.c >> (q % 20)) & 1); m[p] = (o.c >> (q % 20)) & 1; } break;
        case 2: c.resize(o.b * 3, o.c & 1); m.resize(o.b * 3, o.c & 1); break;
        case 3: c.flip(); m.flip(); break;
        case 4: if (n) { c.reset(i); m[i] = false; } break;
        case 5: { size_t s = o.b % (n + 1); c <<= s; M t(n); for (size_t q = 0; q + s < n; ++q) t[q] = m[q + s]; m = t; } break;
        default: if (n) { size_t l = i + o.b % (n - i + 1); c.view(i, l).set(); for (size_t q = i; q < l; ++q) m[q] = true; } break;
        }
    }
    static void build(C& c, M& m, const Op& o, u32) {
        if (o.code == B_FILL) { c.resize(m.size() + o.b * 3); m.resize(m.size() + o.b * 3); }
        mut(c, m, o.code == B_FILL ? 1 : o.c, o);
    }
    static void run(C& sh, const M& sm, M&, Own& w, const Op& o, u32, Stat& st) {
        C& c = w.c[o.c % 2]; M& m = w.m[o.c % 2]; C& c2 = w.c[1 - o.c % 2]; M& m2 = w.m[1 - o.c % 2];
        const C& cs = sh;
        if (o.code >= R_POINT && o.code <= R_EXTRA) ++st.reads;
        if (o.code >= O_INS) ++st.own;
        size_t n = sm.size(), i = n ? o.a % n : 0;
        switch (o.code) {
        case R_POINT: if (n) { PBT_EQ((bool)cs[i], (bool)sm[i]); PBT_EQ((bool)sh.test(i), (bool)sm[i]); } break;
        case R_ITER: all(cs, sm); break;
        case R_RANGE: if (n) { size_t l = i + o.b % (n - i + 1); auto v = cs.view(i, l); size_t e = (size_t)std::count(sm.begin() + i, sm.begin() + l, true); PBT_EQ(v.count(), e); PBT_EQ(v.any(), e > 0); PBT_EQ(v.every(), e == l - i); auto u = sh.view(i, l); PBT_REQUIRE(u == v); PBT_EQ(u.find_first() == C::npos, e == 0); } break;
        case R_META: { size_t e = (size_t)std::count(sm.begin(), sm.end(), true); PBT_EQ(cs.size(), n); PBT_EQ(cs.any(), e > 0); PBT_EQ(cs.every(), e == n); PBT_EQ(cs.none(), e == 0); auto f = std::find(sm.begin(), sm.end(), true); PBT_EQ(cs.find_first(), f == sm.end() ? C::npos : (size_t)(f - sm.begin())); (void)cs.to_ullong(); } break;
        case R_COPY: { ++st.copies; C t(cs); all(t, sm); C u = ~cs; if (n) PBT_EQ((bool)u[i], !sm[i]); PBT_REQUIRE((cs | cs) == cs); PBT_REQUIRE((cs ^ cs).none()); } break;
        case R_CMP: PBT_EQ(cs == c, sm == m); PBT_REQUIRE(cs.contains(cs)); PBT_EQ(std::hash<C>()(cs), std::hash<C>()(C(cs))); break;
        case R_EXTRA: { std::ostringstream s; s << cs; PBT_REQUIRE(s.str() == (std::string)cs); if (n == m.size()) { c |= cs; for (size_t q = 0; q < n; ++q) m[q] = m[q] || sm[q]; } } break;
        case W_ELEM: break;
        case O_CLEAR: c.reset(); m.assign(m.size(), false); break;
        case O_SWAP: std::swap(c, c2); m.swap(m2); break;
        case O_MOVE: c = std::move(c2); m = std::move(m2); c2 = C(); m2.clear(); break;
        case O_COPY: ++st.copies; c = cs; m = sm; break;
        case O_FRESH: c = C(); m.clear(); all(c, m); break;
        case O_CHECK: all(c, m); break;
        case O_FILL: c.resize(m.size() + o.b); m.resize(m.size() + o.b); mut(c, m, 1, o); break;
        default: mut(c, m, o.c >> 1, o);
        }
    }
    static bool nonempty(const M& m) { return !m.empty(); }
    static void fin(C& c, const M& m) { all(c, m); }
    static void join(M&, const M&, u32) {}
};
#elif CFG == 10
using Cont = gtl::soa<int, std::string, long>;
using Row = std::tuple<int, std::string, long>;
using M = std::vector<Row>;
template<class C>
struct H {
    struct Own { C c[2]; M m[2]; };
    static bool mine(size_t i) { return !g_elem || t_own || i % g_nt == (u32)t_self; }
    static Row  mk(u32 x) { return Row((int)(x % 17), V<std::string>::mk((int)(x % 331)), (long)(x % 7)); }
    static void add(C& c, M& m, u32 x) { Row r = mk(x); c.insert(std::get<0>(r), std::get<1>(r), std::get<2>(r)); m.push_back(r); }
    static void all(const C& c, const M& m, bool any = false) {
        PBT_EQ(c.size(), m.size());
        for (size_t i = 0; i < m.size(); ++i)
            if (any || mine(i)) {
                auto t = c[i];
                PBT_CHECK(std::get<0>(t) == std::get<0>(m[i]) && std::get<1>(t) == std::get<1>(m[i]) && std::get<2>(t) == std::get<2>(m[i]), "row %zu differs", i);
                auto v = c.template view<2, 0>(i);
                PBT_REQUIRE(std::get<0>(v) == std::get<2>(m[i]) && std::get<1>(v) == std::get<0>(m[i]));
            }
    }
    template<size_t I>
    static void srt(C& c, M& m, bool rev) {
        if (rev) c.template sort_by_field<I>([](const auto& a, const auto& b) { return b < a; });
        else c.template sort_by_field<I>();
        // whole rows move together, ordered by the field
        std::stable_sort(m.begin(), m.end(), [&](const Row& a, const Row& b) { return rev ? std::get<I>(b) < std::get<I>(a) : std::get<I>(a) < std::get<I>(b); });
        M now;
        for (size_t i = 0; i < c.size(); ++i) { auto t = c[i]; now.push_back(Row(std::get<0>(t), std::get<1>(t), std::get<2>(t))); }
        for (size_t i = 1; i < now.size(); ++i) PBT_CHECK(!(rev ? std::get<I>(now[i - 1]) < std::get<I>(now[i]) : std::get<I>(now[i]) < std::get<I>(now[i - 1])), "rows %zu and %zu are out of order", i - 1, i);
        M a = now, b = m;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        PBT_CHECK(a == b, "sorting lost, duplicated or mixed up rows");
        m = now;
    }
    static void mut(C& c, M& m, u32 kind, const Op& o) {
        switch (kind % 7) {
        case 0: add(c, m, o.a); break;
        case 1: for (u32 i = 0; i < o.b; ++i) add(c, m, o.a + i * 13); break;
        case 2: c.resize(o.b); m.resize(o.b); break;
        case 3: srt<0>(c, m, o.a & 1); break;
        case 4: srt<1>(c, m, o.a & 1); break;
        case 5: srt<2>(c, m, o.a & 1); break;
        default: c.reserve(o.b); break;
        }
    }
    static void build(C& c, M& m, const Op& o, u32) { mut(c, m, o.code == B_FILL ? 1 : o.c, o); }
    static void run(C& sh, const M& sm, M& over, Own& w, const Op& o, u32, Stat& st) {
        C& c = w.c[o.c % 2]; M& m = w.m[o.c % 2]; C& c2 = w.c[1 - o.c % 2]; M& m2 = w.m[1 - o.c % 2];
        const C& cs = sh;
        if (o.code >= R_POINT && o.code <= R_EXTRA) ++st.reads;
        if (o.code >= O_INS) ++st.own;
        size_t n = over.size(), i = n ? o.a % n : 0;
        switch (o.code) {
        case R_POINT: if (n && mine(i)) { PBT_EQ(std::get<0>(cs[i]), std::get<0>(over[i])); PBT_EQ(std::get<2>(sh[i]), std::get<2>(over[i])); PBT_REQUIRE(cs.template get_column<1>()[i] == std::get<1>(over[i])); } break;
        case R_ITER: case R_RANGE: all(cs, over); break;
        case R_META: PBT_EQ(cs.size(), n); PBT_EQ(cs.empty(), n == 0); PBT_EQ(cs.template get_column<2>().size(), n); break;
        case R_COPY: if (!g_elem) { ++st.copies; C t(cs); all(t, sm); } break;
        case R_CMP: case R_EXTRA: if (!g_elem) { std::ostringstream a, b; cs.print(a); C(cs).print(b); PBT_REQUIRE(a.str() == b.str()); } break;
        case W_ELEM: if (g_elem) for (u32 q = 0; q <= o.b && n; ++q) { size_t p = (i + q) % n; if (!mine(p)) continue; ++st.elem; std::get<0>(sh[p]) = (int)q; std::get<0>(over[p]) = (int)q; std::get<0>(sh.template view<1>(p)) = "w"; std::get<1>(over[p]) = "w"; } break;
        case O_CLEAR: c.clear(); m.clear(); break;
        case O_SWAP: std::swap(c, c2); m.swap(m2); break;
        case O_MOVE: c = std::move(c2); m = std::move(m2); c2 = C(); m2.clear(); break;
        case O_COPY: if (!g_elem) { ++st.copies; c = cs; m = sm; } break;
        case O_FRESH: c = C(); m.clear(); break;
        case O_CHECK: all(c, m, true); break;
        case O_FILL: mut(c, m, 1, o); break;
        default: mut(c, m, o.code >= O_ERASE ? 3 + o.c % 3 : o.c >> 1, o);
        }
    }
    static bool nonempty(const M& m) { return !m.empty(); }
    static void fin(C& c, const M& m) { all(c, m, true); }
    static void join(M& allm, const M& over, u32 t) { for (size_t q = t; q < over.size(); q += g_nt) allm[q] = over[q]; }
};
#else // caches: there is no shared container, only instances of one's own
struct Cont {};
struct M {};
template<class C>
struct H {
    struct Own {
        gtl::lru_cache<int, int>                                 c[2]{ 8, 8 };
        std::vector<std::pair<int, int>>                         m[2]; // least recently used first
        std::function<int(int)>                                  f = [](int x) { return x * 3 + 1; };
        gtl::memoize<int (*)(int)>                               me{ +[](int x) { return x * 5 + 2; } };
        gtl::memoize_lru<int (*)(int)>                           ml{ +[](int x) { return x * 7 + 3; }, 4 };
    };
    static void build(C&, M&, const Op&, u32) {}
    static void run(C&, const M&, M&, Own& w, const Op& o, u32 uni, Stat& st) {
        auto& c = w.c[o.c % 2];
        auto& m = w.m[o.c % 2];
        ++st.own;
        ++st.reads;
        int k = (int)(o.a % uni);
        auto at = std::find_if(m.begin(), m.end(), [&](auto& p) { return p.first == k; });
        switch (o.code % 5) {
        case 0:
        case 1: {
            int v = (int)o.b;
            c.insert(k, v);
            if (at != m.end()) m.erase(at);
            else if (m.size() == 8) m.erase(m.begin());
            m.push_back({ k, v });
        } break;
        case 2: {
            auto r = c.get(k);
            PBT_EQ((bool)r, at != m.end());
            if (r) {
                PBT_EQ(*r, at->second);
                auto p = *at;
                m.erase(at);
                m.push_back(p);
            }
        } break;
        case 3: PBT_EQ(w.me(k), k * 5 + 2); break;
        default: PBT_EQ(w.ml(k), k * 7 + 3); break;
        }
        PBT_EQ(c.size(), m.size());
    }
    static bool nonempty(const M&) { return true; }
    static void fin(C&, const M&) {}
    static void join(M&, const M&, u32) {}
};
#endif

template<int>
static void go(const Case& cs, Ctx& ctx) {
    using T = H<Cont>;
    u32 nt  = 2 + cs.c(0) % 3;
    u32 uni = std::max(1u, cs.c(1));
    g_nt    = nt;
    g_elem  = cs.c(2) % 2;
    Cont sh;
    M m;
    for (size_t i = 0; i < cs.ops.size(); ++i)
        if (cs.ops[i].code < R_POINT) {
            ctx.opno = (int)i;
            T::build(sh, m, cs.ops[i], uni);
        }
    ctx.opno = -1;
    std::vector<M>                     over(nt, m);
    std::vector<Stat>                  st(nt);
    std::vector<std::vector<const Op*>> prog(nt);
    for (auto& o : cs.ops)
        if (o.code >= R_POINT && o.code < NOPS) prog[o.d % nt].push_back(&o);
    std::atomic<u32>         ready{ 0 };
    std::vector<std::thread> th;
    for (u32 t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
            t_self = (int)t;
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < nt) sched_yield();
            typename T::Own own;
            for (auto* o : prog[t]) {
                t_own = o->code >= O_INS;
                T::run(sh, m, over[t], own, *o, uni, st[t]);
            }
        });
    for (auto& x : th) x.join();
    M all = m;
    u32 readers = 0, owners = 0;
    for (u32 t = 0; t < nt; ++t) {
        T::join(all, over[t], t);
        note(kReads, st[t].reads);
        note(kOwn, st[t].own);
        note(kElem, st[t].elem);
        note(kCopies, st[t].copies);
        readers += st[t].reads > 0 || st[t].elem > 0;
        owners += st[t].own > 0;
    }
    T::fin(sh, all);
    ctx.nontrivial = T::nonempty(m) && readers >= 2 && owners >= 1;
    if (ctx.nontrivial) note(kMixed);
}
void pbt_run(const Case& cs, Ctx& ctx) { go<0>(cs, ctx); }
