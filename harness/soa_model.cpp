// C19: gtl::soa vs. a vector of tuples. CFG 0: <int, string, Tr, double>; CFG 1: <Tr, int>; CFG 2: <string, int, int, Big-ish>
#include "types.hpp"
#include <gtl/soa.hpp>
#include <sstream>
#ifndef CFG
    #define CFG 0
#endif
using namespace pbt;

const char* pbt_rule = "a case is a history of row operations and sorts; non-trivial: a sort permuted at least 3 rows, with a cycle longer than 2";
enum { kSorts, kCycles, kDupKeys, kThrow };
static const char* cn[]              = { "sorts", "long_cycles", "sorts_with_equal_keys", "throwing_comparators", nullptr };
const char* const* pbt_counter_names = cn;
enum { INSERT, INSERT_MANY, RESIZE, CLEAR, RESERVE, SORT, SORT_DEF, SORT_THROW, WRITE, VIEW_WRITE, COL_WRITE, COPY, MOVE, SWAPO, PRINT, NOPS };
static const char* opn[]        = { "insert", "insert_many", "resize", "clear", "reserve", "sort", "sort_default", "sort_throwing", "write_row", "write_view", "write_column",
                                    "copy", "move", "swap", "print" };
const char* const* pbt_op_names = opn;
int                pbt_num_ops  = NOPS;
void pbt_gen(Rng& r, Case& c) {
    u32 n    = 3 + r.skewed(6);
    u32 keys = r.range(1, 3);
    c.cfg    = { keys == 1 ? 3u : keys == 2 ? 40u : 1000000u };
    for (u32 i = 0; i < n; ++i)
        c.ops.push_back({ r.chance(1, 3) ? (u32)INSERT_MANY : r.below(NOPS), r.u(), r.u(), r.u(), r.u() });
}
template<>
struct pbt::Conv<char> {
    static char mk(int i) { return (char)i; }
    static int  un(char c) { return (unsigned char)c; }
};

#if CFG == 0
using Soa = gtl::soa<int, std::string, TK, double>;
using Row = std::tuple<int, std::string, TK, double>;
#elif CFG == 1
using Soa = gtl::soa<TK, int>;
using Row = std::tuple<TK, int>;
#else
using Soa = gtl::soa<std::string, long, short, Big, char>;
using Row = std::tuple<std::string, long, short, Big, char>;
#endif
static constexpr size_t N = std::tuple_size_v<Row>;
template<size_t I>
using Col = std::tuple_element_t<I, Row>;

namespace pbt {
inline std::ostream& operator<<(std::ostream& o, const Big& b) { return o << b.a[0]; }
inline std::ostream& operator<<(std::ostream& o, const TK& b) { return o << b.get(); }
}

template<class>
struct H {
    Soa              s, s2;
    std::vector<Row> m, m2;
    bool             nt = false;

    template<size_t... I>
    static Row mkrow(u32 seed, u32 mod, std::index_sequence<I...>) {
        return Row(Conv<Col<I>>::mk((int)(mix64(seed * 31 + I) % mod % 100000))...);
    }
    static Row mk(u32 seed, u32 mod) { return mkrow(seed, mod ? mod : 1, std::make_index_sequence<N>{}); }

    template<size_t... I>
    void ins(const Row& r, std::index_sequence<I...>) {
        s.insert(std::get<I>(r)...);
    }
    template<size_t... I>
    static void cmp_row(const Soa& s, Soa& ns, const std::vector<Row>& m, size_t i, std::index_sequence<I...>) {
        auto t  = s[i];
        auto t2 = ns[i];
        auto v  = s.template view<I...>(i);
        auto v2 = ns.template view<(N - 1 - I)...>(i);
        (..., [&] {
            PBT_CHECK(std::get<I>(t) == std::get<I>(m[i]), "row %zu column %zu differs", i, I);
            PBT_REQUIRE(&std::get<I>(t) == &s.template get_column<I>()[i]);
            PBT_REQUIRE(&std::get<I>(t2) == &s.template get_column<I>()[i]);
            PBT_REQUIRE(&std::get<I>(v) == &s.template get_column<I>()[i]);
            PBT_REQUIRE(&std::get<N - 1 - I>(v2) == &s.template get_column<I>()[i]);
        }());
    }
    template<size_t... I>
    static void sizes(const Soa& s, size_t n, std::index_sequence<I...>) {
        (..., [&] { PBT_CHECK(s.template get_column<I>().size() == n, "column %zu has %zu rows, expected %zu", I, s.template get_column<I>().size(), n); }());
    }
    void check(Soa& s, const std::vector<Row>& m) {
        PBT_EQ(s.size(), m.size());
        PBT_EQ(s.empty(), m.empty());
        sizes(s, m.size(), std::make_index_sequence<N>{});
        for (size_t i = 0; i < m.size(); ++i)
            cmp_row(s, s, m, i, std::make_index_sequence<N>{});
    }
    struct Thrown {};
    template<class T>
    static int key5(const T& t) {
        if constexpr (std::is_same_v<T, Big>)
            return (int)(t.a[0] % 5);
        else
            return Conv<T>::un(t) % 5;
    }
    template<size_t I>
    void sort(const Op& o, int mode) {
        std::vector<size_t> perm(m.size());
        for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
        u32  how  = mode == 1 ? 0 : o.c % 4;
        auto less = [how](const Col<I>& a, const Col<I>& b) {
            switch (how) {
                case 0: return a < b;
                case 1: return b < a;
                case 2: return key5(a) < key5(b);
                default: return false; // all equivalent
            }
        };
        if (mode == 2) { // comparator throws after some calls: no row may be lost or torn
            note(kThrow);
            long left = o.d % 40;
            bool thrown = false;
            try {
                s.template sort_by_field<I>([&](const Col<I>& a, const Col<I>& b) {
                    if (left-- == 0) throw Thrown();
                    return less(a, b);
                });
            } catch (Thrown&) {
                thrown = true;
            }
            if (thrown) {
                // rows must be the same rows (in whatever order)
                PBT_EQ(s.size(), m.size());
                sizes(s, m.size(), std::make_index_sequence<N>{});
                std::vector<Row> rows;
                for (size_t i = 0; i < m.size(); ++i) rows.push_back(grab(i, std::make_index_sequence<N>{}));
                auto a = rows, b = m;
                std::sort(a.begin(), a.end());
                std::sort(b.begin(), b.end());
                PBT_CHECK(a == b, "a comparator that threw left other rows behind");
                m = rows;
                return;
            }
        } else if (mode == 1)
            s.template sort_by_field<I>();
        else
            s.template sort_by_field<I>(less);
        std::stable_sort(perm.begin(), perm.end(), [&](size_t a, size_t b) { return less(std::get<I>(m[a]), std::get<I>(m[b])); });
        note(kSorts);
        size_t moved = 0, longc = 0;
        bool   dup = false;
        for (size_t i = 0; i < perm.size(); ++i) {
            if (perm[i] != i) ++moved;
            if (perm[i] != i && perm[perm[i]] != i) longc = 1;
            if (i && !less(std::get<I>(m[perm[i - 1]]), std::get<I>(m[perm[i]]))) dup = true;
        }
        if (dup) note(kDupKeys);
        if (longc) note(kCycles);
        if (moved >= 3 && longc) nt = true;
        std::vector<Row> nm;
        for (size_t p : perm) nm.push_back(m[p]);
        m = std::move(nm);
    }
    template<size_t... I>
    Row grab(size_t i, std::index_sequence<I...>) {
        return Row(s.template get_column<I>()[i]...);
    }
    template<size_t... I>
    void sort_any(const Op& o, int mode, std::index_sequence<I...>) {
        size_t f = o.a % N;
        (..., (f == I ? sort<I>(o, mode) : void()));
    }
    template<size_t... I>
    void view_write(size_t row, const Row& r, u32 col, std::index_sequence<I...>) {
        (..., [&] {
            if (col == I) {
                std::get<0>(s.template view<I>(row)) = std::get<I>(r);
                std::get<I>(m[row])                  = std::get<I>(r);
            }
        }());
    }
    template<size_t... I>
    void col_write(size_t row, const Row& r, u32 col, std::index_sequence<I...>) {
        (..., [&] {
            if (col == I) {
                s.template get_column<I>()[row] = std::get<I>(r);
                std::get<I>(m[row])             = std::get<I>(r);
            }
        }());
    }
    template<size_t... I>
    static void pr(std::ostream& os, const Row& r, std::index_sequence<I...>) {
        (..., (os << (I == 0 ? "" : ", ") << std::get<I>(r)));
    }
    void op(const Op& o, const Case& c) {
        u32 mod = c.c(0);
        switch (o.code % NOPS) {
            case INSERT: {
                Row r = mk(o.a, mod);
                ins(r, std::make_index_sequence<N>{});
                m.push_back(r);
                break;
            }
            case INSERT_MANY:
                for (u32 i = o.b % 70; i-- > 0 && m.size() < 400;) {
                    Row r = mk(o.a + i, mod);
                    ins(r, std::make_index_sequence<N>{});
                    m.push_back(r);
                }
                break;
            case RESIZE: {
                size_t n = o.a % 140;
                s.resize(n);
                m.resize(n);
                break;
            }
            case CLEAR:
                if (o.a % 4) break;
                s.clear();
                m.clear();
                break;
            case RESERVE: s.reserve(o.a % 300); break;
            case SORT: sort_any(o, 0, std::make_index_sequence<N>{}); break;
            case SORT_DEF: sort_any(o, 1, std::make_index_sequence<N>{}); break;
            case SORT_THROW: sort_any(o, 2, std::make_index_sequence<N>{}); break;
            case WRITE:
                if (m.empty()) break;
                {
                    size_t i = o.a % m.size();
                    Row    r = mk(o.b, mod);
                    s[i]     = r;
                    m[i]     = r;
                }
                break;
            case VIEW_WRITE:
                if (m.empty()) break;
                view_write(o.a % m.size(), mk(o.b, mod), o.c % N, std::make_index_sequence<N>{});
                break;
            case COL_WRITE:
                if (m.empty()) break;
                col_write(o.a % m.size(), mk(o.b, mod), o.c % N, std::make_index_sequence<N>{});
                break;
            case COPY: s2 = s; m2 = m; break;
            case MOVE: s = std::move(s2); m = std::move(m2); s2 = Soa(); m2.clear(); break;
            case SWAPO: std::swap(s, s2); std::swap(m, m2); break;
            case PRINT: {
                std::ostringstream a, b;
                a << s;
                b << "soa {\n";
                for (auto& r : m) {
                    b << "\t";
                    pr(b, r, std::make_index_sequence<N>{});
                    b << '\n';
                }
                b << "}\n";
                PBT_CHECK(a.str() == b.str(), "print differs");
                break;
            }
        }
    }
};
void pbt_run(const Case& c, Ctx& ctx) {
    {
        H<int> h;
        for (size_t i = 0; i < c.ops.size(); ++i) {
            ctx.opno = (int)i;
            h.op(c.ops[i], c);
            h.check(h.s, h.m);
        }
        h.check(h.s2, h.m2);
        ctx.nontrivial = h.nt;
    }
    PBT_EQ(TK::live, 0);
}
