// C22. CFG 0: scope guards / scoped values (nesting, exceptions, dismissal). CFG 1: change, replace, timestamps.
// CFG 2: binary search. CFG 3: cat/slice/map. CFG 4: bit counting, byte order.
#include "types.hpp"
#include <cmath>
#include <limits>
#include <gtl/adv_utils.hpp>
#include <gtl/bits.hpp>
#include <gtl/utils.hpp>
#include <gtl/vec_utils.hpp>
#include <gtl/vector.hpp>
#ifndef CFG
    #define CFG 0
#endif
using namespace pbt;
const char* const* pbt_op_names = nullptr;
int                pbt_num_ops  = 0;

#if CFG == 0
const char* pbt_rule = "a case is a program of nested scopes with guards, scoped values, dismissals, throws and catches; non-trivial: at least one guard ran during unwinding or was dismissed";
enum { kUnwound, kDismissed, kNested };
static const char* cn[]              = { "scopes_left_by_exception", "dismissed", "max_nesting", nullptr };
const char* const* pbt_counter_names = cn;
enum { GUARD, SETUNSET, SETV_INT, SETV_STR, SETV_TR, TRY, THROW, END, ASSIGN, SETV_UP, NOPS };
void pbt_gen(Rng& r, Case& c) {
    u32 n = 4 + r.skewed(5);
    for (u32 i = 0; i < n; ++i)
        c.ops.push_back({ r.chance(1, 4) ? (u32)END : r.below(NOPS), r.u(), r.u(), r.u(), r.u() });
}
struct Thrown {};
struct Vars {
    int                  i[3] = { 1, 2, 3 };
    std::string          s[3] = { "a", "b", "a-long-string-that-does-not-fit-in-place" };
    TK                   t[3] = { 10, 20, 30 };
    std::unique_ptr<int> u[2] = { std::make_unique<int>(5), nullptr };
    std::string          snap() const {
        std::string r;
        for (int k = 0; k < 3; ++k)
            r += std::to_string(i[k]) + "," + s[k] + "," + std::to_string(t[k].get()) + ";";
        for (auto& p : u) r += p ? std::to_string(*p) : "-";
        return r;
    }
};
template<class>
struct H {
    const Case&              c;
    Vars                     v;
    std::vector<std::string> log;
    explicit H(const Case& cs)
        : c(cs) {}
    void add(const char* what, size_t id) { log.push_back(what + std::to_string(id) + " " + v.snap()); }
    // flags: a&3==0 -> constructed inactive; b&3: 0 dismissed at once, 1 dismissed at the end of the scope
    void exec(size_t& i, int depth) {
        while (i < c.ops.size()) {
            size_t    id = i;
            const Op& o  = c.ops[i++];
            g_ctx->opno  = (int)id;
            bool doit = o.a & 3, dflt = (o.a & 3) == 3 /* the default argument means active */, early = (o.b & 7) == 0, late = (o.b & 7) == 1;
            auto body = [&](auto& g) {
                if (early) g.dismiss();
                add("in", id);
                exec(i, depth + 1);
                if (late) g.dismiss();
            };
            switch (o.code % NOPS) {
                case GUARD: {
                    auto f = [&, id] { add("guard", id); };
                    if (dflt) { gtl::scoped_guard g(std::move(f)); body(g); }
                    else { gtl::scoped_guard g(std::move(f), doit); body(g); }
                    break;
                }
                case SETUNSET: {
                    auto u = [&, id] { add("unset", id); };
                    if (dflt) { gtl::scoped_set_unset<decltype(u)> g([&] { add("set", id); }, std::move(u)); body(g); }
                    else { gtl::scoped_set_unset<decltype(u)> g([&] { add("set", id); }, std::move(u), doit); body(g); }
                    break;
                }
                case SETV_INT: {
                    if (dflt) { gtl::scoped_set_value g(v.i[o.c % 3], (int)(o.d % 100)); body(g); }
                    else { gtl::scoped_set_value g(v.i[o.c % 3], (int)(o.d % 100), doit); body(g); }
                    break;
                }
                case SETV_STR: {
                    if (dflt) { gtl::scoped_set_value g(v.s[o.c % 3], Conv<std::string>::mk(o.d % 100)); body(g); }
                    else { gtl::scoped_set_value g(v.s[o.c % 3], Conv<std::string>::mk(o.d % 100), doit); body(g); }
                    break;
                }
                case SETV_TR: {
                    if (dflt) { gtl::scoped_set_value<TK> g(v.t[o.c % 3], TK(o.d % 100)); body(g); }
                    else { gtl::scoped_set_value<TK> g(v.t[o.c % 3], TK(o.d % 100), doit); body(g); }
                    break;
                }
                case SETV_UP: {
                    gtl::scoped_set_value<std::unique_ptr<int>> g(v.u[o.c % 2], std::make_unique<int>(o.d % 100), doit);
                    body(g);
                    break;
                }
                case TRY:
                    try {
                        exec(i, depth + 1);
                    } catch (Thrown&) {
                        add("caught", id);
                    }
                    break;
                case THROW:
                    if (o.a % 3 == 0) throw Thrown();
                    break;
                case END:
                    if (depth) return;
                    break;
                case ASSIGN:
                    v.i[o.c % 3] = o.d % 100;
                    v.s[o.c % 3] = Conv<std::string>::mk(o.d % 100);
                    v.t[o.c % 3] = TK(o.d % 100);
                    add("assigned", id);
                    break;
            }
            add("after", id);
        }
    }
    bool nt = false;
    // the same program, interpreted without guards: returns true when an exception leaves the scope
    bool model(size_t& i, int depth) {
        while (i < c.ops.size()) {
            size_t    id = i;
            const Op& o  = c.ops[i++];
            bool doit = o.a & 3, early = (o.b & 7) == 0, late = (o.b & 7) == 1;
            u32  code = o.code % NOPS;
            bool thrown = false;
            if (code <= SETV_TR || code == SETV_UP) {
                int                  oi = v.i[o.c % 3];
                std::string          os = v.s[o.c % 3];
                int                  ot = v.t[o.c % 3].get();
                int ou = v.u[o.c % 2] ? *v.u[o.c % 2] : -1;
                if (code == SETUNSET && doit) add("set", id);
                if (code == SETV_INT && doit) v.i[o.c % 3] = o.d % 100;
                if (code == SETV_STR && doit) v.s[o.c % 3] = Conv<std::string>::mk(o.d % 100);
                if (code == SETV_TR && doit) v.t[o.c % 3] = TK(o.d % 100);
                if (code == SETV_UP && doit) v.u[o.c % 2] = std::make_unique<int>(o.d % 100);
                add("in", id);
                note(kNested);
                thrown = model(i, depth + 1);
                bool run = doit && !early && !(late && !thrown);
                if (doit && !run) note(kDismissed), nt = true;
                if (thrown && run) note(kUnwound), nt = true;
                if (run) switch (code) {
                        case GUARD: add("guard", id); break;
                        case SETUNSET: add("unset", id); break;
                        case SETV_INT: v.i[o.c % 3] = oi; break;
                        case SETV_STR: v.s[o.c % 3] = os; break;
                        case SETV_TR: v.t[o.c % 3] = TK(ot); break;
                        case SETV_UP: v.u[o.c % 2] = ou < 0 ? nullptr : std::make_unique<int>(ou); break;
                    }
                if (thrown) return true;
            } else if (code == TRY) {
                if (model(i, depth + 1)) add("caught", id);
            } else if (code == THROW) {
                if (o.a % 3 == 0) return true;
            } else if (code == END) {
                if (depth) return false;
            } else {
                v.i[o.c % 3] = o.d % 100;
                v.s[o.c % 3] = Conv<std::string>::mk(o.d % 100);
                v.t[o.c % 3] = TK(o.d % 100);
                add("assigned", id);
            }
            add("after", id);
        }
        return false;
    }
};
void pbt_run(const Case& cs, Ctx& ctx) {
    H<int> real(cs), mod(cs);
    size_t i = 0, j = 0;
    while (i < cs.ops.size()) {
        try {
            real.exec(i, 0);
        } catch (Thrown&) {
            real.add("top", 0);
        }
    }
    while (j < cs.ops.size())
        if (mod.model(j, 0)) mod.add("top", 0);
    for (size_t k = 0; k < std::max(real.log.size(), mod.log.size()); ++k)
        PBT_CHECK(k < real.log.size() && k < mod.log.size() && real.log[k] == mod.log[k], "event %zu: got '%s', expected '%s'", k,
                  k < real.log.size() ? real.log[k].c_str() : "(nothing)", k < mod.log.size() ? mod.log[k].c_str() : "(nothing)");
    ctx.nontrivial = mod.nt;
}

#elif CFG == 1
const char* pbt_rule = "a case is a history of change/replace/timestamp operations over 6 stamps and 4 variables; non-trivial: at least one change happened and one was not a change";
static const char* cn[]              = { "changed", "unchanged", nullptr };
const char* const* pbt_counter_names = cn;
void pbt_gen(Rng& r, Case& c) {
    u32 n = 4 + r.skewed(6);
    for (u32 i = 0; i < n; ++i)
        c.ops.push_back({ r.below(14), r.u(), r.u(), r.u(), r.u() });
}
struct Prov : gtl::provides_timestamp<Prov> {
    gtl::timestamp ts{ uint64_t(0) }; // (not a new stamp: looking must not advance the clock)
    gtl::timestamp get_timestamp() const { return ts; }
};
struct Obj : gtl::timestamp {
    int         x = 0;
    std::string s;
};
template<class>
struct H {
    gtl::timestamp ts[6];
    u64            rk[6]; // rank in model time; 0 = reset
    u64            clk = 0;
    Obj            ob;
    u64            obrk;
    int            iv = 0;
    std::string    sv;
    TK             tv;
    int            mi = 0, mt = 0;
    std::string    ms;
    bool           ch = false, un = false;
    H() {
        // members were stamped in declaration order
        for (int i = 0; i < 6; ++i) rk[i] = ++clk;
        obrk = ++clk;
    }
    void rel(const gtl::timestamp& a, u64 ra, const gtl::timestamp& b, u64 rb) {
        PBT_CHECK(a.is_newer_than(b) == (ra > rb), "is_newer_than");
        PBT_CHECK(a.is_older_than(b) == (ra < rb), "is_older_than");
        PBT_CHECK((a == b) == (ra == rb), "==");
        PBT_CHECK((a < b) == (ra < rb) && (a > b) == (ra > rb), "< >");
        PBT_CHECK((a.get() < b.get()) == (ra < rb), "get()");
        PBT_CHECK((a | b) == (ra > rb ? a : b) && (b | a) == (ra > rb ? a : b), "| is not the most recent");
        PBT_CHECK(a.is_set() == (ra != 0), "is_set");
        PBT_CHECK(a.get_timestamp() == a, "get_timestamp");
    }
    void check() {
        for (int i = 0; i < 6; ++i) {
            for (int j = 0; j < 6; ++j) rel(ts[i], rk[i], ts[j], rk[j]);
            rel(ob, obrk, ts[i], rk[i]);
            Prov p;
            p.ts = ts[i];
            PBT_CHECK(p.is_newer_than(ob) == (rk[i] > obrk) && p.is_older_than(ob) == (rk[i] < obrk), "provides_timestamp comparison");
            PBT_CHECK((p | ob) == (rk[i] > obrk ? ts[i] : ob.get_timestamp()), "provides_timestamp |");
        }
        PBT_REQUIRE(iv == mi && sv == ms && tv.get() == mt);
        PBT_REQUIRE(ob.s == ms2 && ob.x == mx);
    }
    std::string ms2;
    int         mx = 0;
    void tell(bool got, bool want, const char* w) {
        PBT_CHECK(got == want, "%s reported %d, expected %d", w, got, want);
        (want ? ch : un) = true;
        note(want ? 0 : 1);
    }
    void op(const Op& o) {
        int i = o.a % 6, j = o.b % 6, x = o.c % 4;
        switch (o.code % 14) {
            case 0: ts[i].touch(); rk[i] = ++clk; break;
            case 1: ts[i].touch(ts[j]); rk[i] = rk[j]; break;
            case 2: ts[i].reset(); rk[i] = 0; break;
            case 3: ts[i] = gtl::timestamp(); rk[i] = ++clk; break;
            case 4: ts[i] = ts[j]; rk[i] = rk[j]; break;
            case 5: PBT_REQUIRE(&(ts[i] |= ts[j]) == &ts[i]); rk[i] = std::max(rk[i], rk[j]); break;
            case 6: ts[i] = ts[j] | ob; rk[i] = std::max(rk[j], obrk); break;
            case 7: {
                bool c = ob.set_with_ts(ob.x, x);
                tell(c, mx != x, "set_with_ts");
                if (mx != x) obrk = ++clk;
                mx = x;
                break;
            }
            case 8: {
                std::string n = Conv<std::string>::mk(x);
                bool        c = ob.set_with_ts(ob.s, n);
                tell(c, ms2 != n, "set_with_ts");
                if (ms2 != n) obrk = ++clk;
                ms2 = n;
                break;
            }
            case 9: tell(gtl::change(iv, x), mi != x, "change"); mi = x; break;
            case 10: {
                std::string n = Conv<std::string>::mk(x), keep = n;
                if (o.d & 1) {
                    tell(gtl::change(sv, n), ms != keep, "change");
                    PBT_REQUIRE(n == keep);
                }
                else tell(gtl::change(sv, std::move(n)), ms != keep, "change");
                ms = keep;
                break;
            }
            case 11: {
                long cp = TK::copies;
                TK   n(x);
                tell(gtl::change(tv, n), mt != x, "change");
                PBT_EQ(n.get(), x);
                (void)cp;
                mt = x;
                break;
            }
            case 12: {
                PBT_EQ(gtl::replace(iv, x), mi);
                mi            = x;
                std::string n = Conv<std::string>::mk(x);
                PBT_REQUIRE(gtl::replace(sv, n) == ms);
                PBT_REQUIRE(n == Conv<std::string>::mk(x));
                ms = n;
                break;
            }
            case 13: {
                PBT_EQ(gtl::replace(tv, TK(x)).get(), mt);
                mt = x;
                break;
            }
        }
    }
};
void pbt_run(const Case& cs, Ctx& ctx) {
    H<int> h;
    for (size_t i = 0; i < cs.ops.size(); ++i) {
        ctx.opno = (int)i;
        h.op(cs.ops[i]);
        h.check();
    }
    ctx.nontrivial = h.ch && h.un;
}

#elif CFG == 2
const char* pbt_rule = "a case is a list of searches (type, interval, partition point); non-trivial: an interval of more than 2 values, over both signs or more than half the type's range";
static const char* cn[]              = { "searches", "double_searches", "predicate_calls", nullptr };
const char* const* pbt_counter_names = cn;
void pbt_gen(Rng& r, Case& c) {
    for (u32 i = 0; i < 6; ++i) {
        u32 m = r.below(4);
        c.ops.push_back({ r.below(10), m == 0 ? r.u() : m == 1 ? r.skewed(8) : 0x80000000u + r.skewed(4) - 8, r.u(), r.chance(1, 2) ? r.u() : r.skewed(6), r.u() });
    }
}
template<class T>
static u64 spread(u32 a, u32 b) {
    return ((u64)a << 32) ^ b ^ ((u64)b << 13);
}
template<class>
struct H {
    bool nt = false;
    template<class T>
    void ints(const Op& o) {
        T x, y, z;
        switch (o.d % 4) {
            case 0: x = (T)spread<T>(o.a, o.b); y = (T)spread<T>(o.c, o.b * 7 + 1); break;
            case 1: x = std::numeric_limits<T>::min(); y = std::numeric_limits<T>::max(); break;
            case 2: x = (T)(std::numeric_limits<T>::min() + (T)(o.a % 5)); y = (T)(std::numeric_limits<T>::max() - (T)(o.b % 5)); break;
            default: x = (T)(o.a % 100); y = (T)(x + o.b % 20); break;
        }
        if (y < x) std::swap(x, y);
        if (x == y) return;
        using U = std::make_unsigned_t<T>;
        U span  = (U)((U)y - (U)x);
        U off   = (U)(1 + (o.d & 16 ? spread<T>(o.b, o.c) % span : o.c % std::min<u64>(span, 3)));
        if (o.d & 32) off = (U)(span - (off - 1)); // partition point in (x, y]
        z = (T)(U)((U)x + off);
        long calls = 0;
        auto pred  = [&](T v) {
            ++calls;
            PBT_CHECK(v >= x && v <= y, "the predicate is called outside the interval");
            return v >= z;
        };
        auto p = gtl::binary_search(gtl::middle<T>(), pred, x, y);
        PBT_CHECK(p.second == z && p.first == (T)(z - 1), "partition point of [%lld,%lld] at %lld: got (%lld,%lld)", (long long)x, (long long)y, (long long)z,
                  (long long)p.first, (long long)p.second);
        PBT_CHECK(calls <= (long)(sizeof(T) * 8 + 6), "%ld predicate calls", calls);
        note(0);
        note(2, calls);
        // another way of choosing the middle
        if (span < 1000) {
            auto third = [](T l, T r) -> std::optional<T> {
                if ((u64)(U)((U)r - (U)l) <= 1) return {};
                U s = (U)((U)r - (U)l);
                return (T)(U)((U)l + (s / 3 ? s / 3 : 1));
            };
            auto p3 = gtl::binary_search(third, pred, x, y);
            PBT_REQUIRE(p3.second == z && p3.first == (T)(z - 1));
        }
        if (span > 2 && (U)(span >> 1) > (U)(std::numeric_limits<U>::max() >> 2)) nt = true;
        auto m = gtl::middle<T>()(x, y);
        PBT_CHECK(m.has_value() == (span > 1), "middle(%lld,%lld)", (long long)x, (long long)y);
        if (m) PBT_CHECK(*m > x && *m < y, "middle is not strictly inside");
    }
    static double dbl(u32 a, u32 b) {
        switch (a % 8) {
            case 0: return 0.0;
            case 1: return (double)(int)b;
            case 2: return (double)(int)b * 1e-310;
            case 3: return b & 1 ? INFINITY : -INFINITY;
            case 4: return ((b & 1) ? 1 : -1) * std::numeric_limits<double>::max();
            case 5: return (int)b / 1024.0;
            case 6: return ((b & 1) ? 1 : -1) * std::numeric_limits<double>::denorm_min() * (b % 7);
            default: return ((b & 1) ? -1 : 1) * std::ldexp(1.0 + (b >> 8) / 16777216.0, (int)(b % 2000) - 1000);
        }
    }
    void doubles(const Op& o) {
        double x = dbl(o.a, o.b), y = dbl(o.c, o.d), z = dbl(o.d >> 3, o.a ^ o.b * 3);
        if (y < x) std::swap(x, y);
        if (!(x < y)) return;
        if (!(z > x && z <= y)) z = o.b & 4 ? y : std::nextafter(x, INFINITY);
        long calls = 0;
        auto pred  = [&](double v) {
            if (++calls > 200) fail("search in [%g,%g] for %g does not converge", x, y, z);
            PBT_CHECK(v >= x && v <= y, "the predicate is called outside the interval (%g not in [%g,%g])", v, x, y);
            return v >= z;
        };
        auto p = gtl::binary_search(gtl::middle<double>(), pred, x, y);
        PBT_CHECK(p.second == z && p.first < z && std::nextafter(p.first, INFINITY) == z, "partition point of [%g,%g] at %g: got (%.17g,%.17g)", x, y, z, p.first,
                  p.second);
        note(1);
        note(2, calls);
        if (x < 0 && y > 0) nt = true;
    }
};
void pbt_run(const Case& cs, Ctx& ctx) {
    H<int> h;
    for (size_t i = 0; i < cs.ops.size(); ++i) {
        ctx.opno = (int)i;
        const Op& o = cs.ops[i];
        switch (o.code % 10) {
            case 0: h.ints<int>(o); break;
            case 1: h.ints<unsigned>(o); break;
            case 2: h.ints<long long>(o); break;
            case 3: h.ints<unsigned long>(o); break;
            case 4: h.ints<short>(o); break;
            case 5: h.ints<unsigned char>(o); break;
            case 6: h.ints<signed char>(o); break;
            default: h.doubles(o);
        }
    }
    ctx.nontrivial = h.nt;
}

#elif CFG == 3
const char* pbt_rule = "a case is a list of cat/slice/map calls on generated vectors; non-trivial: a slice with a negative index and a stride above 1, or a cat of 3 non-empty vectors";
static const char* cn[]              = { "cats", "slices", "maps", nullptr };
const char* const* pbt_counter_names = cn;
void pbt_gen(Rng& r, Case& c) {
    for (u32 i = 0; i < 6; ++i)
        c.ops.push_back({ r.below(4), r.u(), r.u(), r.u(), r.u() });
}
template<class>
struct H {
    bool nt = false;
    template<class V>
    static V mk(u32 seed, u32 n) {
        V v;
        for (u32 i = 0; i < n; ++i) v.push_back(Conv<typename V::value_type>::mk((int)(mix64(seed + i) % 1000)));
        return v;
    }
    template<class V>
    void cat(const Op& o) {
        V a = mk<V>(o.a, o.a % 7), b = mk<V>(o.b, o.b % 5), c = mk<V>(o.c, o.c % 6);
        V exp = a;
        exp.insert(exp.end(), b.begin(), b.end());
        const V& ca = a;
        PBT_REQUIRE(gtl::cat(ca, b) == exp);
        exp.insert(exp.end(), c.begin(), c.end());
        PBT_REQUIRE(gtl::cat(a, b, c) == exp);
        PBT_REQUIRE(gtl::cat(mk<V>(o.a, o.a % 7), b, mk<V>(o.c, o.c % 6)) == exp);
        PBT_REQUIRE(gtl::cat(a) == mk<V>(o.a, o.a % 7));
        PBT_REQUIRE(b == mk<V>(o.b, o.b % 5));
        if (!a.empty() && !b.empty() && !c.empty()) nt = true;
        note(0);
    }
    template<class V>
    void slice(const Op& o) {
        int n = (int)(o.a % 12);
        V   v = mk<V>(o.b, n);
        const V keep = v;
        int f = (int)(o.c % (2 * n + 2)) - n - 1, l = (int)((o.c >> 8) % (2 * n + 2)) - n - 1, st = 1 + (o.d % 4 ? 0 : (o.d >> 4) % 4);
        // position of index i: from the front, or (negative) from one past the end
        int pf = f >= 0 ? f : n + 1 + f, pl = l >= 0 ? l : n + 1 + l;
        auto r = gtl::slice(v, f, l, st);
        V    full;
        for (int i = pf; i < pl; i += st) full.push_back(v[i]);
        size_t fl = pl > pf ? (size_t)((pl - pf) / st) : 0;
        PBT_CHECK(r.size() >= fl && r.size() <= full.size(), "slice(%d,%d,%d) of %d elements has %zu elements", f, l, st, n, r.size());
        for (size_t i = 0; i < r.size(); ++i)
            PBT_CHECK(r[i] == full[i], "slice(%d,%d,%d) of %d elements: element %zu", f, l, st, n, i);
        PBT_REQUIRE(v == keep);
        PBT_REQUIRE(gtl::slice(v) == v);
        if (st == 1) PBT_REQUIRE(gtl::slice(V(v), f, l) == full);
        if (n) PBT_REQUIRE(gtl::cat(gtl::slice(v, 0, n / 2), gtl::slice(v, n / 2)) == v);
        if ((f < 0 || l < 0) && st > 1 && r.size() > 1) nt = true;
        note(1);
    }
    void map(const Op& o) {
        auto             v = mk<std::vector<int>>(o.a, o.a % 9);
        long             calls = 0;
        auto             r = gtl::map([&](int x) { ++calls; return std::to_string(x * 2); }, v);
        PBT_EQ(r.size(), v.size());
        PBT_EQ(calls, (long)v.size());
        for (size_t i = 0; i < v.size(); ++i) PBT_REQUIRE(r[i] == std::to_string(v[i] * 2));
        gtl::vector<int> g(v.begin(), v.end());
        auto             r2 = gtl::map([](const int& x) { return (long)x + 1; }, g);
        static_assert(std::is_same_v<decltype(r2), gtl::vector<long>>);
        PBT_EQ(r2.size(), v.size());
        for (size_t i = 0; i < v.size(); ++i) PBT_EQ(r2[i], (long)v[i] + 1);
        note(2);
    }
    void op(const Op& o) {
        switch (o.code % 4) {
            case 0: o.d & 1 ? cat<std::vector<std::string>>(o) : cat<gtl::vector<int>>(o); break;
            case 1:
            case 2: o.d & 2 ? slice<std::vector<std::string>>(o) : slice<gtl::vector<int>>(o); break;
            default: map(o);
        }
    }
};
void pbt_run(const Case& cs, Ctx& ctx) {
    H<int> h;
    for (size_t i = 0; i < cs.ops.size(); ++i) {
        ctx.opno = (int)i;
        h.op(cs.ops[i]);
    }
    ctx.nontrivial = h.nt;
}

#else
const char* pbt_rule = "a case is a list of words and byte offsets; non-trivial: every case";
static const char* cn[]              = { "words", nullptr };
const char* const* pbt_counter_names = cn;
void pbt_gen(Rng& r, Case& c) {
    for (u32 i = 0; i < 20; ++i) {
        u64 x = r.next();
        u32 m = r.below(4);
        if (m == 1) x >>= r.below(64);
        if (m == 2) x <<= r.below(64);
        if (m == 3) x = 1ull << r.below(64);
        if (r.chance(1, 30)) x = 0;
        c.ops.push_back({ (u32)(x >> 32), (u32)x, r.below(8), 0, 0 });
    }
}
static u32 naive_clz(u64 x, u32 w) {
    u32 n = 0;
    for (int b = (int)w - 1; b >= 0 && !((x >> b) & 1); --b) ++n;
    return n;
}
static u32 naive_ctz(u64 x) {
    u32 n = 0;
    while (!((x >> n) & 1)) ++n;
    return n;
}
void pbt_run(const Case& cs, Ctx& ctx) {
    for (size_t i = 0; i < cs.ops.size(); ++i) {
        ctx.opno = (int)i;
        u64 x    = ((u64)cs.ops[i].code << 32) | cs.ops[i].a;
        u32 y    = (u32)x;
        note(0);
        PBT_EQ(gtl::CountLeadingZeros64(x), naive_clz(x, 64));
        PBT_EQ(gtl::CountLeadingZeros64Slow(x), naive_clz(x, 64));
        PBT_EQ(gtl::CountLeadingZeros32(y), naive_clz(y, 32));
        PBT_EQ(gtl::CountLeadingZeros32Slow(y), naive_clz(y, 32));
        if (x) { PBT_EQ(gtl::CountTrailingZerosNonZero64(x), naive_ctz(x)); PBT_EQ(gtl::CountTrailingZerosNonZero64Slow(x), naive_ctz(x)); }
        if (y) { PBT_EQ(gtl::CountTrailingZerosNonZero32(y), naive_ctz(y)); PBT_EQ(gtl::CountTrailingZerosNonZero32Slow(y), naive_ctz(y)); }
        unsigned char buf[24];
        u32           off = cs.ops[i].b % 8;
        auto          put = [&](auto store, auto load, auto v, bool big) {
            using T = decltype(v);
            memset(buf, 0xEE, sizeof buf);
            store(buf + off, v);
            for (u32 k = 0; k < sizeof buf; ++k) {
                unsigned char e = 0xEE;
                if (k >= off && k < off + sizeof(T)) {
                    u32 byte = big ? (u32)sizeof(T) - 1 - (k - off) : k - off;
                    e        = (unsigned char)((u64)v >> (8 * byte));
                }
                PBT_CHECK(buf[k] == e, "byte %u of a %zu-byte %s-endian store of %llx at offset %u is %02x, expected %02x", k, sizeof(T), big ? "big" : "little",
                                   (unsigned long long)v, off, buf[k], e);
            }
            PBT_CHECK(load(buf + off) == v, "load after store");
        };
        put([](void* p, uint16_t v) { gtl::little_endian::Store16(p, v); }, [](void* p) { return gtl::little_endian::Load16(p); }, (uint16_t)x, false);
        put([](void* p, uint32_t v) { gtl::little_endian::Store32(p, v); }, [](void* p) { return gtl::little_endian::Load32(p); }, (uint32_t)x, false);
        put([](void* p, uint64_t v) { gtl::little_endian::Store64(p, v); }, [](void* p) { return gtl::little_endian::Load64(p); }, (uint64_t)x, false);
        put([](void* p, uint16_t v) { gtl::big_endian::Store16(p, v); }, [](void* p) { return gtl::big_endian::Load16(p); }, (uint16_t)x, true);
        put([](void* p, uint32_t v) { gtl::big_endian::Store32(p, v); }, [](void* p) { return gtl::big_endian::Load32(p); }, (uint32_t)x, true);
        put([](void* p, uint64_t v) { gtl::big_endian::Store64(p, v); }, [](void* p) { return gtl::big_endian::Load64(p); }, (uint64_t)x, true);
        PBT_REQUIRE(gtl::gntohll(gtl::ghtonll(x)) == x && gtl::gntohl(gtl::ghtonl(y)) == y && gtl::gntohs(gtl::ghtons((uint16_t)y)) == (uint16_t)y);
        PBT_REQUIRE(gtl::gbswap_64(gtl::gbswap_64(x)) == x);
        uint64_t net = gtl::ghtonll(x);
        memcpy(buf, &net, 8);
        for (u32 k = 0; k < 8; ++k) PBT_EQ(buf[k], (unsigned char)(x >> (56 - 8 * k)));
        uint32_t n32 = gtl::ghtonl(y);
        memcpy(buf, &n32, 4);
        for (u32 k = 0; k < 4; ++k) PBT_EQ(buf[k], (unsigned char)(y >> (24 - 8 * k)));
        uint16_t n16 = gtl::ghtons((uint16_t)y);
        memcpy(buf, &n16, 2);
        for (u32 k = 0; k < 2; ++k) PBT_EQ(buf[k], (unsigned char)(y >> (8 - 8 * k)));
    }
    ctx.nontrivial = true;
}
#endif
