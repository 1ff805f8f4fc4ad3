// C18: intrusive_ptr. CFG 0: class hierarchy, thread-unsafe counter. CFG 1: thread-safe counter.
// CFG 2: user-defined intrusive_ptr_add_ref/release. CFG 10: real threads (TSan).
#include "core.hpp"
#include <gtl/intrusive.hpp>
#include <sstream>
#include <thread>
#ifndef CFG
    #define CFG 0
#endif
using namespace pbt;

const char* pbt_rule =
#if CFG < 10
    "a case is a history of intrusive_ptr operations over 5+4+3 pointer variables (abstract base, derived with offset base, const); "
    "non-trivial: at least one object died by losing its last owner while another was still shared";
#else
    "a case is a thread-safe object graph dropped/copied by 2-4 threads; non-trivial: every case";
#endif

#if CFG < 10
enum { kDied, kShared, kChain, kCast, kSelf, kConvMove, kHook, kInner };
static const char* cn[]                   = { "objects_destroyed", "shared_states", "cascades", "casts", "self_operations", "converting_moves", "actions_in_destructors", "sources_inside_dying_objects", nullptr };
const char* const* pbt_counter_names      = cn;
enum { MAKE_B, MAKE_D, COPY_BB, MOVE_BB, COPY_DD, MOVE_DD, CONV_COPY, CONV_MOVE, CONV_CTOR, CONV_MCTOR, TO_CONST, TO_CONST_MOVE, RESET, RESET_RAW, DETACH, ADOPT,
       SWAP, RAW_ASSIGN, CAST_S, CAST_D, CAST_C, LINK, ADVANCE, COPY_OBJ, TEMP, COMPARE, UNLINK, RECTOR, HOOK, DLINK, DADVANCE, NOPS };
static const char* opn[] = { "make_b", "make_d", "copy_bb", "move_bb", "copy_dd", "move_dd", "conv_copy", "conv_move", "conv_ctor", "conv_mctor", "to_const",
                             "to_const_move", "reset", "reset_raw", "detach", "adopt", "swap", "raw_assign", "cast_static", "cast_dynamic", "cast_const", "link",
                             "advance", "copy_obj", "temporaries", "compare", "unlink", "reconstruct", "hook", "dlink", "dadvance" };
const char* const* pbt_op_names = opn;
int                pbt_num_ops  = NOPS;

void pbt_gen(Rng& r, Case& c) {
    u32 n = 5 + r.skewed(7);
    for (u32 i = 0; i < n; ++i)
        c.ops.push_back({ r.chance(1, 4) ? r.below(2) : r.chance(1, 5) ? (u32)(r.below(2) ? (r.below(2) ? ADVANCE : DADVANCE) : (r.below(3) ? LINK : HOOK)) : r.below(NOPS), r.u(), r.u(), r.u(), r.u() });
}

#if CFG == 1
using Policy = gtl::thread_safe_counter;
#else
using Policy = gtl::thread_unsafe_counter;
#endif
static constexpr int kMaxObj = 4096;
static bool          g_alive[kMaxObj];
static int           g_deaths[kMaxObj];

static void death(int id); // what the destructor of object `id` does to the pointer variables

struct Base;
#if CFG == 2
void intrusive_ptr_add_ref(const Base* p);
void intrusive_ptr_release(const Base* p);
#endif
struct Base
#if CFG != 2
    : gtl::intrusive_ref_counter<Base, Policy>
#endif
{
    int                       id;
    gtl::intrusive_ptr<Base>  next;
#if CFG == 2
    mutable unsigned cnt = 0;
    unsigned         use_count() const { return cnt; }
#endif
    explicit Base(int i)
        : id(i) {
        g_alive[i] = true;
    }
    Base(const Base& o, int i)
#if CFG != 2
        : gtl::intrusive_ref_counter<Base, Policy>(o)
        , id(i) {
#else
        : id(i) {
#endif
        g_alive[i] = true;
    }
    virtual ~Base() {
        if (!g_alive[id])
            fail("object %d destroyed twice", id);
        g_alive[id] = false;
        ++g_deaths[id];
        death(id);
    }
    virtual int kind() const = 0;
};
#if CFG == 2
void intrusive_ptr_add_ref(const Base* p) { ++p->cnt; }
void intrusive_ptr_release(const Base* p) {
    if (--p->cnt == 0)
        delete p;
}
#endif
struct Plain : Base {
    using Base::Base;
    int kind() const override { return 1; }
};
struct Pad {
    long filler[3] = { 1, 2, 3 };
    virtual ~Pad() {}
};
struct Derived : Pad, Base {
    gtl::intrusive_ptr<Derived> dnext;
    explicit Derived(int i)
        : Base(i) {}
    Derived(const Derived& o, int i)
        : Pad(o)
        , Base(o, i) {}
    int kind() const override { return 2; }
};

struct Obj {
    bool derived = false;
    int  next    = -1;
    int  refs    = 0;
    bool alive   = false;
    int  dnext   = -1;
    int  hk = 0, hx = 0, hy = 0; // action of the destructor
};
static void (*g_death)(int) = nullptr;
static void death(int id) {
    if (g_death)
        g_death(id);
}

template<class>
struct H {
    using PB = gtl::intrusive_ptr<Base>;
    using PD = gtl::intrusive_ptr<Derived>;
    using PC = gtl::intrusive_ptr<const Base>;
    static constexpr int NB = 5, ND = 4, NC = 3;
    PB               b[NB];
    PD               d[ND];
    PC               c[NC];
    int              mb[NB], md[ND], mc[NC];
    std::vector<Obj> o;
    std::vector<std::pair<Base*, int>> raw; // detached references
    bool             died = false, sharedseen = false;
    Base*            ptr[kMaxObj];

    H() {
        for (int& x : mb) x = -1;
        for (int& x : md) x = -1;
        for (int& x : mc) x = -1;
    }
    std::vector<int> seen, expected; // what destructors saw in the pointer variables
    bool             hooks = true;
    inline static H* self  = nullptr;
    // the action of the dying object on the real pointers
    static void on_death(int id) {
        H&   h  = *self;
        Obj& me = h.o[id];
        if (!h.hooks || !me.hk)
            return;
        PB& x = h.b[me.hx % NB];
        switch (me.hk) {
            case 1: h.seen.push_back(x ? x->id : -1); break;
            case 2: x.reset(); break;
            case 3: x = h.b[me.hy % NB]; break;
            case 4: x = h.b[me.hy % NB].get(); break;
            case 5: x = nullptr; break;
            case 6: x.swap(h.b[me.hy % NB]); break;
        }
    }
    void unref(int id) {
        if (id < 0 || --o[id].refs > 0)
            return;
        died = true;
        note(kDied);
        int x = o[id].dnext;
        if (x >= 0) {
            note(kChain);
            unref(x);
        }
        o[id].alive = false;
        if (hooks && o[id].hk) {
            note(kHook);
            int hx = o[id].hx % NB, hy = o[id].hy % NB;
            switch (o[id].hk) {
                case 1: expected.push_back(mb[hx]); break;
                case 2: case 5: set(mb[hx], -1); break;
                case 3: case 4: set(mb[hx], mb[hy]); break;
                case 6: std::swap(mb[hx], mb[hy]); break;
            }
        }
        x = o[id].next;
        if (x >= 0) {
            note(kChain);
            unref(x);
        }
    }
    void mv(int& dst, int& src) { // move: the source is empty before the old object goes
        int id = src;
        src    = -1;
        int old = dst;
        dst     = id;
        unref(old);
    }
    void set(int& m, int id) {
        if (id >= 0)
            ++o[id].refs;
        int old = m;
        m       = id;
        unref(old);
    }
    void check() {
        PBT_CHECK(seen == expected, "a destructor saw another object in a pointer variable than its owner's assignment left there");
        for (size_t i = 0; i < o.size(); ++i) {
            PBT_CHECK(g_alive[i] == o[i].alive, "object %zu is %s, but %d owner(s) exist", i, g_alive[i] ? "still alive" : "destroyed", o[i].refs);
            PBT_CHECK(g_deaths[i] == (o[i].alive ? 0 : 1), "object %zu was destroyed %d times", i, g_deaths[i]);
            if (o[i].alive) {
                PBT_EQ((int)ptr[i]->use_count(), o[i].refs);
                PBT_EQ(ptr[i]->next ? ptr[i]->next->id : -1, o[i].next);
                if (o[i].refs > 1)
                    sharedseen = true, note(kShared);
            }
        }
        auto chk = [&](auto& p, int m, const char* what) {
            PBT_CHECK((bool)p == (m >= 0), "%s: pointer is %s", what, p ? "set" : "empty");
            PBT_REQUIRE((p != nullptr) == (m >= 0) && (nullptr == p) == (m < 0) && (p == nullptr) == (m < 0) && (nullptr != p) == (m >= 0));
            if (m >= 0) {
                PBT_EQ(p->id, m);
                PBT_EQ((*p).id, m);
                PBT_REQUIRE(static_cast<const Base*>(p.get()) == ptr[m]);
                PBT_EQ(p->kind(), o[m].derived ? 2 : 1);
            } else
                PBT_REQUIRE(p.get() == nullptr);
        };
        for (int i = 0; i < NB; ++i) chk(b[i], mb[i], "base pointer");
        for (int i = 0; i < ND; ++i) chk(d[i], md[i], "derived pointer");
        for (int i = 0; i < NC; ++i) chk(c[i], mc[i], "const pointer");
    }
    int newobj(bool der) {
        int id = (int)o.size();
        o.push_back({ der, -1, 0, true });
        return id;
    }
    void op(const Op& q) {
        int i = q.a % NB, j = q.b % NB, k = q.a % ND, l = q.b % ND, m = q.a % NC, n = q.b % NC;
        switch (q.code % NOPS) {
            case MAKE_B: {
                if (o.size() >= kMaxObj) break;
                int id  = newobj(false);
                Base* p = new Plain(id);
                ptr[id] = p;
                if (q.c & 1) b[i] = p;
                else if (q.c & 2) b[i].reset(p);
                else b[i] = PB(p);
                set(mb[i], id);
                break;
            }
            case MAKE_D: {
                if (o.size() >= kMaxObj) break;
                int id     = newobj(true);
                Derived* p = new Derived(id);
                ptr[id]    = p;
                if (q.c & 1) d[k] = p;
                else if (q.c & 2) d[k].reset(p);
                else d[k] = PD(p);
                set(md[k], id);
                break;
            }
            case COPY_BB:
                if (i == j) note(kSelf);
                PBT_REQUIRE(&(b[i] = b[j]) == &b[i]);
                set(mb[i], mb[j]);
                break;
            case MOVE_BB: {
                PBT_REQUIRE(&(b[i] = std::move(b[j])) == &b[i]);
                if (i == j) { note(kSelf); break; }
                mv(mb[i], mb[j]);
                break;
            }
            case COPY_DD:
                d[k] = d[l];
                set(md[k], md[l]);
                break;
            case MOVE_DD: {
                d[k] = std::move(d[l]);
                if (k == l) break;
                mv(md[k], md[l]);
                break;
            }
            case CONV_COPY:
                PBT_REQUIRE(&(b[i] = d[l]) == &b[i]);
                set(mb[i], md[l]);
                break;
            case CONV_MOVE: {
                b[i] = std::move(d[l]);
                note(kConvMove);
                mv(mb[i], md[l]);
                break;
            }
            case CONV_CTOR: {
                PB t(d[l]);
                b[i].swap(t);
                set(mb[i], md[l]);
                break;
            }
            case CONV_MCTOR: {
                PB t(std::move(d[l]));
                PBT_REQUIRE(d[l].get() == nullptr);
                swap(t, b[i]);
                mv(mb[i], md[l]);
                break;
            }
            case TO_CONST:
                if (q.c & 1) {
                    c[m] = b[j];
                    set(mc[m], mb[j]);
                } else {
                    c[m] = c[n];
                    set(mc[m], mc[n]);
                }
                break;
            case TO_CONST_MOVE: {
                c[m]   = std::move(b[j]);
                mv(mc[m], mb[j]);
                break;
            }
            case RESET:
                if (q.c & 1) b[i].reset(), set(mb[i], -1);
                else if (q.c & 2) d[k].reset(), set(md[k], -1);
                else c[m] = nullptr, set(mc[m], -1);
                break;
            case RESET_RAW: // from the raw pointer of a (possibly the same) owner
                if (q.c & 1) b[i].reset(b[j].get());
                else b[i].reset(b[j].get(), true);
                set(mb[i], mb[j]);
                break;
            case DETACH: {
                if (mb[i] < 0) {
                    PBT_REQUIRE(b[i].detach() == nullptr);
                    break;
                }
                Base* p = b[i].detach();
                PBT_REQUIRE(p == ptr[mb[i]] && !b[i]);
                raw.push_back({ p, mb[i] });
                mb[i] = -1;
                break;
            }
            case ADOPT: {
                if (raw.empty()) break;
                size_t x  = q.b % raw.size();
                auto   pr = raw[x];
                raw.erase(raw.begin() + x);
                if (q.c & 1) b[i].reset(pr.first, false);
                else b[i] = PB(pr.first, false);
                int old = mb[i];
                mb[i]   = pr.second;
                unref(old);
                break;
            }
            case SWAP:
                if (q.c & 1) b[i].swap(b[j]), std::swap(mb[i], mb[j]);
                else if (q.c & 2) swap(d[k], d[l]), std::swap(md[k], md[l]);
                else { using std::swap; swap(c[m], c[n]); std::swap(mc[m], mc[n]); }
                break;
            case RAW_ASSIGN:
                b[i] = b[j].get();
                set(mb[i], mb[j]);
                break;
            case CAST_S: {
                note(kCast);
                if (mb[j] < 0 || !o[mb[j]].derived) break;
                if (q.c & 1) {
                    d[k] = static_pointer_cast<Derived>(b[j]);
                    set(md[k], mb[j]);
                } else {
                    d[k]   = gtl::static_pointer_cast<Derived>(std::move(b[j]));
                    mv(md[k], mb[j]);
                }
                break;
            }
            case CAST_D: {
                note(kCast);
                bool ok = mb[j] >= 0 && o[mb[j]].derived;
                if (q.c & 1) {
                    d[k] = gtl::dynamic_pointer_cast<Derived>(b[j]);
                    set(md[k], ok ? mb[j] : -1);
                } else {
                    d[k] = gtl::dynamic_pointer_cast<Derived>(std::move(b[j]));
                    if (ok) {
                        mv(md[k], mb[j]);
                    } else
                        set(md[k], -1);
                }
                break;
            }
            case CAST_C: {
                note(kCast);
                if (q.c & 1) {
                    b[i] = gtl::const_pointer_cast<Base>(c[n]);
                    set(mb[i], mc[n]);
                } else {
                    b[i]   = gtl::const_pointer_cast<Base>(std::move(c[n]));
                    mv(mb[i], mc[n]);
                }
                break;
            }
            case LINK: { // an owner inside an object: only to older objects, so that no cycle arises
                if (mb[i] < 0 || mb[j] < 0 || mb[j] >= mb[i]) break;
                b[i]->next = b[j];
                set(o[mb[i]].next, mb[j]);
                break;
            }
            case ADVANCE: { // the source of the assignment lives in the object that may die
                if (mb[i] < 0) break;
                note(kInner);
                int me = mb[i];
                switch (q.c % 7) {
                    case 0: b[i] = b[i]->next; set(mb[i], o[me].next); break;
                    case 1: b[i] = std::move(b[i]->next); mv(mb[i], o[me].next); break;
                    case 2: b[i] = b[i]->next.get(); set(mb[i], o[me].next); break;
                    case 3: b[i].reset(b[i]->next.get()); set(mb[i], o[me].next); break;
                    case 4: b[i].reset(b[i]->next.get(), true); set(mb[i], o[me].next); break;
                    case 5: b[i].reset(b[i]->next.detach(), false); mv(mb[i], o[me].next); break;
                    case 6: { // the const owner is the last one, the source a non-const member
                        c[m] = std::move(b[i]);
                        mv(mc[m], mb[i]);
                        if (q.d & 1) c[m] = c[m]->next, set(mc[m], o[me].next);
                        else c[m] = c[m]->next.get(), set(mc[m], o[me].next);
                        break;
                    }
                }
                break;
            }
            case HOOK:
                if (mb[i] < 0) break;
                o[mb[i]].hk = 1 + q.c % 6, o[mb[i]].hx = (int)(q.b % NB), o[mb[i]].hy = (int)(q.d % NB);
                break;
            case DLINK:
                if (md[k] < 0 || md[l] < 0 || md[l] >= md[k]) break;
                d[k]->dnext = d[l];
                set(o[md[k]].dnext, md[l]);
                break;
            case DADVANCE: { // the same with a source of another type
                if (md[l] < 0) break;
                note(kInner);
                int me = md[l];
                switch (q.c % 6) {
                    case 0: d[l] = d[l]->dnext; set(md[l], o[me].dnext); break;
                    case 1: d[l] = std::move(d[l]->dnext); mv(md[l], o[me].dnext); break;
                    default: { // a base pointer becomes the owner first
                        b[i] = std::move(d[l]);
                        mv(mb[i], md[l]);
                        if (mb[i] != me) break; // (a destructor reassigned it)
                        Derived* p = static_cast<Derived*>(b[i].get());
                        if (q.c % 6 == 2) b[i] = p->dnext, set(mb[i], o[me].dnext);
                        else if (q.c % 6 == 3) b[i] = std::move(p->dnext), mv(mb[i], o[me].dnext);
                        else if (q.c % 6 == 4) b[i] = p->dnext.get(), set(mb[i], o[me].dnext);
                        else b[i].reset(p->dnext.get()), set(mb[i], o[me].dnext);
                    }
                }
                break;
            }
            case COPY_OBJ: { // copying a pointee must not copy its count
                if (md[l] < 0 || o.size() >= kMaxObj) break;
                int      id = newobj(true);
                Derived* p  = new Derived(*d[l], id);
                ptr[id]     = p;
                PBT_EQ((int)p->use_count(), 0);
                d[k] = p;
                set(md[k], id);
#if CFG != 2
                if (md[k] >= 0 && md[l] >= 0)
                    static_cast<gtl::intrusive_ref_counter<Base, Policy>&>(*d[k]) = *d[l]; // counts are kept
#endif
                break;
            }
            case TEMP: {
                PB t1(b[i]);
                PB t2(std::move(t1));
                PB t3;
                PBT_REQUIRE(t1.get() == nullptr && !t3);
                t3 = t2;
                PC t4(t3), t5(d[l]);
                if (mb[i] >= 0) PBT_EQ((int)b[i]->use_count(), o[mb[i]].refs + 3 + (mb[i] == md[l]));
                if (q.c & 1) {
                    std::vector<PB> v;
                    for (u32 z = 0; z < q.d % 9; ++z)
                        v.insert(v.begin(), b[z % NB]);
                    v.erase(v.begin(), v.begin() + v.size() / 2);
                }
                break;
            }
            case COMPARE: {
                PBT_REQUIRE((b[i] == b[j]) == (mb[i] == mb[j]));
                PBT_REQUIRE((b[i] != b[j]) == (mb[i] != mb[j]));
                PBT_REQUIRE((b[i] == d[l]) == (mb[i] == md[l]));
                PBT_REQUIRE((c[m] != d[l]) == (mc[m] != md[l]));
                PBT_REQUIRE((b[i] == b[j].get()) == (mb[i] == mb[j]));
                PBT_REQUIRE((b[i] != b[j].get()) == (mb[i] != mb[j]));
                PBT_REQUIRE((b[i].get() == b[j]) == (mb[i] == mb[j]));
                PBT_REQUIRE((b[i].get() != b[j]) == (mb[i] != mb[j]));
                PBT_REQUIRE((b[i] < b[j]) == std::less<Base*>()(b[i].get(), b[j].get()));
                PBT_REQUIRE(!(b[i] < b[i]));
                PBT_REQUIRE(std::hash<PB>()(b[i]) == std::hash<Base*>()(b[i].get()));
                PBT_REQUIRE(hash_value(b[i]) == std::hash<Base*>()(b[i].get()));
                PBT_REQUIRE(get_pointer(b[i]) == b[i].get());
                std::ostringstream s1, s2;
                s1 << b[i];
                s2 << b[i].get();
                PBT_REQUIRE(s1.str() == s2.str());
                break;
            }
            case UNLINK:
                if (mb[i] < 0) break;
                b[i]->next.reset();
                set(o[mb[i]].next, -1);
                break;
            case RECTOR: { // destroy and rebuild a pointer variable
                int id = mb[j];
                hooks  = false; // (no variable to look at)
                b[i].~PB();
                if (i == j) {
                    ::new (&b[i]) PB();
                    set(mb[i], -1);
                } else if (q.c & 1) {
                    ::new (&b[i]) PB(std::move(b[j]));
                    set(mb[i], id);
                    set(mb[j], -1);
                } else {
                    ::new (&b[i]) PB(b[j]);
                    set(mb[i], id);
                }
                hooks = true;
                break;
            }
        }
    }
    void finish() {
        hooks = false;
        for (int i = 0; i < NB; ++i) b[i].reset(), set(mb[i], -1);
        for (int i = 0; i < ND; ++i) d[i] = nullptr, set(md[i], -1);
        for (int i = 0; i < NC; ++i) c[i] = PC(), set(mc[i], -1);
        for (auto& pr : raw) {
            PB t(pr.first, false);
            int x = pr.second;
            t.reset();
            unref(x);
        }
        raw.clear();
        check();
        for (size_t i = 0; i < o.size(); ++i)
            PBT_CHECK(!g_alive[i], "object %zu outlives its owners", i);
    }
};
void pbt_run(const Case& cs, Ctx& ctx) {
    memset(g_alive, 0, sizeof g_alive);
    memset(g_deaths, 0, sizeof g_deaths);
    H<int> h;
    H<int>::self = &h;
    g_death      = &H<int>::on_death;
    for (size_t i = 0; i < cs.ops.size(); ++i) {
        ctx.opno = (int)i;
        h.op(cs.ops[i]);
        h.check();
    }
    h.finish();
    g_death = nullptr;
    ctx.nontrivial = h.died && h.sharedseen;
}

#else // ---- real threads ----------------------------------------------------------------------
static const char* cn[]              = { "objects", "copies", nullptr };
const char* const* pbt_counter_names = cn;
const char* const* pbt_op_names      = nullptr;
int                pbt_num_ops       = 0;
void pbt_gen(Rng& r, Case& c) {
    c.cfg = { r.range(2, 4), r.range(20, 200), r.below(4), r.u() };
}
static std::atomic<long> g_live2{ 0 }, g_dead2{ 0 };
struct Node : gtl::intrusive_ref_counter<Node, gtl::thread_safe_counter> {
    long data[4] = { 1, 2, 3, 4 }; // plain: touched by every owner, then by the destructor
    Node() { g_live2.fetch_add(1, std::memory_order_relaxed); }
    ~Node() {
        data[0] = data[1] = 0;
        g_live2.fetch_sub(1, std::memory_order_relaxed);
        g_dead2.fetch_add(1, std::memory_order_relaxed);
    }
};
void pbt_run(const Case& cs, Ctx& ctx) {
    u32 nt = std::max(2u, cs.c(0)), nobj = cs.c(1), mode = cs.c(2), salt = cs.c(3);
    g_live2 = 0;
    g_dead2 = 0;
    using P = gtl::intrusive_ptr<Node>;
    std::vector<std::vector<P>> own(nt);
    for (u32 i = 0; i < nobj; ++i) {
        P p(new Node);
        for (u32 t = 0; t < nt; ++t)
            own[t].push_back(p);
    }
    std::atomic<u32>         ready{ 0 };
    std::vector<std::thread> th;
    std::atomic<long>        copies{ 0 };
    for (u32 t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
            auto&  mine = own[t];
            Rng    r(salt * 131 + t);
            long   sum = 0, nc = 0;
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < nt) {}
            for (u32 i = 0; i < nobj; ++i) {
                u32 x = mode & 1 ? nobj - 1 - i : i;
                sum += mine[x]->data[r.below(4)];
                if (mode & 2)
                    for (u32 k = r.below(4); k-- > 0;) {
                        P q(mine[x]);
                        P s = std::move(q);
                        sum += s->data[1];
                        ++nc;
                    }
                mine[x].reset();
            }
            copies.fetch_add(nc, std::memory_order_relaxed);
            if (sum == -1) fprintf(stderr, "?");
        });
    for (auto& x : th)
        x.join();
    note(0, nobj);
    note(1, copies.load());
    PBT_CHECK(g_live2.load() == 0, "%ld of %u objects were never destroyed", g_live2.load(), nobj);
    PBT_CHECK(g_dead2.load() == (long)nobj, "%ld destructions of %u objects", g_dead2.load(), nobj);
    ctx.nontrivial = true;
}
#endif
