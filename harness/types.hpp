// Element, hasher, comparator and allocator types shared by the targets.
#pragma once
#include "core.hpp"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>

namespace pbt {

// ---- fault injection -------------------------------------------------------------------
struct Injected {
    int where;
};
struct Faults {
    long countdown = -1; // <0: disarmed; throws when it reaches 0
    long fired     = 0;
    long points    = 0; // fault points passed while armed
    u32  mask      = ~0u;
};
inline Faults g_faults;
enum FaultKind { kCopy = 1, kMove = 2, kDefault = 4, kValueCtor = 8, kAlloc = 16, kHashF = 32, kEqF = 64, kAssign = 128, kMoveAssign = 256, kCb = 512 };
inline void fault_point(u32 kind) {
    if (g_faults.countdown < 0 || !(g_faults.mask & kind))
        return;
    ++g_faults.points;
    if (g_faults.countdown-- == 0) {
        g_faults.countdown = -1;
        ++g_faults.fired;
        throw Injected{ (int)kind };
    }
}
struct FaultGuard { // arm for a scope
    FaultGuard(long n, u32 mask) {
        g_faults.countdown = n;
        g_faults.mask      = mask;
        g_faults.points    = 0;
        g_faults.fired     = 0;
    }
    ~FaultGuard() { g_faults.countdown = -1; }
};

// ---- element that checks its own lifetime ----------------------------------------------
// `self` must always equal `this` while the object lives: relocating its bytes, using it before
// construction / after destruction, destroying twice or assigning to raw memory are all caught.
template<int Tag>
struct Tr {
    static inline long live   = 0;
    static inline long copies = 0;
    static inline long moves  = 0;
    static constexpr u32 kAlive = 0xA11FE000u + Tag, kDead = 0xDEADBEEFu;
    static constexpr int kMoved = -777777;

    const Tr* self;
    int       v;
    u32       magic;

    void born() {
        self  = this;
        magic = kAlive;
        ++live;
    }
    void alive(const char* what) const {
        if (__builtin_expect(!(self == this && magic == kAlive), 0))
            fail("%s on an element that is not alive at its address (tag %d, magic %x, v %d)", what, Tag, magic, v);
    }
    Tr()
        : v(0) {
        fault_point(kDefault);
        born();
    }
    Tr(int x)
        : v(x) {
        fault_point(kValueCtor);
        born();
    }
    Tr(const Tr& o) {
        o.alive("copy-construct from");
        fault_point(kCopy);
        v = o.v;
        ++copies;
        born();
    }
#ifndef TR_MOVE_MAY_THROW
    #define TR_MOVE_MAY_THROW false
#endif
    Tr(Tr&& o) noexcept(!TR_MOVE_MAY_THROW) {
        o.alive("move-construct from");
        if (TR_MOVE_MAY_THROW)
            fault_point(kMove);
        v   = o.v;
        o.v = kMoved;
        ++moves;
        born();
    }
    Tr& operator=(const Tr& o) {
        alive("copy-assign to");
        o.alive("copy-assign from");
        fault_point(kAssign);
        v = o.v;
        return *this;
    }
    Tr& operator=(Tr&& o) noexcept(!TR_MOVE_MAY_THROW) {
        alive("move-assign to");
        o.alive("move-assign from");
        if (TR_MOVE_MAY_THROW)
            fault_point(kMoveAssign);
        if (this != &o) {
            v   = o.v;
            o.v = kMoved;
        }
        return *this;
    }
    ~Tr() {
        alive("destroy");
        magic = kDead;
        self  = nullptr;
        --live;
    }
    int get() const {
        alive("read");
        return v;
    }
    friend bool operator==(const Tr& a, const Tr& b) { return a.get() == b.get(); }
    friend bool operator!=(const Tr& a, const Tr& b) { return a.get() != b.get(); }
    friend bool operator<(const Tr& a, const Tr& b) { return a.get() < b.get(); }
    friend bool operator>(const Tr& a, const Tr& b) { return a.get() > b.get(); }
    friend bool operator<=(const Tr& a, const Tr& b) { return a.get() <= b.get(); }
    friend bool operator>=(const Tr& a, const Tr& b) { return a.get() >= b.get(); }
};
using TK = Tr<1>;
using TV = Tr<2>;

// ---- integer <-> element conversions ----------------------------------------------------
template<class T>
struct Conv;
template<int Tag>
struct Conv<Tr<Tag>> {
    static Tr<Tag> mk(int i) { return Tr<Tag>(i); }
    static int     un(const Tr<Tag>& t) { return t.get(); }
};
#define PBT_INT_CONV(T)                            \
    template<>                                     \
    struct Conv<T> {                               \
        static T   mk(int i) { return (T)i; }      \
        static int un(const T& t) { return (int)t; } \
    };
PBT_INT_CONV(int)
PBT_INT_CONV(unsigned)
PBT_INT_CONV(long)
PBT_INT_CONV(short)
PBT_INT_CONV(unsigned short)
PBT_INT_CONV(unsigned char)
PBT_INT_CONV(unsigned long)
PBT_INT_CONV(double)
template<>
struct Conv<std::string> { // lengths around the small-string limit, common prefixes
    static std::string mk(int i) {
        char b[32];
        snprintf(b, sizeof b, "%d", i);
        std::string s = b;
        switch (((unsigned)i) % 4) {
            case 1: return "k" + s;
            case 2: return "a-common-prefix-longer-than-sso/" + s;
            case 3: return std::string(13, 'z') + s;
            default: return s;
        }
    }
    static int un(const std::string& s) {
        size_t p = s.find_first_of("-0123456789");
        if (s.rfind("a-common-prefix-longer-than-sso/", 0) == 0)
            p = strlen("a-common-prefix-longer-than-sso/");
        return p == std::string::npos ? -1 : atoi(s.c_str() + p);
    }
};
// a 72-byte trivially copyable element
struct Big {
    long a[9];
    friend bool operator==(const Big& x, const Big& y) { return !memcmp(x.a, y.a, sizeof x.a); }
    friend bool operator<(const Big& x, const Big& y) { return x.a[0] < y.a[0]; }
    friend bool operator>(const Big& x, const Big& y) { return x.a[0] > y.a[0]; }
};
template<>
struct Conv<Big> {
    static Big mk(int i) {
        Big b;
        for (int k = 0; k < 9; ++k)
            b.a[k] = (long)i + 1000003L * k;
        return b;
    }
    static int un(const Big& b) {
        for (int k = 0; k < 9; ++k)
            if (b.a[k] != b.a[0] + 1000003L * k)
                fail("torn element: field %d is %ld, field 0 is %ld", k, b.a[k], b.a[0]);
        return (int)b.a[0];
    }
};

// ---- hashing --------------------------------------------------------------------------
inline size_t hash_kind(u32 kind, u64 v) {
    switch (kind % 8) {
        case 0: return (size_t)mix64(v);
        case 1: return (size_t)v;                 // identity
        case 2: return (size_t)(v % 4);           // heavy collisions
        case 3: return 0;                         // everything collides
        case 4: return (size_t)(v << 48);         // only high bits vary
        case 5: return (size_t)(v & ~0xfull);     // groups of 16 collide
        case 6: return (size_t)(v * 128);         // low 7 bits constant
        default: return (size_t)mix64(v % 32);    // 32 distinct good hashes
    }
}
template<class K>
struct StatefulHash {
    u32 kind = 0;
    static constexpr u32 kMovedFrom = 0x40F3D; // as with std::function: a moved-from hasher cannot be called
    StatefulHash(u32 k = 0)
        : kind(k) {}
    StatefulHash(const StatefulHash&)            = default;
    StatefulHash& operator=(const StatefulHash&) = default;
    StatefulHash(StatefulHash&& o) noexcept
        : kind(std::exchange(o.kind, kMovedFrom)) {}
    StatefulHash& operator=(StatefulHash&& o) noexcept {
        if (this != &o)
            kind = std::exchange(o.kind, kMovedFrom);
        return *this;
    }
    size_t operator()(const K& k) const {
        if (__builtin_expect(kind == kMovedFrom, 0))
            fail("a moved-from hash function object is called");
        fault_point(kHashF);
        return hash_kind(kind, (u64)(u32)Conv<K>::un(k));
    }
};
template<class K>
struct TransparentHash {
    using is_transparent = void;
    u32 kind             = 0;
    TransparentHash(u32 k = 0)
        : kind(k) {}
    size_t operator()(const K& k) const { return hash_kind(kind, (u64)(u32)Conv<K>::un(k)); }
    size_t operator()(int k) const { return hash_kind(kind, (u64)(u32)k); }
};
template<class K>
struct StatefulEq {
    u32 id = 0;
    StatefulEq(u32 i = 0)
        : id(i) {}
    bool operator()(const K& a, const K& b) const {
        fault_point(kEqF);
        return a == b;
    }
};
template<class K>
struct TransparentEq {
    using is_transparent = void;
    u32 id               = 0;
    TransparentEq(u32 i = 0)
        : id(i) {}
    bool operator()(const K& a, const K& b) const { return a == b; }
    bool operator()(const K& a, int b) const { return Conv<K>::un(a) == b; }
    bool operator()(int a, const K& b) const { return a == Conv<K>::un(b); }
};

// ---- allocator that accounts for every block --------------------------------------------
struct BlockInfo {
    size_t n, elem;
    u32    id;
};
inline std::map<void*, BlockInfo>& blocks() {
    static auto* m = new std::map<void*, BlockInfo>();
    return *m;
}
inline long g_alloc_calls = 0;

template<class T, bool Pocca = false, bool Pocma = false, bool Pocs = false, int SelectMode = 0>
struct TrackAlloc {
    using value_type                             = T;
    using propagate_on_container_copy_assignment = std::bool_constant<Pocca>;
    using propagate_on_container_move_assignment = std::bool_constant<Pocma>;
    using propagate_on_container_swap            = std::bool_constant<Pocs>;
    using is_always_equal                        = std::false_type;
    template<class U>
    struct rebind {
        using other = TrackAlloc<U, Pocca, Pocma, Pocs, SelectMode>;
    };
    u32 id = 0;
    TrackAlloc() = default;
    explicit TrackAlloc(u32 i)
        : id(i) {}
    template<class U>
    TrackAlloc(const TrackAlloc<U, Pocca, Pocma, Pocs, SelectMode>& o) noexcept
        : id(o.id) {}
    T* allocate(size_t n) {
        fault_point(kAlloc);
        ++g_alloc_calls;
        T* p = static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(alignof(T) < 16 ? 16 : alignof(T))));
        long saved  = g_live; // the registry's own memory is not the container's
        blocks()[p] = BlockInfo{ n, sizeof(T), id };
        g_live      = saved;
        return p;
    }
    void deallocate(T* p, size_t n) noexcept {
        auto it = blocks().find(p);
        if (it == blocks().end())
            fail("deallocate of a block the allocator never handed out (or handed back twice)");
        BlockInfo b = it->second;
        if (b.id != id)
            fail("block allocated by allocator #%u is released through allocator #%u", b.id, id);
        if (b.n != n || b.elem != sizeof(T))
            fail("block of %zu x %zu bytes released as %zu x %zu", b.n, b.elem, n, sizeof(T));
        long saved = g_live;
        blocks().erase(it);
        g_live = saved;
        ::operator delete(p, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
    }
    TrackAlloc select_on_container_copy_construction() const { return SelectMode == 0 ? *this : TrackAlloc(id + 100); }
    template<class U>
    friend bool operator==(const TrackAlloc& a, const TrackAlloc<U, Pocca, Pocma, Pocs, SelectMode>& b) {
        return a.id == b.id;
    }
    template<class U>
    friend bool operator!=(const TrackAlloc& a, const TrackAlloc<U, Pocca, Pocma, Pocs, SelectMode>& b) {
        return !(a == b);
    }
};

} // namespace pbt
