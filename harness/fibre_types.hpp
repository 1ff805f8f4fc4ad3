#pragma once
#include "fibre.hpp"
namespace pbt {
// ---- elements: self-checking, with yield points -------------------------------------------------
static long g_objs = 0;
FIB_NOSAN static void objs(int d) { g_objs += d; }
struct El {
    const El* self;
    int       v;
    u32       magic;
    static constexpr u32 kAlive = 0xA11FE005u;
    void chk(const char* w) const { if (self != this || magic != kAlive) fail("%s of an element that is not alive", w); }
    void born() { self = this; magic = kAlive; objs(1); }
    El(int x = 0) : v(x) { fib::yield(); born(); }
    El(const El& o) { o.chk("copy"); fib::yield(); o.chk("copy"); v = o.v; born(); }
    El(El&& o) noexcept { o.chk("move"); fib::yield(); o.chk("move"); v = o.v; born(); }
    El& operator=(const El& o) { chk("assignment"); o.chk("assignment"); fib::yield(); chk("assignment"); v = o.v; return *this; }
    El& operator=(El&& o) noexcept { chk("assignment"); o.chk("assignment"); fib::yield(); chk("assignment"); v = o.v; return *this; }
    ~El() { chk("destruction"); fib::yield(); chk("destruction"); magic = 0xDEAD; self = nullptr; objs(-1); }
    int  get() const { chk("reading"); return v; }
    void set(int x) { chk("writing"); v = x; }
};
static u32 g_hash = 0;
struct HashEl { size_t operator()(const El& e) const { fib::yield(); return hash_of(e.get()); }
    static size_t hash_of(int k) {
        switch (g_hash) {
            case 0: return (size_t)mix64((u64)k);
            case 1: return 0;
            case 2: return (size_t)(k & 1) * 0x100;     // two submaps at most, everything else collides
            default: return (size_t)mix64((u64)(k % 2)); // two hash values
        }
    } };
struct EqEl { bool operator()(const El& a, const El& b) const { int x = a.get(); fib::yield(); return x == b.get(); } };
} // namespace pbt
