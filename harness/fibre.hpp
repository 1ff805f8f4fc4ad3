// Deterministic scheduling of generated thread programs. The "threads" are fibres inside one OS thread; a fibre runs
// until the schedule (part of the generated case) preempts it at a yield point or it blocks on a lock. pthread mutexes and
// rwlocks are interposed, so std::mutex and std::shared_mutex are the ones the library would really use.
// Under ThreadSanitizer every fibre is a TSan fibre, switches carry no happens-before edge, and the interposed locks carry
// exactly the edges real locks would: unsynchronised accesses are reported for any schedule, deterministically.
#pragma once
#include "core.hpp"
#include <errno.h>
#include <pthread.h>
#include <sys/mman.h>

#ifdef PBT_TSAN
extern "C" {
void* __tsan_get_current_fiber(void);
void* __tsan_create_fiber(unsigned flags);
void  __tsan_switch_to_fiber(void* fiber, unsigned flags);
void  __tsan_acquire(void* addr);
void  __tsan_release(void* addr);
}
#define FIB_NOSAN __attribute__((no_sanitize("thread"), noinline))
#else
#define FIB_NOSAN __attribute__((noinline))
#endif
#ifdef PBT_ASAN
extern "C" {
void __sanitizer_start_switch_fiber(void** fake_stack_save, const void* bottom, size_t size);
void __sanitizer_finish_switch_fiber(void* fake_stack_save, const void** bottom_old, size_t* size_old);
}
#endif

// x86-64 context switch (swapcontext costs two system calls and is special-cased by ASan)
extern "C" void fib_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl fib_switch
.type fib_switch,@function
fib_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size fib_switch,.-fib_switch
)");

namespace fib {
using pbt::u32;
using pbt::u64;
static constexpr int    kMax   = 4;
static constexpr size_t kStack = 512 * 1024;
enum State { kIdle, kReady, kBlocked, kDone };

struct Fibre {
    void*      sp;
    char*      stack;
    State      st;
    void*      waits;
    void*      tsan;
    void*      fake;
    bool       want_write;
};
struct LockRec {
    void* addr;
    int   owner;        // exclusive owner, -1 none (kMax: main)
    u32   readers;      // number of shared holds
    u32   rc[kMax + 1]; // per thread
};
struct Sched {
    Fibre      f[kMax];
    void*      main_sp;
    void*      main_fake;
    const void* main_bottom;
    size_t     main_size;
    void*      main_tsan;
    bool       made;
    int        n, cur; // cur == kMax: main
    u64        steps, switches, blocks;
    // schedule
    u32        np, ip;
    u32        pre_delta[32], pre_to[32];
    u64        last_pre;
    u32        noise; // 0: only the explicit preemptions; otherwise one step in `noise` switches
    u64        nseed;
    LockRec    locks[64];
    void (*job)(int);
};
inline Sched S;
inline int   g_in_fibre = 0;
inline char  g_start;

FIB_NOSAN inline void swap_to(int to) { // switch from S.cur to `to`
    int from = S.cur;
    S.cur    = to;
    g_in_fibre = to != kMax;
#ifdef PBT_ASAN
    __sanitizer_start_switch_fiber(from == kMax ? &S.main_fake : &S.f[from].fake, to == kMax ? S.main_bottom : S.f[to].stack, to == kMax ? S.main_size : kStack);
#endif
#ifdef PBT_TSAN
    // starting a thread and joining it synchronise; switches between threads do not
    __tsan_switch_to_fiber(to == kMax ? S.main_tsan : S.f[to].tsan, from == kMax || to == kMax ? 0 : 1);
#endif
    fib_switch(from == kMax ? &S.main_sp : &S.f[from].sp, to == kMax ? S.main_sp : S.f[to].sp);
#ifdef PBT_ASAN
    __sanitizer_finish_switch_fiber(from == kMax ? S.main_fake : S.f[from].fake, nullptr, nullptr);
#endif
}
FIB_NOSAN inline void to_next(); // current fibre cannot go on

FIB_NOSAN inline void entry() {
#ifdef PBT_ASAN
    if (!S.main_bottom) __sanitizer_finish_switch_fiber(nullptr, &S.main_bottom, &S.main_size);
    else __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
#endif
    for (;;) {
        int me = S.cur;
#ifdef PBT_TSAN
        __tsan_acquire(&g_start);
#endif
        S.job(me);
        S.f[me].st = kDone;
#ifdef PBT_TSAN
        __tsan_release(&S.f[me]); // what this thread did happens before whoever joins it
#endif
        to_next();
    }
}
FIB_NOSAN inline int pick(int start) {
    for (int k = 0; k < S.n; ++k) {
        int t = (start + k) % S.n;
        if (S.f[t].st == kReady) return t;
    }
    return -1;
}
FIB_NOSAN inline void to_next() {
    int t = pick(S.cur + 1);
    if (t < 0) {
        for (int k = 0; k < S.n; ++k)
            if (S.f[k].st == kBlocked) {
                char b[400];
                int  o = 0;
                for (int q = 0; q < S.n; ++q) {
                    const char* own = "";
                    char        ob[64];
                    if (S.f[q].st == kBlocked) {
                        for (auto& l : S.locks)
                            if (l.addr == S.f[q].waits) { snprintf(ob, sizeof ob, " (held by thread %d, %u readers)", l.owner, l.readers); own = ob; }
                        o += snprintf(b + o, sizeof b - o, "thread %d waits for lock %p%s; ", q, S.f[q].waits, own);
                    }
                }
                pbt::fail("deadlock: %s", b);
            }
        swap_to(kMax);
        return;
    }
    ++S.switches;
    if (t != S.cur) swap_to(t);
}
FIB_NOSAN inline void yield() {
    if (!g_in_fibre) return;
    ++S.steps;
    int to = -1;
    if (S.ip < S.np && S.steps - S.last_pre >= S.pre_delta[S.ip]) {
        to = (S.cur + 1 + S.pre_to[S.ip] % (S.n > 1 ? S.n - 1 : 1)) % S.n;
        ++S.ip;
        S.last_pre = S.steps;
    } else if (S.noise) {
        u64 h = pbt::mix64(S.nseed ^ (S.steps * 0x9E3779B97F4A7C15ull));
        if (h % S.noise == 0) to = (int)((h >> 32) % S.n);
    }
    if (to < 0) return;
    to = pick(to);
    if (to < 0 || to == S.cur) return;
    ++S.switches;
    swap_to(to);
}
FIB_NOSAN inline u64 clock() { return ++S.steps; } // a time stamp of its own

FIB_NOSAN inline LockRec* rec(void* a, bool create) {
    LockRec* freeslot = nullptr;
    for (auto& l : S.locks) {
        if (l.addr == a) return &l;
        if (!l.addr && !freeslot) freeslot = &l;
    }
    if (!create) return nullptr;
    if (!freeslot) { fprintf(stderr, "lock table full\n"); _exit(3); }
    freeslot->addr    = a;
    freeslot->owner   = -1;
    freeslot->readers = 0;
    for (u32& c : freeslot->rc) c = 0;
    return freeslot;
}
FIB_NOSAN inline int who() { return g_in_fibre ? S.cur : kMax; }
FIB_NOSAN inline bool can(LockRec* l, bool write) { return write ? l->owner < 0 && !l->readers : l->owner < 0; }
FIB_NOSAN inline void take(LockRec* l, bool write) {
    if (write) l->owner = who();
    else { ++l->readers; ++l->rc[who()]; }
#ifdef PBT_TSAN
    __tsan_acquire(l->addr);
    if (write) __tsan_acquire((char*)l->addr + 1);
#endif
}
FIB_NOSAN inline void wake(void* a) {
    for (int k = 0; k < S.n; ++k)
        if (S.f[k].st == kBlocked && S.f[k].waits == a) S.f[k].st = kReady;
}
FIB_NOSAN inline int lock(void* a, bool write, bool try_only) {
    yield();
    for (;;) {
        LockRec* l = rec(a, true);
        if (can(l, write)) { take(l, write); break; }
        if (try_only) return EBUSY;
        if (!g_in_fibre) pbt::fail("a lock is taken that is never released (%s lock %p is held by %d, %u readers)", write ? "exclusive" : "shared", a, l->owner, l->readers);
        ++S.blocks;
        S.f[S.cur].st    = kBlocked;
        S.f[S.cur].waits = a;
        to_next();
    }
    yield();
    return 0;
}
FIB_NOSAN inline int unlock(void* a, bool mutex_only) {
    LockRec* l = rec(a, false);
    int      w = who();
    if (!l || (l->owner != w && !l->rc[w])) pbt::fail("a thread releases a lock it does not hold");
    bool write = l->owner == w;
#ifdef PBT_TSAN
    __tsan_release(write ? a : (char*)a + 1);
#endif
    if (write) l->owner = -1;
    else { --l->readers; --l->rc[w]; }
    if (l->owner < 0 && !l->readers) l->addr = nullptr;
    wake(a);
    yield();
    return 0;
}
FIB_NOSAN inline bool holds_any() {
    int w = who();
    for (auto& l : S.locks)
        if (l.addr && (l.owner == w || l.rc[w])) return true;
    return false;
}
// run job(0..n-1) under the schedule
FIB_NOSAN inline void run(int n, void (*job)(int)) {
    if (!S.made) {
        S.made = true;
        for (int k = 0; k < kMax; ++k) {
            S.f[k].stack = (char*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            void** sp = (void**)(S.f[k].stack + kStack);
            *--sp     = nullptr; // fake return address
            *--sp     = (void*)entry;
            for (int q = 0; q < 6; ++q) *--sp = nullptr;
            S.f[k].sp = sp;
#ifdef PBT_TSAN
            S.f[k].tsan = __tsan_create_fiber(0);
#endif
        }
    }
#ifdef PBT_TSAN
    S.main_tsan = __tsan_get_current_fiber();
#endif
    S.n        = n;
    S.job      = job;
    S.cur      = kMax;
    S.steps    = S.switches = S.blocks = 0;
    S.ip       = 0;
    S.last_pre = 0;
    for (int k = 0; k < kMax; ++k) {
        S.f[k].st    = k < n ? kReady : kIdle;
        S.f[k].waits = nullptr;
    }
#ifdef PBT_TSAN
    // creating the threads: what came before happens before each of them
    __tsan_release(&g_start);
#endif
    swap_to(0);
#ifdef PBT_TSAN
    for (int k = 0; k < n; ++k) __tsan_acquire(&S.f[k]);
#endif
    for (auto& l : S.locks)
        if (l.addr) pbt::fail("a thread ended while holding lock %p", l.addr);
}
} // namespace fib

extern "C" {
FIB_NOSAN int pthread_mutex_lock(pthread_mutex_t* m) __THROWNL { return fib::lock(m, true, false); }
FIB_NOSAN int pthread_mutex_trylock(pthread_mutex_t* m) __THROWNL { return fib::lock(m, true, true); }
FIB_NOSAN int pthread_mutex_unlock(pthread_mutex_t* m) __THROWNL { return fib::unlock(m, true); }
FIB_NOSAN int pthread_rwlock_rdlock(pthread_rwlock_t* m) __THROWNL { return fib::lock(m, false, false); }
FIB_NOSAN int pthread_rwlock_wrlock(pthread_rwlock_t* m) __THROWNL { return fib::lock(m, true, false); }
FIB_NOSAN int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) __THROWNL { return fib::lock(m, false, true); }
FIB_NOSAN int pthread_rwlock_trywrlock(pthread_rwlock_t* m) __THROWNL { return fib::lock(m, true, true); }
FIB_NOSAN int pthread_rwlock_unlock(pthread_rwlock_t* m) __THROWNL { return fib::unlock(m, false); }
}
