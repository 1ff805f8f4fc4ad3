// Minimal stateful property-based-testing engine used by every check in /verif.
//
// A target is one program: it defines `pbt_gen` (draws a random case) and `pbt_run`
// (executes a case against the code under test and an oracle). A case is data only
// (a config vector + a list of operations with integer arguments, every argument being
// reduced modulo what is meaningful at run time), so that deleting operations or shrinking
// arguments always gives another legal case: that is what makes shrinking and replay trivial.
//
// Cases run inside forked workers: a failed oracle, a sanitizer report, a signal or a hang
// (CPU time) of a worker identifies the case, which the parent then shrinks by re-executing
// candidates in forked children.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#if defined(__has_feature)
    #if __has_feature(address_sanitizer)
        #define PBT_ASAN 1
    #endif
    #if __has_feature(thread_sanitizer)
        #define PBT_TSAN 1
    #endif
#endif
#if defined(__SANITIZE_ADDRESS__)
    #define PBT_ASAN 1
#endif
#if defined(__SANITIZE_THREAD__)
    #define PBT_TSAN 1
#endif

#ifdef PBT_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t),
                                                         void (*)(const volatile void*));
#endif

#ifdef PBT_TSAN
extern "C" const char* __tsan_default_options() {
    return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:detect_deadlocks=0:history_size=4";
}
#endif
#ifdef PBT_ASAN
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=67:abort_on_error=0:handle_abort=1:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:max_allocation_size_mb=6000:quarantine_size_mb=32";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=68"; }
#endif

namespace pbt {
using u64 = uint64_t;
using u32 = uint32_t;

inline u64 mix64(u64 z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed)
        : s(seed) {}
    u64  next() { return mix64(s += 0x9e3779b97f4a7c15ull); }
    u32  u() { return (u32)(next() >> 32); }
    u32  below(u64 n) { return n ? (u32)(next() % n) : 0; }
    u32  range(u32 lo, u32 hi) { return lo + below((u64)hi - lo + 1); } // inclusive
    bool chance(u32 num, u32 den) { return below(den) < num; }
    // magnitude-skewed value in [0, 2^maxbits)
    u32 skewed(u32 maxbits) { return below(1ull << below(maxbits + 1)); }
};

struct Op {
    u32 code, a, b, c, d;
};

struct Case {
    std::vector<u32> cfg;
    std::vector<Op>  ops;

    u64 hash() const {
        u64 h = 1469598103934665603ull;
        auto add = [&](u32 x) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; };
        for (u32 x : cfg) add(x);
        add(0xffffffff);
        for (auto& o : ops) { add(o.code); add(o.a); add(o.b); add(o.c); add(o.d); }
        return h;
    }
    u32 c(size_t i) const { return i < cfg.size() ? cfg[i] : 0; }
};

static constexpr int kMaxCounters = 48;
struct Shared { // one per worker, in shared memory
    std::atomic<u64> current; // index+1 of the case being run
    std::atomic<u64> done;
    std::atomic<u64> nnontriv;
    std::atomic<u64> maxus; // slowest case
    std::atomic<u64> counters[kMaxCounters];
    u64              samples[4];
    std::atomic<u32> nsamples;
    char             msg[4096];
};

struct Ctx {
    bool nontrivial = false;
    u64  counters[kMaxCounters] = {};
    bool verbose    = false;
    int  opno       = -1;
};

inline Ctx*    g_ctx    = nullptr;
inline Shared* g_shared = nullptr;

} // namespace pbt

// -------- to be supplied by the target ------------------------------------------------
#ifndef PBT_NAME
    #define PBT_NAME "unnamed"
#endif
inline const char* const pbt_target_name = PBT_NAME;
extern const char* const* pbt_op_names; // may be null
extern int                pbt_num_ops;
extern const char*        pbt_rule;            // what a case is, and when it is non-trivial
extern const char* const* pbt_counter_names;   // null terminated
void                      pbt_gen(pbt::Rng& r, pbt::Case& c);
void                      pbt_run(const pbt::Case& c, pbt::Ctx& ctx);

namespace pbt {

[[noreturn]] inline void fail(const char* fmt, ...) {
    char    buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    char full[2300];
    snprintf(full, sizeof full, "op #%d: %s", g_ctx ? g_ctx->opno : -1, buf);
    if (g_shared)
        snprintf(g_shared->msg, sizeof g_shared->msg, "%s", full);
    fprintf(stderr, "PBT-FAIL %s\n", full);
    fflush(stderr);
    _exit(42);
}

#define PBT_CHECK(cond, ...)                 \
    do {                                     \
        if (__builtin_expect(!(cond), 0))    \
            ::pbt::fail(__VA_ARGS__);        \
    } while (0)
#define PBT_REQUIRE(cond) PBT_CHECK(cond, "%s:%d: %s", __FILE__, __LINE__, #cond)
#define PBT_EQ(a, b)                                                                                              \
    do {                                                                                                          \
        auto _pa = (a);                                                                                           \
        auto _pb = (b);                                                                                           \
        if (__builtin_expect(!(_pa == _pb), 0))                                                                   \
            ::pbt::fail("%s:%d: %s == %s : got %lld, expected %lld", __FILE__, __LINE__, #a, #b, (long long)_pa,  \
                        (long long)_pb);                                                                          \
    } while (0)

inline void note(int counter, u64 n = 1) {
    if (g_ctx)
        g_ctx->counters[counter] += n;
}

inline std::string to_text(const Case& c) {
    std::string s = "cfg";
    char        b[160];
    for (u32 x : c.cfg) {
        snprintf(b, sizeof b, " %u", x);
        s += b;
    }
    s += "\n";
    for (auto& o : c.ops) {
        snprintf(b, sizeof b, "op %u %u %u %u %u %s\n", o.code, o.a, o.b, o.c, o.d,
                 pbt_op_names && (int)o.code < pbt_num_ops ? pbt_op_names[o.code] : "");
        s += b;
    }
    return s;
}

inline bool from_file(const char* path, Case& c) {
    FILE* f = fopen(path, "r");
    if (!f)
        return false;
    char line[65536];
    while (fgets(line, sizeof line, f)) {
        if (!strncmp(line, "cfg", 3)) {
            char* p = line + 3;
            char* e;
            for (;;) {
                unsigned long v = strtoul(p, &e, 10);
                if (e == p)
                    break;
                c.cfg.push_back((u32)v);
                p = e;
            }
        } else if (!strncmp(line, "op ", 3)) {
            Op o{};
            if (sscanf(line + 3, "%u %u %u %u %u", &o.code, &o.a, &o.b, &o.c, &o.d) >= 1)
                c.ops.push_back(o);
        }
    }
    fclose(f);
    return true;
}

// ---- live allocation counting (ASan builds) -> leak oracle for every case --------------
inline long g_live = 0;
#ifdef PBT_ASAN
inline void hook_malloc(const volatile void*, size_t) { ++g_live; }
inline void hook_free(const volatile void* p) {
    if (p)
        --g_live;
}
#endif

inline void arm_cpu_limit(int seconds) {
    struct itimerval it {};
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &it, nullptr); // SIGPROF's default action ends the process
}

inline void run_one(const Case& c, Ctx& ctx) {
    g_ctx       = &ctx;
    long before = g_live;
    pbt_run(c, ctx);
    long after = g_live;
#ifdef PBT_ASAN
    if (after != before) {
        // tolerate one-time initialisations (statics, thread-locals): run again
        Ctx ctx2;
        g_ctx  = &ctx2;
        before = g_live;
        pbt_run(c, ctx2);
        after = g_live;
        g_ctx = &ctx;
        if (after > before) {
            Ctx ctx3; // a third time: growth must be reproducible
            g_ctx       = &ctx3;
            long before3 = g_live;
            pbt_run(c, ctx3);
            g_ctx = &ctx;
            if (g_live > before3)
                fail("memory leak: %ld allocation(s) made by this history are never released", g_live - before3);
        }
    }
#endif
    g_ctx = nullptr;
}

inline u64 case_seed(u64 seed, u64 idx) {
    u64 h = mix64(seed * 0x2545F4914F6CDD1Dull + 0x1234567);
    for (const char* p = pbt_target_name; *p; ++p)
        h = mix64(h ^ (unsigned char)*p);
    return mix64(h ^ (idx * 0xD1342543DE82EF95ull));
}
inline Case make_case(u64 seed, u64 idx) {
    Rng  r(case_seed(seed, idx));
    Case c;
    pbt_gen(r, c);
    return c;
}

inline double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

enum { kOk = 0 };

struct Exec {
    int         status = 0; // waitpid status; 0 = passed
    std::string msg;
    std::string err;
};

inline std::string describe_status(int st) {
    char b[128];
    if (WIFEXITED(st)) {
        int e = WEXITSTATUS(st);
        snprintf(b, sizeof b, "%s (exit %d)",
                 e == 42   ? "oracle failed"
                 : e == 66 ? "ThreadSanitizer report"
                 : e == 67 ? "AddressSanitizer report"
                 : e == 68 ? "UndefinedBehaviorSanitizer report"
                           : "abnormal exit",
                 e);
    } else if (WIFSIGNALED(st)) {
        int g = WTERMSIG(st);
        snprintf(b, sizeof b, "%s (signal %d)", g == SIGPROF ? "no termination within the CPU limit" : "crash", g);
    } else
        snprintf(b, sizeof b, "status %d", st);
    return b;
}

inline Shared* map_shared(size_t n) {
    void* p = mmap(nullptr, sizeof(Shared) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(3);
    }
    return (Shared*)p;
}

// run one case in a forked child
inline Exec exec_case(const Case& c, int cpu_limit, bool keep_err, int repeat = 1, double wall_limit = 0) {
    static Shared* sh = map_shared(1);
    sh->msg[0]        = 0;
    int fd[2]         = { -1, -1 };
    char tmpl[]       = "/tmp/pbt_errXXXXXX";
    if (keep_err) {
        fd[0] = mkstemp(tmpl);
        unlink(tmpl);
    }
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        int out = keep_err ? fd[0] : open("/dev/null", O_WRONLY);
        dup2(out, 2);
        dup2(out, 1);
        g_shared = sh;
        arm_cpu_limit(cpu_limit);
        for (int i = 0; i < repeat; ++i) {
            Ctx ctx;
            run_one(c, ctx);
        }
        _exit(0);
    }
    Exec   e;
    double t0 = now();
    if (wall_limit <= 0)
        wall_limit = cpu_limit * 6 + 60;
    for (;;) {
        pid_t r = waitpid(pid, &e.status, WNOHANG);
        if (r == pid)
            break;
        if (now() - t0 > wall_limit) {
            kill(pid, SIGKILL);
            waitpid(pid, &e.status, 0);
            e.status = SIGPROF; // treated as "no termination"
            break;
        }
        usleep(e.status == 0 && now() - t0 < 0.01 ? 100 : 2000);
    }
    e.msg = sh->msg;
    if (keep_err) {
        char buf[16384];
        lseek(fd[0], 0, SEEK_SET);
        ssize_t n = read(fd[0], buf, sizeof buf - 1);
        if (n > 0)
            e.err.assign(buf, n);
        close(fd[0]);
    }
    return e;
}

inline bool failed(const Exec& e) { return e.status != 0; }

inline Case shrink(Case best, int& execs, bool hang, double budget_s, int repeat) {
    double t0  = now();
    int    cpu = hang ? 3 : 10;
    auto   ok  = [&]() { return now() - t0 < budget_s && execs < 4000; };
    auto   bad = [&](const Case& c) {
        ++execs;
        Exec e = exec_case(c, cpu, false, repeat, hang ? 8 : 0);
        return failed(e);
    };
    bool progress = true;
    while (progress && ok()) {
        progress = false;
        // 1. delete chunks of operations
        for (size_t chunk = std::max<size_t>(1, best.ops.size() / 2); ok(); chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.ops.size() && ok();) {
                Case c = best;
                c.ops.erase(c.ops.begin() + i, c.ops.begin() + i + chunk);
                if (bad(c)) {
                    best     = c;
                    progress = true;
                } else
                    i += chunk;
            }
            if (chunk <= 1)
                break;
        }
        // 2. shrink arguments
        auto try_val = [&](u32 Op::*m, size_t i) {
            u32 v = best.ops[i].*m;
            if (!v)
                return;
            for (u32 cand : { 0u, 1u, v / 2, v - v / 4, v - 1 }) {
                if (cand >= v || !ok())
                    continue;
                Case c     = best;
                c.ops[i].*m = cand;
                if (bad(c)) {
                    best     = c;
                    progress = true;
                    return;
                }
            }
        };
        for (size_t i = 0; i < best.ops.size() && ok(); ++i)
            for (auto m : { &Op::a, &Op::b, &Op::c, &Op::d })
                try_val(m, i);
        for (size_t i = 0; i < best.cfg.size() && ok(); ++i) {
            u32 v = best.cfg[i];
            for (u32 cand : { 0u, 1u, v / 2, v ? v - 1 : 0 }) {
                if (cand >= v || !ok())
                    continue;
                Case c   = best;
                c.cfg[i] = cand;
                if (bad(c)) {
                    best     = c;
                    progress = true;
                    break;
                }
            }
        }
    }
    return best;
}

inline std::string json_escape(const std::string& s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        } else if (ch == '\n')
            o += "\\n";
        else if (ch < 32 || ch > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else
            o += ch;
    }
    return o;
}

inline int pbt_main(int argc, char** argv) {
    u64         seed = 1, cases = 1000;
    int         workers = 8, repeat = 1, cpu_limit = 10;
    double      cap = 300;
    const char *out = nullptr, *replay_out = nullptr, *mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string k = argv[i];
        if (k == "--seed") seed = strtoull(argv[i + 1], 0, 10);
        else if (k == "--cases") cases = strtoull(argv[i + 1], 0, 10);
        else if (k == "--workers") workers = atoi(argv[i + 1]);
        else if (k == "--cap") cap = atof(argv[i + 1]);
        else if (k == "--out") out = argv[i + 1];
        else if (k == "--replay-out") replay_out = argv[i + 1];
        else if (k == "--repeat") repeat = atoi(argv[i + 1]);
        else if (k == "--cpu") cpu_limit = atoi(argv[i + 1]);
    }
#ifdef PBT_ASAN
    __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
#endif
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);

    if (!strcmp(mode, "replay")) {
        Case c;
        if (argc >= 3) {
            FILE* f = fopen(argv[2], "r");
            char  line[65536];
            while (f && fgets(line, sizeof line, f)) {
                unsigned long long s, cu;
                int                w, W;
                if (sscanf(line, "prefix %llu %d %d %llu", &s, &w, &W, &cu) == 4) {
                    for (u64 i = w; i < cu; i += W) {
                        Ctx ctx;
                        run_one(make_case(s, i), ctx);
                    }
                    printf("replay: history passed\n");
                    return 0;
                }
            }
            if (f)
                fclose(f);
        }
        if (argc < 3 || !from_file(argv[2], c)) {
            fprintf(stderr, "cannot read %s\n", argc > 2 ? argv[2] : "?");
            return 3;
        }
        for (int i = 0; i < repeat; ++i) {
            Ctx ctx;
            ctx.verbose = true;
            run_one(c, ctx);
        }
        printf("replay: case passed\n");
        return 0;
    }
    if (!strcmp(mode, "show")) {
        printf("%s", to_text(make_case(seed, cases)).c_str());
        return 0;
    }
    if (strcmp(mode, "search")) {
        fprintf(stderr, "usage: search|replay|show\n");
        return 3;
    }

    double  t0      = now();
    Shared* sh      = map_shared(workers);
    u64     per     = cases / workers + 1;
    u64*    nthash  = (u64*)mmap(nullptr, sizeof(u64) * per * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::vector<pid_t> pids(workers, -1);
    std::vector<int>   errfd(workers, -1);
    fflush(stdout);
    for (int w = 0; w < workers; ++w) {
        char tmpl[] = "/tmp/pbt_werrXXXXXX";
        errfd[w]    = mkstemp(tmpl);
        unlink(tmpl);
        pid_t pid = fork();
        if (pid == 0) {
            dup2(errfd[w], 2);
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1);
            g_shared = &sh[w];
            for (u64 i = w; i < cases; i += workers) {
                if (now() - t0 > cap)
                    break;
                Case c = make_case(seed, i);
                g_shared->current.store(i + 1);
                arm_cpu_limit(cpu_limit);
                Ctx    ctx;
                double tc = now();
                run_one(c, ctx);
                u64 us = (u64)((now() - tc) * 1e6);
                if (us > g_shared->maxus.load())
                    g_shared->maxus.store(us);
                if (ctx.nontrivial) {
                    u64 n = g_shared->nnontriv.fetch_add(1);
                    nthash[per * w + n] = c.hash();
                    if (g_shared->nsamples.load() < 2 && c.ops.size() <= 24)
                        g_shared->samples[g_shared->nsamples.fetch_add(1)] = i;
                }
                for (int k = 0; k < kMaxCounters; ++k)
                    if (ctx.counters[k])
                        g_shared->counters[k].fetch_add(ctx.counters[k]);
                g_shared->done.fetch_add(1);
            }
            _exit(0);
        }
        pids[w] = pid;
    }
    int  alive = workers;
    int  bad_w = -1, bad_status = 0;
    std::vector<u64>    lastcur(workers, 0);
    std::vector<double> lastt(workers, now());
    std::vector<char>   isalive(workers, 1);
    while (alive && bad_w < 0) {
        for (int w = 0; w < workers && bad_w < 0; ++w) {
            if (!isalive[w])
                continue;
            int   st;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w]) {
                isalive[w] = 0;
                --alive;
                if (st != 0) {
                    bad_w      = w;
                    bad_status = st;
                }
            } else {
                // blocked without using CPU (deadlock): generous wall-clock backstop
                u64 cur = sh[w].current.load();
                if (cur != lastcur[w]) {
                    lastcur[w] = cur;
                    lastt[w]   = now();
                } else if (now() - lastt[w] > cpu_limit * 6 + 60) {
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                    isalive[w] = 0;
                    --alive;
                    bad_w      = w;
                    bad_status = SIGPROF;
                }
            }
        }
        if (alive && bad_w < 0)
            usleep(5000);
    }
    for (int w = 0; w < workers; ++w)
        if (isalive[w]) {
            kill(pids[w], SIGKILL);
            int st;
            waitpid(pids[w], &st, 0);
        }

    u64 evals = 0, nnt = 0, maxus = 0;
    u64 counters[kMaxCounters] = {};
    std::unordered_set<u64> distinct;
    for (int w = 0; w < workers; ++w) {
        evals += sh[w].done.load();
        maxus = std::max<u64>(maxus, sh[w].maxus.load());
        u64 n = sh[w].nnontriv.load();
        nnt += n;
        for (u64 i = 0; i < n; ++i)
            distinct.insert(nthash[per * w + i]);
        for (int k = 0; k < kMaxCounters; ++k)
            counters[k] += sh[w].counters[k].load();
    }

    bool        violation = false, flaky = false;
    std::string vmsg;
    int         execs = 0;
    if (bad_w >= 0) {
        u64 cur = sh[bad_w].current.load();
        std::string first_err;
        {
            char buf[8192];
            lseek(errfd[bad_w], 0, SEEK_SET);
            ssize_t n = read(errfd[bad_w], buf, sizeof buf - 1);
            if (n > 0)
                first_err.assign(buf, n);
        }
        if (cur == 0) {
            fprintf(stderr, "worker died before its first case: %s\n%s\n", describe_status(bad_status).c_str(), first_err.c_str());
            return 3;
        }
        if (WIFSIGNALED(bad_status) && WTERMSIG(bad_status) == SIGKILL && bad_status != SIGPROF) {
            fprintf(stderr, "worker was killed (out of memory?)\n");
            // an inconclusive ending of the machine, not of the property: retry below decides
        }
        Case c    = make_case(seed, cur - 1);
        bool hang = bad_status == SIGPROF || (WIFSIGNALED(bad_status) && WTERMSIG(bad_status) == SIGPROF);
        int  nrep = 0;
        Exec e;
        // a case that ran out of CPU time may just be slow: it gets nine times as much before it counts as a hang
        int tries = hang ? 1 : repeat > 1 ? 10 : 3;
        for (int k = 0; k < tries; ++k) {
            e = exec_case(c, hang ? 9 * cpu_limit : cpu_limit, true, repeat, hang ? 12 * cpu_limit : 0);
            if (failed(e))
                ++nrep;
        }
        if (nrep == 0 && hang) {
            flaky = true;
            vmsg  = "a slow case";
        } else if (nrep == 0 && !(WIFEXITED(bad_status) && WEXITSTATUS(bad_status) == 66)) {
            // depends on earlier cases of the same worker (state leaking between cases) or on the
            // machine: replay the worker's prefix in a fresh process, deterministically
            fprintf(stderr, "case %llu failed once (%s) but not on replay\n%s\n", (unsigned long long)(cur - 1),
                    describe_status(bad_status).c_str(), first_err.c_str());
            int again = 0;
            for (int k = 0; k < 3; ++k) {
                pid_t pid = fork();
                if (pid == 0) {
                    int dn = open("/dev/null", O_WRONLY);
                    dup2(dn, 1);
                    dup2(dn, 2);
                    for (u64 i = bad_w; i < cur; i += workers) {
                        Case cc = make_case(seed, i);
                        arm_cpu_limit(cpu_limit);
                        Ctx ctx;
                        run_one(cc, ctx);
                    }
                    _exit(0);
                }
                int st = 0;
                waitpid(pid, &st, 0);
                if (st != 0)
                    ++again;
            }
            vmsg = describe_status(bad_status) + ": " + first_err.substr(0, 600);
            if (again == 3) {
                violation = true;
                if (replay_out) {
                    FILE* f = fopen(replay_out, "w");
                    if (f) {
                        fprintf(f, "# target %s\n# fails only after the earlier cases of the same process: run cases %d, %d+%d, ... %llu of seed %llu\n# %s\nprefix %llu %d %d %llu\n",
                                pbt_target_name, bad_w, bad_w, workers, (unsigned long long)(cur - 1), (unsigned long long)seed,
                                describe_status(bad_status).c_str(), (unsigned long long)seed, bad_w, workers, (unsigned long long)cur);
                        fclose(f);
                    }
                }
            } else
                flaky = true;
        } else {
            violation  = true;
            Case small = nrep ? shrink(c, execs, hang, 60, repeat) : c;
            // confirm three times
            int okc = 0;
            for (int k = 0; k < 3; ++k) {
                Exec x = exec_case(small, cpu_limit, true, repeat, hang ? 2 * cpu_limit : 0);
                if (failed(x)) {
                    ++okc;
                    e = x;
                }
            }
            if (okc < 3 && nrep && repeat <= 1)
                small = c;
            std::string detail = e.err.empty() ? first_err : e.err;
            int         st     = failed(e) ? e.status : bad_status;
            vmsg = describe_status(st) + ": " + (e.msg.empty() ? detail.substr(0, 1500) : e.msg);
            if (replay_out) {
                FILE* f = fopen(replay_out, "w");
                if (f) {
                    fprintf(f, "# target %s\n# original case: seed %llu index %llu, %zu ops; shrunk to %zu ops (%d executions)\n",
                            pbt_target_name, (unsigned long long)seed, (unsigned long long)(cur - 1), c.ops.size(),
                            small.ops.size(), execs);
                    std::string cm = vmsg + "\n" + detail;
                    size_t      p  = 0;
                    while (p < cm.size()) {
                        size_t q = cm.find('\n', p);
                        if (q == std::string::npos)
                            q = cm.size();
                        fprintf(f, "# %s\n", cm.substr(p, q - p).c_str());
                        p = q + 1;
                    }
                    fputs(to_text(small).c_str(), f);
                    fclose(f);
                }
            }
        }
    }

    if (out) {
        FILE* f = fopen(out, "w");
        if (!f) {
            perror(out);
            return 3;
        }
        fprintf(f, "{\"target\":\"%s\",\"evaluations\":%llu,\"planned\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"seed\":%llu,\"wall_s\":%.2f,\"max_case_ms\":%.1f,",
                pbt_target_name, (unsigned long long)evals, (unsigned long long)cases, (unsigned long long)nnt, distinct.size(),
                (unsigned long long)seed, now() - t0, maxus / 1000.0);
        fprintf(f, "\"rule\":\"%s\",", json_escape(pbt_rule).c_str());
        fprintf(f, "\"counters\":{");
        bool first = true;
        for (int k = 0; pbt_counter_names && pbt_counter_names[k] && k < kMaxCounters; ++k) {
            fprintf(f, "%s\"%s\":%llu", first ? "" : ",", pbt_counter_names[k], (unsigned long long)counters[k]);
            first = false;
        }
        fprintf(f, "},\"samples\":[");
        first  = true;
        int ns = 0;
        for (int w = 0; w < workers && ns < 3; ++w)
            for (u32 k = 0; k < sh[w].nsamples.load() && ns < 3; ++k, ++ns) {
                fprintf(f, "%s\"%s\"", first ? "" : ",", json_escape(to_text(make_case(seed, sh[w].samples[k]))).c_str());
                first = false;
            }
        fprintf(f, "],\"violation\":%s,\"flaky\":%s,\"message\":\"%s\"}\n", violation ? "true" : "false", flaky ? "true" : "false",
                json_escape(vmsg).c_str());
        fclose(f);
    }
    if (violation) {
        printf("FAILED %s: %s\n", pbt_target_name, vmsg.substr(0, 600).c_str());
        return 1;
    }
    return flaky ? 4 : 0;
}

} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
#endif
