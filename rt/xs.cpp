// Controlled-concurrency runtime, see xs.h. Compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "xs.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <initializer_list>
#include <linux/futex.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define NOINL __attribute__((noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
typedef uintptr_t uptr;

// ---------------------------------------------------------------- raw syscalls
static inline long
sys6(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(r)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
static inline long
sysret(long r)
{
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

namespace xs {
Shared* shared = nullptr;
}
using namespace xs;

// ---------------------------------------------------------------- layout
static const int MAXT = 160;
static const uptr ARENA = 0x200000000000ull;
static const uptr ARENA_SIZE = 768ull << 20;
static const uptr STK = 0x210000000000ull;
static const uptr STK_SLOT = 1024ull << 10; // per thread, lowest page unmapped guard
static const uptr RAW = 0x220000000000ull;
static const uptr RAW_SIZE = 256ull << 20;
static const uptr SH_ARENA = 0x230000000000ull; // shadow cells, 8x
static const uptr SH_STK = 0x240000000000ull;
static const uptr SH_GLB = 0x250000000000ull;
static const uptr ST_ARENA = 0x260000000000ull; // state byte per granule
extern "C" char __data_start, _end;

static bool g_mapped = false;
static volatile uptr g_brk = ARENA + 64;
static uptr g_raw = RAW;
static uint64_t g_live_bytes, g_live_blocks;

struct Cell
{
    uint32_t clk;
    uint32_t pc;
    uint8_t tid, mask, flags, pad;
    uint32_t pad2;
}; // 16 bytes
enum { F_W = 1, F_A = 2, F_FREE = 4 };
struct Group { Cell c[4]; };

static void*
map_fixed(uptr a, uptr n)
{
    long r = sys6(SYS_mmap, (long)a, (long)n, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (r < 0 && r > -4096) {
        static const char m[] = "xs: mmap failed\n";
        sys6(SYS_write, 2, (long)m, sizeof(m) - 1);
        sys6(SYS_exit_group, 97);
    }
    return (void*)r;
}
static void
map_all()
{
    if (g_mapped) return;
    g_mapped = true;
    map_fixed(ARENA, ARENA_SIZE);
    map_fixed(STK, STK_SLOT * MAXT);
    map_fixed(RAW, RAW_SIZE);
    map_fixed(SH_ARENA, ARENA_SIZE * 8);
    map_fixed(SH_STK, STK_SLOT * MAXT * 8);
    uptr g = ((uptr)&_end - ((uptr)&__data_start & ~4095ull) + 8192) & ~4095ull;
    map_fixed(SH_GLB, g * 8);
    map_fixed(ST_ARENA, ARENA_SIZE / 8);
}

// ---------------------------------------------------------------- state
enum TState { T_NONE, T_RUN, T_BLK, T_DONE };
enum WKind { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_IO, W_FUTEX, W_GATE, W_QUIESCE, W_GUARD, W_RW };
struct VC { uint32_t c[MAXT]; };
struct Thr
{
    volatile int go;
    TState st;
    WKind wk;
    uptr wobj;
    int64_t deadline;
    bool timedout;
    bool signaled;
    bool frozen;      // preempted for long: see freeze_n
    int64_t thaw_vt;
    uint64_t thaw_step;
    int64_t prio;
    uptr sp;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    bool detached, joined;
    pthread_t real;
    uint32_t consec;
    struct { uptr a; uint64_t v; } spin[4]; // values read again and again without writing anything
    uint32_t spins, spin_n;
    int csn;
    uptr cs[512];
    // select/poll
    struct pollfd* pfds;
    int npfds;
    VC vc, acqp, relf;
};
static Thr g_t[MAXT];
static int g_nt = 0;
static int g_cur = -1;
static volatile bool g_active = false;
static __thread int tls_id = -1;
static __thread int tls_dead = 0;
static Config g_cfg;
static uint64_t g_rng;
static uint64_t g_steps, g_switches, g_seq, g_polls, g_hash;
static int64_t g_vt = 1000000000000ll; // virtual ns since boot
static const int64_t kRealBase = 1700000000ll * 1000000000ll;
static bool g_jumps = false;
static bool g_io_dirty = false;
static int g_quiesce = 0;
static uint64_t g_cp[16];
static int g_ncp;
static uint64_t g_fp[8];
static int g_nfp;
static int64_t g_lowprio = -1;
static uint64_t g_steplimit;

static inline uint64_t
rnd()
{
    uint64_t z = (g_rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static inline bool chance(uint32_t p) { return p && (rnd() & 65535) < p; }
static inline Thr& me() { return g_t[g_cur]; }
static inline bool sched_on() { return g_active && tls_id >= 0 && !tls_dead; }

static void futex_wait(volatile int* p, int v) { sys6(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0); }
static void futex_wake(volatile int* p) { sys6(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1); }

// ---------------------------------------------------------------- reporting
static void finish_stats()
{
    if (!shared) return;
    shared->steps = g_steps;
    shared->switches = g_switches;
    shared->trace_hash = g_hash;
    shared->threads = g_nt;
    shared->vtime_ns = (uint64_t)(g_vt - 1000000000000ll);
}
static void
sig_frames(char* out, size_t n, uptr pc, int t)
{
    size_t o = 0;
    if (pc) o += snprintf(out + o, n - o, "@%lx ", (unsigned long)pc);
    int cnt = 0;
    for (int i = g_t[t].csn - 1; i >= 0 && cnt < 24 && o + 24 < n; --i, ++cnt) {
        if (i >= 512) continue;
        o += snprintf(out + o, n - o, "@%lx ", (unsigned long)g_t[t].cs[i]);
    }
}
namespace xs {
void
backtrace_here(char* out, size_t n)
{
    out[0] = 0;
    if (g_cur >= 0) sig_frames(out, n, 0, g_cur);
}
void
fail(const char* kind, const char* fmt, ...)
{
    g_active = false;
    if (shared) {
        snprintf(shared->kind, sizeof shared->kind, "%s", kind);
        va_list ap;
        va_start(ap, fmt);
        int o = vsnprintf(shared->msg, kMsgSize, fmt, ap);
        va_end(ap);
        if (o > kMsgSize - 1) o = kMsgSize - 1;
        o += snprintf(shared->msg + o, kMsgSize - o, "\n[t=%.3fms step=%lu thread=%d]", now_ms() , (unsigned long)g_steps, g_cur);
        for (int i = 0; i < g_nt && o < kMsgSize - 300; ++i) {
            static const char* sn[] = { "none", "running", "blocked", "done" };
            static const char* wn[] = { "", "mutex", "cond", "join", "sleep", "io", "futex", "gate", "quiesce", "guard", "rwlock" };
            if (g_t[i].st == T_DONE || g_t[i].st == T_NONE) continue;
            char fr[700];
            sig_frames(fr, sizeof fr, 0, i);
            o += snprintf(shared->msg + o, kMsgSize - o, "\n  thread %d %s %s dl=%.3f: %s", i, sn[g_t[i].st],
                          g_t[i].st == T_BLK ? wn[g_t[i].wk] : "", g_t[i].deadline < 0 ? -1.0 : (double)(g_t[i].deadline - 1000000000000ll) / 1e6, fr);
            if (o > kMsgSize - 1) o = kMsgSize - 1;
        }
        finish_stats();
        shared->outcome = OC_FAIL;
    }
    sys6(SYS_exit_group, 3);
    __builtin_unreachable();
}
void
inconclusive(const char* why)
{
    g_active = false;
    if (shared) {
        snprintf(shared->kind, sizeof shared->kind, "inconclusive");
        snprintf(shared->msg, kMsgSize, "%s", why);
        finish_stats();
        shared->outcome = OC_INCONCLUSIVE;
    }
    sys6(SYS_exit_group, 4);
    __builtin_unreachable();
}
} // namespace xs

// ---------------------------------------------------------------- scheduling
static void io_recheck(int64_t)
{
    g_io_dirty = false;
    for (int i = 0; i < g_nt; ++i) {
        Thr& t = g_t[i];
        if (t.st == T_BLK && t.wk == W_IO) {
            int r = (int)sys6(SYS_poll, (long)t.pfds, t.npfds, 0);
            if (r > 0) {
                // POLLNVAL: a descriptor closed while being waited on is not noticed by the kernel
                int real = 0;
                for (int k = 0; k < t.npfds; ++k)
                    if (t.pfds[k].revents & ~POLLNVAL) real++;
                if (real) { t.st = T_RUN; t.signaled = true; }
            }
        }
    }
}
static void wake_timed(int64_t now)
{
    for (int i = 0; i < g_nt; ++i) {
        Thr& t = g_t[i];
        if (t.st == T_BLK && t.deadline >= 0 && t.deadline <= now) {
            t.st = T_RUN;
            t.timedout = true;
        }
    }
}
static int64_t earliest(bool skip_quiesce)
{
    int64_t best = -1;
    for (int i = 0; i < g_nt; ++i) {
        Thr& t = g_t[i];
        if (t.st == T_BLK && t.deadline >= 0 && !(skip_quiesce && t.wk == W_QUIESCE))
            if (best < 0 || t.deadline < best) best = t.deadline;
    }
    return best;
}
static void NOINL
switch_to(int n)
{
    int self = g_cur;
    if (n == self) return;
    g_switches++;
    g_hash = (g_hash ^ (uint64_t)(n + 1) ^ (g_steps << 8)) * 0x100000001b3ull;
    g_t[self].sp = (uptr)__builtin_frame_address(0) - 512;
    g_t[self].consec = 0;
    g_cur = n;
    __atomic_store_n(&g_t[n].go, 1, __ATOMIC_RELEASE);
    futex_wake(&g_t[n].go);
    while (!__atomic_load_n(&g_t[self].go, __ATOMIC_ACQUIRE)) futex_wait(&g_t[self].go, 0);
    g_t[self].go = 0;
}
// choose the next thread; cur_ok: the current thread may continue
static int
choose(bool cur_ok, bool force_other, bool demote)
{
    if (g_io_dirty) io_recheck(g_vt);
    int run[MAXT], n = 0;
    for (;;) {
        n = 0;
        int fz = -1;
        for (int i = 0; i < g_nt; ++i)
            if (g_t[i].st == T_RUN && (cur_ok || i != g_cur)) {
                if (UNLIKELY(g_t[i].frozen)) {
                    if (g_steps < g_t[i].thaw_step && !g_quiesce) {
                        if (fz < 0 || g_t[i].thaw_vt < g_t[fz].thaw_vt) fz = i;
                        continue;
                    }
                    g_t[i].frozen = false;
                }
                run[n++] = i;
            }
        if (n) break;
        // nobody can run: time passes
        int64_t e = earliest(false);
        if (fz >= 0 && (e < 0 || g_t[fz].thaw_vt <= e)) {
            if (g_t[fz].thaw_vt > g_vt) g_vt = g_t[fz].thaw_vt;
            g_t[fz].frozen = false;
            io_recheck(g_vt);
            wake_timed(g_vt);
            continue;
        }
        if (e < 0) {
            io_recheck(g_vt);
            bool any = false;
            for (int i = 0; i < g_nt; ++i) any |= g_t[i].st == T_RUN;
            if (any) continue;
            fail("deadlock", "deadlock: no thread can run and no timeout is pending");
        }
        if (e > g_vt) g_vt = e;
        io_recheck(g_vt);
        wake_timed(g_vt);
        if (!cur_ok && g_t[g_cur].st == T_RUN) return g_cur; // we were blocked, now ready
    }
    if (n == 1) return run[0];
    bool cur_frozen = g_cur >= 0 && g_t[g_cur].frozen;
    if (cur_frozen) cur_ok = false;
    Config& c = g_cfg;
    if (c.strategy == ST_PCT) {
        for (int k = 0; k < g_ncp; ++k)
            if (g_cp[k] == g_steps) g_t[g_cur].prio = g_lowprio--;
        if (demote) g_t[g_cur].prio = g_lowprio--;
        int b = run[0];
        for (int i = 1; i < n; ++i)
            if (g_t[run[i]].prio > g_t[b].prio) b = run[i];
        return b;
    }
    bool sw = force_other || !cur_ok;
    if (!sw && c.strategy == ST_WALK) sw = (rnd() & 65535) < c.switch_p;
    if (!sw) return g_cur;
    if (cur_ok) { // pick someone else
        int m = 0;
        for (int i = 0; i < n; ++i)
            if (run[i] != g_cur) run[m++] = run[i];
        n = m;
    }
    if (c.strategy == ST_FIFO) { // round robin
        for (int i = 0; i < n; ++i)
            if (run[i] > g_cur) return run[i];
        return run[0];
    }
    return run[rnd() % n];
}
static void
count_step()
{
    if (++g_steps > g_steplimit) {
        fail("livelock", "no quiescence after %lu scheduling points: threads keep running without progress", (unsigned long)g_steps);
    }
}
static void NOINL
sched_point(bool force_other = false)
{
    count_step();
    if (UNLIKELY(g_jumps && !g_quiesce && chance(g_cfg.jump_p))) {
        int64_t e = earliest(true);
        if (e > g_vt) {
            g_vt = e;
            io_recheck(g_vt);
            wake_timed(g_vt);
        }
    }
    for (int k = 0; k < g_nfp; ++k)
        if (UNLIKELY(g_fp[k] == g_steps) && !g_quiesce) {
            me().frozen = true;
            me().thaw_vt = g_vt + (int64_t)g_cfg.freeze_ms * 1000000;
            me().thaw_step = g_steps + g_cfg.freeze_steps;
        }
    if (++me().consec > 3000) { me().consec = 0; force_other = true; }
    int n = choose(true, force_other, force_other);
    if (n != g_cur) switch_to(n);
}
static void NOINL
block(WKind k, uptr obj, int64_t deadline)
{
    Thr& t = me();
    t.wk = k;
    t.wobj = obj;
    t.deadline = deadline;
    t.timedout = t.signaled = false;
    t.st = T_BLK;
    count_step();
    if (deadline >= 0 && deadline <= g_vt) { t.st = T_RUN; t.timedout = true; }
    int n = choose(t.st == T_RUN, true, t.st == T_RUN);
    if (n != g_cur) switch_to(n);
    t.wk = W_NONE;
    t.deadline = -1;
}
static void wake_obj(WKind k, uptr obj)
{
    for (int i = 0; i < g_nt; ++i) {
        Thr& t = g_t[i];
        if (t.st == T_BLK && t.wk == k && t.wobj == obj) { t.st = T_RUN; t.signaled = true; }
    }
}

// ---------------------------------------------------------------- vector clocks
static inline void vc_join(VC& a, const VC& b) { for (int i = 0; i < g_nt; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static inline void tick() { Thr& t = me(); t.vc.c[g_cur]++; }
// a small table, and one for programs with very many objects
static const uint32_t SV_N = 1 << 16, SV_FULL = SV_N / 2, SV_N2 = 1 << 20;
struct SyncVar { uptr key; VC* vc; };
static SyncVar g_sv[SV_N], g_sv2[SV_N2];
static VC* sync_var(uptr a, bool create)
{
    static uint32_t used, used2;
    const uptr k = a >> 3;
    const uint64_t hash = k * 0x9E3779B97F4A7C15ull;
    SyncVar* e;
    for (uint32_t h = (uint32_t)(hash >> 48) & (SV_N - 1);; h = (h + 1) & (SV_N - 1)) {
        e = &g_sv[h];
        if (e->key == k) return e->vc;
        if (!e->key) break;
    }
    if (used >= SV_FULL) {
        for (uint32_t h = (uint32_t)(hash >> 44) & (SV_N2 - 1);; h = (h + 1) & (SV_N2 - 1)) {
            e = &g_sv2[h];
            if (e->key == k) return e->vc;
            if (!e->key) break;
        }
        if (!create) return nullptr;
        if (++used2 > SV_N2 / 2) inconclusive("too many synchronisation variables");
    } else {
        if (!create) return nullptr;
        ++used;
    }
    e->key = k;
    e->vc = (VC*)raw_alloc(sizeof(VC));
    return e->vc;
}
static void hb_acquire(uptr a) { if (VC* v = sync_var(a, false)) vc_join(me().vc, *v); }
static void hb_release_set(uptr a) { *sync_var(a, true) = me().vc; tick(); }
static void hb_release_join(uptr a) { vc_join(*sync_var(a, true), me().vc); tick(); }

// ---------------------------------------------------------------- shadow
static inline Group* cell_group(uptr a)
{
    if (a - ARENA < ARENA_SIZE) return (Group*)(SH_ARENA + ((a - ARENA) >> 3) * sizeof(Group));
    if (a - STK < STK_SLOT * MAXT) return (Group*)(SH_STK + ((a - STK) >> 3) * sizeof(Group));
    uptr g0 = (uptr)&__data_start & ~4095ull;
    if (a >= g0 && a < (uptr)&_end) return (Group*)(SH_GLB + ((a - g0) >> 3) * sizeof(Group));
    return nullptr;
}
static void NOINL
report_mem(const char* kind, uptr a, int sz, int flags, uptr pc, const Cell* o)
{
    char f1[1200];
    f1[0] = 0;
    sig_frames(f1, sizeof f1, pc, g_cur);
    if (shared) snprintf(shared->sig, sizeof shared->sig, "@%lx @%x", (unsigned long)pc, o ? o->pc : 0);
    fail(kind, "%s: %s%s of %d bytes at 0x%lx by thread %d at %s; previous %s%s%s by thread %d at @%x",
         kind, flags & F_A ? "atomic " : "", flags & F_FREE ? "free" : flags & F_W ? "write" : "read", sz, (unsigned long)a, g_cur, f1,
         o ? (o->flags & F_A ? "atomic " : "") : "", o ? (o->flags & F_FREE ? "free" : o->flags & F_W ? "write" : "read") : "-", "", o ? o->tid : -1, o ? o->pc : 0);
}
static inline void
access_granule(uptr a, int off, int sz, int flags, uptr pc)
{
    if (!g_cfg.races) return;
    Group* g = cell_group(a);
    if (!g) return;
    uint8_t mask = (uint8_t)(((1u << sz) - 1) << off);
    Thr& t = me();
    int self = g_cur, slot = -1, any = -1;
    for (int i = 0; i < 4; ++i) {
        Cell& c = g->c[i];
        if (!c.mask) { if (any < 0) any = i; continue; }
        if (!(c.mask & mask)) continue;
        if (c.tid == self) {
            if (c.mask == mask && (c.flags & ~F_W) == (flags & ~F_W) && ((flags & F_W) || !(c.flags & F_W))) slot = i;
            continue;
        }
        bool hb = c.clk <= t.vc.c[c.tid];
        if (!hb && ((c.flags | flags) & F_W) && !((c.flags & F_A) && (flags & F_A))) {
            Cell copy = c;
            report_mem((flags & F_FREE) || (c.flags & F_FREE) ? "race-on-free" : "data-race", a, sz, flags, pc, &copy);
        }
        if (hb && (c.mask & ~mask) == 0 && (flags & F_W) && slot < 0) slot = i; // overwritten and ordered
    }
    if (slot < 0) slot = any;
    if (slot < 0) slot = (int)(g_steps & 3);
    Cell& c = g->c[slot];
    c.clk = t.vc.c[self];
    c.pc = (uint32_t)pc;
    c.tid = (uint8_t)self;
    c.mask = mask;
    c.flags = (uint8_t)flags;
}
static void
access_range(uptr a, uptr n, int flags, uptr pc)
{
    while (n) {
        int off = (int)(a & 7);
        int s = (int)(8 - off < (int)n || n > 8 ? (8 - off < (long)n ? 8 - off : (long)n) : (long)n);
        access_granule(a & ~7ull, off, s, flags, pc);
        a += s;
        n -= s;
    }
}
static inline void
check_mem(uptr a, int sz, int flags, uptr pc)
{
    if (a - ARENA < ARENA_SIZE) {
        uint8_t s = *(uint8_t*)(ST_ARENA + ((a - ARENA) >> 3));
        if (UNLIKELY(s >= 2)) report_mem(s == 2 ? "use-after-free" : "heap-out-of-bounds", a, sz, flags, pc, &cell_group(a)->c[3]);
    } else if (a - STK < STK_SLOT * MAXT) {
        int ow = (int)((a - STK) / STK_SLOT);
        if (UNLIKELY(ow != g_cur && (g_t[ow].st == T_DONE || (g_t[ow].sp && a < g_t[ow].sp)))) {
            Cell o;
            memset(&o, 0, sizeof o);
            o.tid = (uint8_t)ow;
            report_mem("use-after-return", a, sz, flags, pc, &o);
        }
    }
}
static inline void
plain_access(uptr a, int sz, bool w, uptr pc)
{
    if (!sched_on()) return;
    if (a - RAW < RAW_SIZE) return;
    check_mem(a, sz, w ? F_W : 0, pc);
    if (UNLIKELY(g_cfg.plain_p && chance(g_cfg.plain_p)) && (a - ARENA < ARENA_SIZE || (a < 0x100000000ull))) sched_point();
    int off = (int)(a & 7);
    if (LIKELY(off + sz <= 8)) access_granule(a & ~7ull, off, sz, w ? F_W : 0, pc);
    else access_range(a, sz, w ? F_W : 0, pc);
}
static inline void atomic_access(uptr a, int sz, bool w, uptr pc)
{
    if (a - RAW < RAW_SIZE) return;
    check_mem(a, sz, (w ? F_W : 0) | F_A, pc);
    access_granule(a & ~7ull, (int)(a & 7), sz > 8 ? 8 : sz, (w ? F_W : 0) | F_A, pc);
}

#define PC ((uptr)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc)
{
    if (!sched_on()) return;
    Thr& t = me();
    if (t.csn < 512) t.cs[t.csn] = (uptr)pc;
    t.csn++;
}
void __tsan_func_exit()
{
    if (!sched_on()) return;
    if (me().csn > 0) me().csn--;
}
#define RW(N)                                                                                  \
    void __tsan_read##N(void* p) { plain_access((uptr)p, N, false, PC); }                      \
    void __tsan_write##N(void* p) { plain_access((uptr)p, N, true, PC); }                      \
    void __tsan_unaligned_read##N(void* p) { plain_access((uptr)p, N, false, PC); }            \
    void __tsan_unaligned_write##N(void* p) { plain_access((uptr)p, N, true, PC); }            \
    void __tsan_volatile_read##N(void* p) { plain_access((uptr)p, N, false, PC); }             \
    void __tsan_volatile_write##N(void* p) { plain_access((uptr)p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n)
{
    if (!sched_on() || !n || (uptr)p - RAW < RAW_SIZE) return;
    check_mem((uptr)p, (int)n, 0, PC);
    check_mem((uptr)p + n - 1, 1, 0, PC);
    access_range((uptr)p, n, 0, PC);
}
void __tsan_write_range(void* p, unsigned long n)
{
    if (!sched_on() || !n || (uptr)p - RAW < RAW_SIZE) return;
    check_mem((uptr)p, (int)n, F_W, PC);
    check_mem((uptr)p + n - 1, 1, F_W, PC);
    access_range((uptr)p, n, F_W, PC);
}
void __tsan_vptr_update(void** p, void* v)
{
    if (*p == v) { if (sched_on()) check_mem((uptr)p, 8, F_W, PC); return; }
    plain_access((uptr)p, 8, true, PC);
}
void __tsan_vptr_read(void** p) { plain_access((uptr)p, 8, false, PC); }

static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void at_acq(uptr a, int mo)
{
    VC* v = sync_var(a, false);
    if (!v) return;
    if (is_acq(mo)) vc_join(me().vc, *v);
    else vc_join(me().acqp, *v);
}
static void at_store_rel(uptr a, int mo)
{
    if (is_rel(mo)) { *sync_var(a, true) = me().vc; tick(); }
    else {
        VC* v = sync_var(a, false);
        if (v) *v = me().relf;
        else {
            for (int i = 0; i < g_nt; ++i) if (me().relf.c[i]) { *sync_var(a, true) = me().relf; break; }
        }
    }
}
static void at_rmw_rel(uptr a, int mo)
{
    if (is_rel(mo)) { vc_join(*sync_var(a, true), me().vc); tick(); }
    else {
        VC* v = sync_var(a, false);
        if (v) vc_join(*v, me().relf);
        else {
            for (int i = 0; i < g_nt; ++i) if (me().relf.c[i]) { *sync_var(a, true) = me().relf; break; }
        }
    }
}
static void at_point_load(uptr a, uint64_t val)
{
    Thr& t = me();
    uint32_t i = 0;
    while (i < t.spins && t.spin[i].a != a) ++i;
    if (i < t.spins && t.spin[i].v == val) {
        // spinning on unchanged values: collapse most iterations
        if (++t.spin_n > 3 * t.spins) {
            if ((t.spin_n & 63) == 0) sched_point(true);
            return;
        }
    } else {
        if (i == t.spins && i < 4) ++t.spins;
        else if (i == 4) i = 0, t.spins = 1;
        t.spin[i].a = a;
        t.spin[i].v = val;
        t.spin_n = 0;
    }
    sched_point();
}
static inline void at_point(uptr) { me().spins = 0; sched_point(); }

#define AT(B, T)                                                                                                       \
    T __tsan_atomic##B##_load(const volatile T* p, int mo)                                                             \
    {                                                                                                                  \
        if (!sched_on()) return *p;                                                                                    \
        at_point_load((uptr)p, (uint64_t)*p);                                                                          \
        atomic_access((uptr)p, sizeof(T), false, PC);                                                                  \
        T v = *p;                                                                                                      \
        at_acq((uptr)p, mo);                                                                                           \
        return v;                                                                                                      \
    }                                                                                                                  \
    void __tsan_atomic##B##_store(volatile T* p, T v, int mo)                                                          \
    {                                                                                                                  \
        if (!sched_on()) { *p = v; return; }                                                                           \
        at_point((uptr)p);                                                                                             \
        atomic_access((uptr)p, sizeof(T), true, PC);                                                                   \
        *p = v;                                                                                                        \
        at_store_rel((uptr)p, mo);                                                                                     \
    }                                                                                                                  \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo)                                                          \
    {                                                                                                                  \
        if (!sched_on()) { T o = *p; *p = v; return o; }                                                               \
        if (*p == v) at_point_load((uptr)p, (uint64_t)v); else at_point((uptr)p);                                      \
        atomic_access((uptr)p, sizeof(T), true, PC);                                                                   \
        T o = *p; *p = v;                                                                                              \
        at_acq((uptr)p, mo); at_rmw_rel((uptr)p, mo);                                                                  \
        return o;                                                                                                      \
    }                                                                                                                  \
    bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo)                         \
    {                                                                                                                  \
        if (!sched_on()) { if (*p == *e) { *p = v; return true; } *e = *p; return false; }                             \
        if (*p != *e) at_point_load((uptr)p, (uint64_t)*p); else at_point((uptr)p);                                    \
        T o = *p;                                                                                                      \
        if (o == *e) {                                                                                                 \
            atomic_access((uptr)p, sizeof(T), true, PC);                                                               \
            *p = v; at_acq((uptr)p, mo); at_rmw_rel((uptr)p, mo);                                                      \
            return true;                                                                                               \
        }                                                                                                              \
        atomic_access((uptr)p, sizeof(T), false, PC);                                                                  \
        *e = o; at_acq((uptr)p, fmo);                                                                                  \
        return false;                                                                                                  \
    }                                                                                                                  \
    bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo)                           \
    {                                                                                                                  \
        if (!sched_on()) { if (*p == *e) { *p = v; return true; } *e = *p; return false; }                             \
        if (*p != *e) at_point_load((uptr)p, (uint64_t)*p); else at_point((uptr)p);                                    \
        T o = *p;                                                                                                      \
        if (o == *e && !chance(g_cfg.cas_fail_p)) {                                                                    \
            atomic_access((uptr)p, sizeof(T), true, PC);                                                               \
            *p = v; at_acq((uptr)p, mo); at_rmw_rel((uptr)p, mo);                                                      \
            return true;                                                                                               \
        }                                                                                                              \
        atomic_access((uptr)p, sizeof(T), false, PC);                                                                  \
        *e = o; at_acq((uptr)p, fmo);                                                                                  \
        return false;                                                                                                  \
    }                                                                                                                  \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo)                                \
    {                                                                                                                  \
        T x = e;                                                                                                       \
        __tsan_atomic##B##_compare_exchange_strong(p, &x, v, mo, fmo);                                                 \
        return x;                                                                                                      \
    }
#define ATF(B, T, NAME, EXPR)                                                                                          \
    T __tsan_atomic##B##_fetch_##NAME(volatile T* p, T v, int mo)                                                      \
    {                                                                                                                  \
        if (sched_on()) {                                                                                              \
            T o = *p;                                                                                                  \
            if (o == (T)(EXPR)) at_point_load((uptr)p, (uint64_t)o); else at_point((uptr)p);                           \
            atomic_access((uptr)p, sizeof(T), true, PC);                                                               \
        }                                                                                                              \
        T o = *p;                                                                                                      \
        *p = (T)(EXPR);                                                                                                \
        if (sched_on()) { at_acq((uptr)p, mo); at_rmw_rel((uptr)p, mo); }                                              \
        return o;                                                                                                      \
    }
#define ATALL(B, T) AT(B, T) ATF(B, T, add, o + v) ATF(B, T, sub, o - v) ATF(B, T, and, o & v) ATF(B, T, or, o | v) ATF(B, T, xor, o ^ v) ATF(B, T, nand, ~(o & v))
ATALL(8, uint8_t) ATALL(16, uint16_t) ATALL(32, uint32_t) ATALL(64, uint64_t) ATALL(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo)
{
    if (!sched_on()) return;
    if (is_acq(mo)) vc_join(me().vc, me().acqp);
    if (is_rel(mo)) { me().relf = me().vc; tick(); }
}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

// ---------------------------------------------------------------- memory
static uptr
arena_alloc(size_t n, size_t align)
{
    map_all();
    if (align < 16) align = 16;
    size_t total = 16 + align + ((n + 15) & ~15ull) + 16;
    uptr b = __atomic_fetch_add(&g_brk, total, __ATOMIC_RELAXED);
    if (b + total > ARENA + ARENA_SIZE) {
        if (g_active) inconclusive("arena exhausted");
        static const char m[] = "xs: arena exhausted\n";
        sys6(SYS_write, 2, (long)m, sizeof(m) - 1);
        sys6(SYS_exit_group, 98);
    }
    uptr p = (b + 16 + align - 1) & ~(align - 1);
    uint64_t* h = (uint64_t*)(p - 16);
    h[0] = n;
    h[1] = 0xA110CA7EDull;
    uint8_t* st = (uint8_t*)(ST_ARENA + ((b - ARENA) >> 3));
    uint8_t* sp = (uint8_t*)(ST_ARENA + ((p - ARENA) >> 3));
    uint8_t* se = (uint8_t*)(ST_ARENA + ((p + n + 7 - ARENA) >> 3));
    uint8_t* sx = (uint8_t*)(ST_ARENA + ((b + total - ARENA) >> 3));
    memset(st, 3, sp - st);
    memset(sp, 1, se - sp);
    memset(se, 3, sx - se);
    if (sched_on()) { g_live_bytes += n; g_live_blocks++; }
    return p;
}
static void
arena_free(void* q, uptr pc)
{
    uptr p = (uptr)q;
    if (!p) return;
    if (p - ARENA >= ARENA_SIZE) return; // not ours (e.g. ld.so before init)
    uint64_t* h = (uint64_t*)(p - 16);
    if (tls_dead) return;
    if (h[1] != 0xA110CA7EDull) {
        if (sched_on()) report_mem(h[1] == 0xF4EEDull ? "double-free" : "bad-free", p, 1, F_W | F_FREE, pc, &cell_group(p)->c[3]);
        return;
    }
    size_t n = h[0];
    h[1] = 0xF4EEDull;
    if (sched_on()) {
        g_live_bytes -= n;
        g_live_blocks--;
        uptr e = p + (n ? n : 1);
        size_t lim = n > 4096 ? 4096 : n;
        if (g_cfg.races) access_range(p, lim, F_W | F_FREE, pc);
        for (uptr a = p & ~7ull; a < e && a < p + lim; a += 8) {
            Cell& c = cell_group(a)->c[3];
            c.clk = me().vc.c[g_cur]; c.pc = (uint32_t)pc; c.tid = (uint8_t)g_cur; c.mask = 0xff; c.flags = F_W | F_FREE;
        }
        memset((void*)(ST_ARENA + ((p - ARENA) >> 3)), 2, (n + 7) >> 3);
        memset(q, 0xDD, n > 65536 ? 65536 : n);
    }
}
extern "C" {
void* malloc(size_t n) { return (void*)arena_alloc(n, 16); }
void free(void* p) { arena_free(p, PC); }
void* calloc(size_t a, size_t b) { return (void*)arena_alloc(a * b, 16); } // fresh memory is zero
void* realloc(void* p, size_t n)
{
    if (!p) return malloc(n);
    size_t o = ((uint64_t*)((uptr)p - 16))[0];
    void* q = malloc(n);
    memcpy(q, p, o < n ? o : n);
    arena_free(p, PC);
    return q;
}
void* reallocarray(void* p, size_t a, size_t b) { return realloc(p, a * b); }
void* memalign(size_t a, size_t n) { return (void*)arena_alloc(n, a); }
void* aligned_alloc(size_t a, size_t n) { return (void*)arena_alloc(n, a); }
int posix_memalign(void** r, size_t a, size_t n) { *r = (void*)arena_alloc(n, a); return 0; }
void* valloc(size_t n) { return (void*)arena_alloc(n, 4096); }
size_t malloc_usable_size(void* p) { return p ? ((uint64_t*)((uptr)p - 16))[0] : 0; }
}
#include <new>
void* operator new(size_t n) { return (void*)arena_alloc(n, 16); }
void* operator new[](size_t n) { return (void*)arena_alloc(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return (void*)arena_alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return (void*)arena_alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return (void*)arena_alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return (void*)arena_alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { arena_free(p, PC); }
void operator delete[](void* p) noexcept { arena_free(p, PC); }
void operator delete(void* p, size_t) noexcept { arena_free(p, PC); }
void operator delete[](void* p, size_t) noexcept { arena_free(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { arena_free(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { arena_free(p, PC); }

namespace xs {
void* raw_alloc(size_t n)
{
    map_all();
    n = (n + 63) & ~63ull;
    if (g_raw + n > RAW + RAW_SIZE) inconclusive("raw memory exhausted");
    void* p = (void*)g_raw;
    g_raw += n;
    return p;
}
uint64_t live_bytes() { return g_live_bytes; }
uint64_t live_blocks() { return g_live_blocks; }
}

// ---------------------------------------------------------------- threads
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_join)(pthread_t, void**);
static int (*real_detach)(pthread_t);
static pthread_key_t g_key;
static bool g_init = false;
static void
rt_init()
{
    if (g_init) return;
    g_init = true;
    map_all();
    real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
    real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
    real_detach = (decltype(real_detach))dlsym(RTLD_NEXT, "pthread_detach");
}
static void
thread_done()
{
    // executed with the baton, after all thread_local destructors
    Thr& t = me();
    if (!g_active) { tls_dead = 1; return; }
    sched_point();
    t.st = T_DONE;
    wake_obj(W_JOIN, (uptr)g_cur);
    tls_dead = 1;
    int n = choose(false, true, false);
    g_switches++;
    g_hash = (g_hash ^ (uint64_t)(n + 1) ^ (g_steps << 8) ^ 0x55) * 0x100000001b3ull;
    g_cur = n;
    __atomic_store_n(&g_t[n].go, 1, __ATOMIC_RELEASE);
    futex_wake(&g_t[n].go);
}
static void
key_dtor(void* v)
{
    long round = (long)v;
    if (round < PTHREAD_DESTRUCTOR_ITERATIONS) {
        pthread_setspecific(g_key, (void*)(round + 1));
        return;
    }
    thread_done();
}
static void*
trampoline(void* p)
{
    long id = (long)p;
    tls_id = (int)id;
    Thr& t = g_t[id];
    while (!__atomic_load_n(&t.go, __ATOMIC_ACQUIRE)) futex_wait(&t.go, 0);
    t.go = 0;
    pthread_setspecific(g_key, (void*)1L);
    t.ret = t.fn(t.arg);
    return t.ret;
}
static int
new_thread(void* (*fn)(void*), void* arg, bool detached)
{
    if (g_nt >= MAXT) inconclusive("too many threads");
    int id = g_nt;
    Thr& t = g_t[id];
    t.fn = fn;
    t.arg = arg;
    t.detached = detached;
    t.st = T_RUN;
    t.deadline = -1;
    t.sp = STK + (id + 1) * STK_SLOT - 65536; // everything below is dead until it first ran
    if (id > 0) t.vc = me().vc;
    g_nt++;
    t.vc.c[id] = 1;
    if (id > 0) tick();
    t.prio = (int64_t)(rnd() >> 8);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)(STK + id * STK_SLOT + 4096), STK_SLOT - 4096);
    pthread_attr_setdetachstate(&at, detached ? PTHREAD_CREATE_DETACHED : PTHREAD_CREATE_JOINABLE);
    int r = real_create(&t.real, &at, trampoline, (void*)(long)id);
    pthread_attr_destroy(&at);
    if (r) inconclusive("pthread_create failed");
    return id;
}
static int find_thread(pthread_t h)
{
    for (int i = g_nt - 1; i >= 0; --i)
        if (g_t[i].real == h && !g_t[i].joined) return i;
    return -1;
}
extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    if (!sched_on()) { rt_init(); return real_create(out, attr, fn, arg); }
    int det = PTHREAD_CREATE_JOINABLE;
    if (attr) pthread_attr_getdetachstate(attr, &det);
    sched_point();
    int id = new_thread(fn, arg, det == PTHREAD_CREATE_DETACHED);
    *out = g_t[id].real;
    sched_point();
    return 0;
}
int pthread_join(pthread_t h, void** ret)
{
    if (!sched_on()) { rt_init(); return real_join(h, ret); }
    int i = find_thread(h);
    if (i < 0) fail("bad-join", "join of an unknown thread");
    if (i == g_cur) fail("self-join", "a thread joins itself");
    sched_point();
    while (g_t[i].st != T_DONE) block(W_JOIN, (uptr)i, -1);
    vc_join(me().vc, g_t[i].vc);
    g_t[i].joined = true;
    return real_join(h, ret);
}
int pthread_detach(pthread_t h)
{
    if (!sched_on()) { rt_init(); return real_detach(h); }
    int i = find_thread(h);
    if (i >= 0) g_t[i].detached = true;
    return real_detach(h);
}

// ---------------------------------------------------------------- mutex / cond
static inline bool m_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static int
m_lock(pthread_mutex_t* m, int64_t deadline, bool try_only, uptr pc)
{
    if (!sched_on()) {
        m->__data.__count++;
        m->__data.__lock = 1;
        m->__data.__owner = 1;
        return 0;
    }
    if (try_only && m->__data.__lock && m->__data.__owner != g_cur + 1) at_point_load((uptr)m, m->__data.__owner);
    else at_point((uptr)m);
    atomic_access((uptr)m, 4, true, pc);
    while (m->__data.__lock) {
        if (m->__data.__owner == g_cur + 1) {
            if (m_recursive(m)) { m->__data.__count++; return 0; }
            if (try_only) return EBUSY;
            if (shared) snprintf(shared->sig, sizeof shared->sig, "@%lx", (unsigned long)pc);
            if (deadline < 0) fail("self-deadlock", "self deadlock: thread %d locks a mutex it already owns", g_cur);
        }
        if (try_only) return EBUSY;
        block(W_MUTEX, (uptr)m, deadline);
        atomic_access((uptr)m, 4, true, pc);
        if (me().timedout && m->__data.__lock) return ETIMEDOUT;
    }
    m->__data.__lock = 1;
    m->__data.__owner = g_cur + 1;
    m->__data.__count = 1;
    hb_acquire((uptr)m);
    return 0;
}
static int
m_unlock(pthread_mutex_t* m, uptr pc, bool pt = true)
{
    if (!sched_on()) {
        if (m->__data.__count) m->__data.__count--;
        if (!m->__data.__count) m->__data.__lock = 0;
        return 0;
    }
    atomic_access((uptr)m, 4, true, pc);
    if (!m->__data.__lock || m->__data.__owner != g_cur + 1)
        fail("bad-unlock", "thread %d unlocks a mutex it does not own", g_cur);
    if (--m->__data.__count) return 0;
    hb_release_set((uptr)m);
    m->__data.__lock = 0;
    m->__data.__owner = 0;
    wake_obj(W_MUTEX, (uptr)m);
    me().spins = 0;
    if (pt) sched_point();
    return 0;
}
static int64_t abs_deadline(clockid_t c, const struct timespec* ts)
{
    __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
    if (c == CLOCK_REALTIME) v -= kRealBase;
    if (v < 0) v = 0;
    if (v > (__int128)4e18) return -1; // effectively forever
    return (int64_t)v;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    memset(m, 0, sizeof *m);
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { return m_lock(m, -1, false, PC); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return m_lock(m, -1, true, PC); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { return m_lock(m, abs_deadline(CLOCK_REALTIME, t), false, PC); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) { return m_lock(m, abs_deadline(c, t), false, PC); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return m_unlock(m, PC); }

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
{
    memset(c, 0, sizeof *c);
    clockid_t k = CLOCK_REALTIME;
    if (a) pthread_condattr_getclock(a, &k);
    c->__data.__g_size[0] = (unsigned)k; // our own use of the memory
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int
c_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline, bool timed, uptr pc)
{
    if (!sched_on()) return 0;
    // others may proceed between the check of the condition and the wait
    sched_point();
    atomic_access((uptr)c, 4, true, pc);
    if (m->__data.__owner != g_cur + 1 || !m->__data.__lock) fail("bad-wait", "condition wait without owning the mutex");
    bool spurious = chance(g_cfg.spurious_p);
    unsigned cnt = m->__data.__count;
    m->__data.__count = 1;
    m_unlock(m, pc, false);
    int r = 0;
    if (spurious) sched_point(true);
    else {
        block(W_COND, (uptr)c, timed && deadline >= 0 ? deadline : -1);
        if (me().timedout && !me().signaled) r = ETIMEDOUT;
    }
    m_lock(m, -1, false, pc);
    m->__data.__count = cnt;
    atomic_access((uptr)c, 4, true, pc);
    return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return c_wait(c, m, -1, false, PC); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    return c_wait(c, m, abs_deadline((clockid_t)c->__data.__g_size[0] == CLOCK_MONOTONIC ? CLOCK_MONOTONIC : CLOCK_REALTIME, t), true, PC);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { return c_wait(c, m, abs_deadline(k, t), true, PC); }
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!sched_on()) return 0;
    sched_point();
    atomic_access((uptr)c, 4, true, PC);
    int w[MAXT], n = 0;
    for (int i = 0; i < g_nt; ++i)
        if (g_t[i].st == T_BLK && g_t[i].wk == W_COND && g_t[i].wobj == (uptr)c) w[n++] = i;
    if (n) { Thr& t = g_t[w[rnd() % n]]; t.st = T_RUN; t.signaled = true; }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!sched_on()) return 0;
    sched_point();
    atomic_access((uptr)c, 4, true, PC);
    wake_obj(W_COND, (uptr)c);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    if (!sched_on()) { if (*o != 2) { *o = 2; fn(); } return 0; }
    sched_point();
    while (*o == 1) block(W_GUARD, (uptr)o, -1);
    if (*o == 0) {
        *o = 1;
        fn();
        *o = 2;
        hb_release_set((uptr)o);
        wake_obj(W_GUARD, (uptr)o);
    } else hb_acquire((uptr)o);
    return 0;
}
// rwlock: __cur_writer owner, __readers count
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    if (!sched_on()) return 0;
    sched_point();
    while (l->__data.__cur_writer) block(W_RW, (uptr)l, -1);
    l->__data.__readers++;
    hb_acquire((uptr)l);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    if (!sched_on()) return 0;
    if (l->__data.__cur_writer) return EBUSY;
    return pthread_rwlock_rdlock(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    if (!sched_on()) return 0;
    sched_point();
    while (l->__data.__cur_writer || l->__data.__readers) block(W_RW, (uptr)l, -1);
    l->__data.__cur_writer = g_cur + 1;
    hb_acquire((uptr)l);
    hb_acquire((uptr)l + 8);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    if (!sched_on()) return 0;
    if (l->__data.__cur_writer || l->__data.__readers) return EBUSY;
    return pthread_rwlock_wrlock(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!sched_on()) return 0;
    if (l->__data.__cur_writer) { l->__data.__cur_writer = 0; hb_release_set((uptr)l); }
    else if (l->__data.__readers) { l->__data.__readers--; hb_release_join((uptr)l + 8); }
    wake_obj(W_RW, (uptr)l);
    sched_point();
    return 0;
}

// semaphores: the first word of the object holds the value
int sem_init(sem_t* s, int, unsigned v) noexcept { memset(s, 0, sizeof *s); *(volatile unsigned*)s = v; return 0; }
int sem_destroy(sem_t*) noexcept { return 0; }
static int s_wait(sem_t* s, int64_t deadline, uptr pc)
{
    if (!sched_on()) return 0;
    if (deadline == 0 && !*(volatile unsigned*)s) at_point_load((uptr)s, 0);
    else at_point((uptr)s);
    atomic_access((uptr)s, 4, true, pc);
    while (!*(volatile unsigned*)s) {
        if (deadline == 0) { errno = EAGAIN; return -1; }
        block(W_RW, (uptr)s, deadline);
        if (me().timedout && !*(volatile unsigned*)s) { errno = ETIMEDOUT; return -1; }
    }
    --*(volatile unsigned*)s;
    hb_acquire((uptr)s);
    return 0;
}
static int64_t s_deadline(clockid_t k, const struct timespec* t) { int64_t d = abs_deadline(k, t); return d > 0 ? d : 1; }
int sem_wait(sem_t* s) { return s_wait(s, -1, PC); }
int sem_trywait(sem_t* s) noexcept { return s_wait(s, 0, PC); }
int sem_timedwait(sem_t* s, const struct timespec* t) { return s_wait(s, s_deadline(CLOCK_REALTIME, t), PC); }
int sem_clockwait(sem_t* s, clockid_t k, const struct timespec* t) { return s_wait(s, s_deadline(k, t), PC); }
int sem_getvalue(sem_t* s, int* v) noexcept { *v = (int)*(volatile unsigned*)s; return 0; }
int sem_post(sem_t* s) noexcept
{
    if (!sched_on()) { ++*(volatile unsigned*)s; return 0; }
    sched_point();
    atomic_access((uptr)s, 4, true, PC);
    hb_release_join((uptr)s);
    ++*(volatile unsigned*)s;
    wake_obj(W_RW, (uptr)s);
    return 0;
}

static int g_cpus;
long sysconf(int name) noexcept
{
    static long (*real)(int);
    if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
    if (g_cpus && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) {
        if (g_cpus < 0) errno = EINVAL;
        return g_cpus;
    }
    return real(name);
}

// destructors of statics: registering is ordered before running them
struct ExitFn { void (*fn)(void*); void* arg; uint64_t sync; };
static void exit_trampoline(void* p)
{
    ExitFn* e = (ExitFn*)p;
    if (sched_on()) {
        sched_point();
        hb_acquire((uptr)&e->sync);
    }
    e->fn(e->arg);
}
int __cxa_atexit(void (*fn)(void*), void* arg, void* dso)
{
    static int (*real)(void (*)(void*), void*, void*);
    if (!real) real = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_atexit");
    if (!sched_on()) return real(fn, arg, dso);
    ExitFn* e = (ExitFn*)xs::raw_alloc(sizeof(ExitFn));
    e->fn = fn;
    e->arg = arg;
    hb_release_set((uptr)&e->sync);
    return real(exit_trampoline, e, nullptr);
}

// function local statics
int __cxa_guard_acquire(uint64_t* g)
{
    char* b = (char*)g;
    if (!sched_on()) return b[0] ? 0 : 1;
    sched_point();
    while (b[1]) {
        if (b[2] == (char)(g_cur + 1)) fail("recursive-init", "recursive initialisation of a function local static");
        block(W_GUARD, (uptr)g, -1);
    }
    if (b[0]) { hb_acquire((uptr)g); return 0; }
    b[1] = 1;
    b[2] = (char)(g_cur + 1);
    return 1;
}
void __cxa_guard_release(uint64_t* g)
{
    char* b = (char*)g;
    b[1] = 0;
    b[0] = 1;
    if (!sched_on()) return;
    hb_release_set((uptr)g);
    wake_obj(W_GUARD, (uptr)g);
    sched_point();
}
void __cxa_guard_abort(uint64_t* g)
{
    char* b = (char*)g;
    b[1] = 0;
    if (sched_on()) wake_obj(W_GUARD, (uptr)g);
}

// ---------------------------------------------------------------- time
static int64_t read_clock(clockid_t c)
{
    switch (c) {
        case CLOCK_REALTIME:
        case CLOCK_REALTIME_COARSE: return g_vt + kRealBase;
        default: return g_vt;
    }
}
int clock_gettime(clockid_t c, struct timespec* t)
{
    if (!sched_on() || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return (int)sysret(sys6(SYS_clock_gettime, c, (long)t));
    int64_t v = read_clock(c);
    t->tv_sec = v / 1000000000;
    t->tv_nsec = v % 1000000000;
    return 0;
}
int gettimeofday(struct timeval* t, void*) noexcept
{
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    { t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t* o) noexcept
{
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (o) *o = s.tv_sec;
    return s.tv_sec;
}
static void v_sleep(int64_t ns)
{
    me().spins = 0;
    if (ns <= 0) { sched_point(true); return; }
    if (ns > (int64_t)4e18) ns = (int64_t)4e18;
    block(W_SLEEP, 0, g_vt + ns);
}
int nanosleep(const struct timespec* t, struct timespec* rem)
{
    if (!sched_on()) return (int)sysret(sys6(SYS_nanosleep, (long)t, (long)rem));
    if (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec > 999999999) { errno = EINVAL; return -1; }
    __int128 v = (__int128)t->tv_sec * 1000000000 + t->tv_nsec;
    v_sleep(v > (__int128)4e18 ? (int64_t)4e18 : (int64_t)v);
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* rem)
{
    if (!sched_on()) return (int)-sys6(SYS_clock_nanosleep, c, fl, (long)t, (long)rem);
    if (fl & TIMER_ABSTIME) {
        int64_t d = abs_deadline(c == CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, t);
        v_sleep(d - g_vt);
    } else return nanosleep(t, rem) ? errno : 0;
    return 0;
}
int usleep(useconds_t u)
{
    struct timespec t = { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 };
    return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s)
{
    struct timespec t = { (time_t)s, 0 };
    nanosleep(&t, nullptr);
    return 0;
}
int sched_yield() noexcept
{
    if (!sched_on()) return (int)sys6(SYS_sched_yield);
    sched_point(true);
    return 0;
}

// ---------------------------------------------------------------- I/O
static int
v_poll(struct pollfd* f, nfds_t n, int64_t ns)
{
    g_polls++;
    me().spins = 0;
    sched_point();
    int r = (int)sys6(SYS_poll, (long)f, (long)n, 0);
    if (r != 0 || ns == 0) return (int)sysret(r);
    int64_t dl = ns < 0 ? -1 : g_vt + ns;
    for (;;) {
        me().pfds = f;
        me().npfds = (int)n;
        block(W_IO, 0, dl);
        r = (int)sys6(SYS_poll, (long)f, (long)n, 0);
        int real = 0;
        if (r > 0)
            for (nfds_t k = 0; k < n; ++k) {
                if (f[k].revents & POLLNVAL) f[k].revents = 0;
                if (f[k].revents) real++;
            }
        if (real) return real;
        if (dl >= 0 && g_vt >= dl) return 0;
    }
}
int poll(struct pollfd* f, nfds_t n, int ms)
{
    if (!sched_on()) return (int)sysret(sys6(SYS_poll, (long)f, (long)n, ms));
    return v_poll(f, n, ms < 0 ? -1 : (int64_t)ms * 1000000);
}
int ppoll(struct pollfd* f, nfds_t n, const struct timespec* t, const sigset_t*)
{
    if (!sched_on()) return (int)sysret(sys6(SYS_poll, (long)f, (long)n, t ? (long)(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1));
    return v_poll(f, n, t ? (int64_t)t->tv_sec * 1000000000 + t->tv_nsec : -1);
}
static int
v_select(int nfds, fd_set* r, fd_set* w, fd_set* e, int64_t ns)
{
    struct pollfd f[128];
    int n = 0;
    unsigned long *rb = (unsigned long*)r, *wb = (unsigned long*)w, *eb = (unsigned long*)e;
    for (int i = 0; i < nfds; ++i) {
        short ev = 0;
        if (rb && (rb[i / 64] >> (i % 64) & 1)) ev |= POLLIN;
        if (wb && (wb[i / 64] >> (i % 64) & 1)) ev |= POLLOUT;
        if (eb && (eb[i / 64] >> (i % 64) & 1)) ev |= POLLPRI;
        if (ev) {
            if (n >= 128) inconclusive("select on too many fds");
            f[n].fd = i;
            f[n].events = ev;
            f[n].revents = 0;
            n++;
        }
    }
    // select fails with EBADF if a descriptor is invalid when called
    struct pollfd g[128];
    memcpy(g, f, sizeof(struct pollfd) * n);
    if (sys6(SYS_poll, (long)g, n, 0) > 0)
        for (int i = 0; i < n; ++i)
            if (g[i].revents & POLLNVAL) { g_polls++; sched_point(true); errno = EBADF; return -1; }
    int res = v_poll(f, n, ns);
    if (res < 0) return res;
    int bits = 0;
    for (int i = 0; i < n; ++i) {
        int fd = f[i].fd;
        unsigned long b = 1ul << (fd % 64);
        bool rd = f[i].revents & (POLLIN | POLLHUP | POLLERR), wr = f[i].revents & (POLLOUT | POLLERR), ex = f[i].revents & POLLPRI;
        if (rb && (f[i].events & POLLIN)) { if (rd) bits++; else rb[fd / 64] &= ~b; }
        if (wb && (f[i].events & POLLOUT)) { if (wr) bits++; else wb[fd / 64] &= ~b; }
        if (eb && (f[i].events & POLLPRI)) { if (ex) bits++; else eb[fd / 64] &= ~b; }
    }
    return bits;
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t)
{
    if (!sched_on()) {
        struct timeval c = t ? *t : timeval{ 0, 0 };
        return (int)sysret(sys6(SYS_select, n, (long)r, (long)w, (long)e, t ? (long)&c : 0));
    }
    return v_select(n, r, w, e, t ? (int64_t)t->tv_sec * 1000000000 + (int64_t)t->tv_usec * 1000 : -1);
}
int pselect(int n, fd_set* r, fd_set* w, fd_set* e, const struct timespec* t, const sigset_t*)
{
    if (!sched_on()) {
        struct timeval c = t ? timeval{ t->tv_sec, t->tv_nsec / 1000 } : timeval{ 0, 0 };
        return (int)sysret(sys6(SYS_select, n, (long)r, (long)w, (long)e, t ? (long)&c : 0));
    }
    return v_select(n, r, w, e, t ? (int64_t)t->tv_sec * 1000000000 + t->tv_nsec : -1);
}
#define IO_RET(x) { long r_ = sysret(x); if (sched_on()) g_io_dirty = true; return r_; }
ssize_t read(int fd, void* b, size_t n) IO_RET(sys6(SYS_read, fd, (long)b, (long)n))
ssize_t write(int fd, const void* b, size_t n) IO_RET(sys6(SYS_write, fd, (long)b, (long)n))
ssize_t send(int fd, const void* b, size_t n, int fl) IO_RET(sys6(SYS_sendto, fd, (long)b, (long)n, fl))
ssize_t recv(int fd, void* b, size_t n, int fl) IO_RET(sys6(SYS_recvfrom, fd, (long)b, (long)n, fl))
int close(int fd) IO_RET(sys6(SYS_close, fd))
int shutdown(int fd, int h) noexcept IO_RET(sys6(SYS_shutdown, fd, h))
int eventfd_write(int fd, eventfd_t v) IO_RET(sys6(SYS_write, fd, (long)&v, 8) < 0 ? -1 : 0)
int eventfd_read(int fd, eventfd_t* v) IO_RET(sys6(SYS_read, fd, (long)v, 8) < 0 ? -1 : 0)
int setpriority(__priority_which_t, id_t, int) noexcept { return 0; }

long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && sched_on()) {
        int op = (int)b & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sched_point();
            if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
            int64_t dl = -1;
            if (d) {
                struct timespec* ts = (struct timespec*)d;
                dl = op == FUTEX_WAIT ? g_vt + (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec
                                      : abs_deadline((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            }
            block(W_FUTEX, (uptr)a, dl);
            if (me().timedout && !me().signaled) { errno = ETIMEDOUT; return -1; }
            hb_acquire((uptr)a);
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            hb_release_join((uptr)a);
            int cnt = 0;
            for (int i = 0; i < g_nt && cnt < (int)c; ++i)
                if (g_t[i].st == T_BLK && g_t[i].wk == W_FUTEX && g_t[i].wobj == (uptr)a) { g_t[i].st = T_RUN; g_t[i].signaled = true; cnt++; }
            sched_point();
            return cnt;
        }
        if (op == FUTEX_WAKE_OP || op == FUTEX_REQUEUE || op == FUTEX_CMP_REQUEUE) inconclusive("unsupported futex operation");
    }
    return sysret(sys6(n, a, b, c, d, e, f));
}
} // extern "C"

// ---------------------------------------------------------------- API
static void (*g_fn)(void*);
static void* g_arg;
static volatile int g_finished;
[[noreturn]] static void finish_case();
static void* driver(void*)
{
    g_fn(g_arg);
    finish_case();
}
[[noreturn]] static void finish_case()
{
    finish_stats();
    g_active = false;
    if (shared && shared->outcome == OC_NONE) shared->outcome = OC_OK;
    g_finished = 1;
    futex_wake(&g_finished);
    for (;;) sys6(SYS_pause); // the process exits from run()
}
namespace xs {
void set_cpus(int n) { g_cpus = n; }
void finish() { finish_case(); }
}
static void
on_signal(int s)
{
    const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : "SIGILL";
    if (shared && g_cur >= 0) {
        char f[800];
        f[0] = 0;
        sig_frames(f, sizeof f, 0, g_cur);
        snprintf(shared->sig, sizeof shared->sig, "%s", f);
        fail(s == SIGABRT ? "abort" : "crash", "%s in thread %d at %s", n, g_cur, f);
    }
    sys6(SYS_exit_group, 99);
}
namespace xs {
bool active() { return sched_on(); }
int tid() { return g_cur; }
uint64_t now_ns() { return (uint64_t)(g_vt - 1000000000000ll); }
uint64_t seq() { return ++g_seq; }
uint64_t steps() { return g_steps; }
uint64_t idle_polls() { return g_polls; }
void set_step_limit(uint64_t n) { g_steplimit = n; }
void point() { if (sched_on()) { me().spins = 0; sched_point(); } }
void quiesce_ms(uint64_t ms)
{
    g_quiesce++;
    int64_t dl = g_vt + (int64_t)ms * 1000000;
    while (g_vt < dl) block(W_QUIESCE, 0, dl);
    // everyone else gets to run to a standstill at this very time
    for (int i = 0; i < 100000; ++i) {
        bool other = false;
        for (int k = 0; k < g_nt; ++k) other |= k != g_cur && g_t[k].st == T_RUN;
        if (!other) break;
        int64_t save = me().prio;
        me().consec = 0;
        block(W_QUIESCE, 0, g_vt + 1);
        me().prio = save;
    }
    g_quiesce--;
}
void sleep_ms(uint64_t ms) { v_sleep((int64_t)ms * 1000000); }
void jumps(bool on)
{
    g_jumps = on;
    if (!on) { // from here on time passes only when nothing can run
        g_cfg.freeze_ms = 0;
        for (int i = 0; i < g_nt; ++i)
            if (g_t[i].thaw_vt > g_vt) g_t[i].thaw_vt = g_vt;
    }
}
int thread_count()
{
    int n = 0;
    for (int i = 0; i < g_nt; ++i) n += g_t[i].st == T_RUN || g_t[i].st == T_BLK;
    return n;
}
int zombie_count()
{
    int n = 0;
    for (int i = 0; i < g_nt; ++i) n += g_t[i].st == T_DONE && !g_t[i].joined && !g_t[i].detached;
    return n;
}
void label(int i) { if (shared && i >= 0 && i < kMaxLabels) shared->labels[i]++; }
void desc(const char* fmt, ...)
{
    if (!shared) return;
    size_t o = strlen(shared->desc);
    if (o + 2 >= (size_t)kDescSize) return;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(shared->desc + o, kDescSize - o, fmt, ap);
    va_end(ap);
}
void io_changed() { g_io_dirty = true; }
void gate_wait(Gate* g)
{
    g->waiting++;
    while (!g->open) block(W_GATE, (uptr)g, -1);
    g->waiting--;
}
bool gate_wait_ms(Gate* g, uint64_t ms)
{
    int64_t dl = g_vt + (int64_t)ms * 1000000;
    g->waiting++;
    while (!g->open && g_vt < dl) block(W_GATE, (uptr)g, dl);
    g->waiting--;
    return g->open;
}
void gate_open(Gate* g)
{
    g->open = 1;
    wake_obj(W_GATE, (uptr)g);
}
void run(const Config& c, void (*fn)(void*), void* arg)
{
    rt_init();
    g_cfg = c;
    g_rng = c.seed * 0xD1342543DE82EF95ull + 12345;
    g_hash = 0xcbf29ce484222325ull;
    g_steplimit = c.step_limit;
    g_jumps = c.jump_p != 0;
    g_ncp = c.strategy == ST_PCT ? (int)(c.pct_depth > 16 ? 16 : c.pct_depth) : 0;
    g_nfp = c.freeze_n > 8 ? 8 : (int)c.freeze_n;
    for (int i = 0; i < g_nfp; ++i) g_fp[i] = 1 + rnd() % (c.pct_len ? c.pct_len : 1);
    if (!c.jump_p) g_cfg.freeze_ms = 0; // modules with exact timing switch both off
    for (int i = 0; i < g_ncp; ++i) g_cp[i] = 1 + rnd() % (c.pct_len ? c.pct_len : 1);
    pthread_key_create(&g_key, key_dtor);
    for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL }) {
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_signal;
        sigaction(s, &sa, nullptr);
    }
    signal(SIGPIPE, SIG_IGN);
    g_fn = fn;
    g_arg = arg;
    g_cur = 0;
    new_thread(driver, nullptr, true);
    g_active = true;
    __atomic_store_n(&g_t[0].go, 1, __ATOMIC_RELEASE);
    futex_wake(&g_t[0].go);
    while (!g_finished) futex_wait(&g_finished, 0);
}
} // namespace xs
