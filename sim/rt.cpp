// Simulator runtime.  Compiled WITHOUT instrumentation; must not call into
// instrumented code except through thread entry points.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <linux/futex.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <new>
#include <iostream>
#include <streambuf>

#define NOI __attribute__((noinline))
#define MAXT 10
typedef uint32_t vclk;
struct VC { vclk c[MAXT]; };

// ------------------------------------------------------------------ output
static char* g_out; static size_t g_cap, g_len;
extern "C" void rt_out_init(char* b, size_t cap) { g_out = b; g_cap = cap; g_len = 0; if (b) b[0] = 0; }
extern "C" void rt_out(const char* s, size_t n) {
    if (!g_out) return;
    if (g_len + n + 1 > g_cap) return;
    for (size_t i = 0; i < n; ++i) g_out[g_len + i] = s[i];
    g_len += n; g_out[g_len] = 0;
}
static void outf(const char* f, ...) {
    char b[2048]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    rt_out(b, (size_t)n);
}

// ------------------------------------------------------------------ state
enum { ST_FREE, ST_RUN, ST_BLOCK, ST_COND, ST_JOIN, ST_DONE };
enum { WO_NONE, WO_MUTEX, WO_COND, WO_OTHER };
struct TlsD { void (*f)(void*); void* o; TlsD* n; };
struct Stb { uintptr_t a; uint64_t v; uint8_t n, rel; };
struct Th {
    Stb sb[8]; int nsb; uint32_t sbn;   // stores weaker than seq_cst that other threads do not see yet
    int st; void* wobj; int wkind; int timed; int timedout; uint64_t deadline;
    uint32_t go; VC vc; uint64_t cnt; int spin; int64_t prio;
    void (*fn)(void*); void* arg; void* (*pfn)(void*); void* ret; pthread_t real;
    int on; int joiner; int detached;
    uintptr_t stk[128]; int sp; TlsD* tls;
};
static Th T[MAXT];
static int g_n = 0;          // threads created
static int g_alive = 0;
static int g_active = 0;     // simulation on
static RtConfig C;
static uint64_t g_rng, g_points, g_mem, g_memlim, g_seq, g_switches, g_time_ns;
static uint64_t g_hash = 1469598103934665603ull, g_ihash = 1469598103934665603ull;
static int g_viol; static int g_race_reported; static int g_fair; static int g_nspur;
static uint64_t g_mem_next;
static int g_ended;
static __thread int t_self = -1;
static __thread int t_on = 0;
static __thread int t_inrt = 0;

static inline uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng * 2685821657736338717ull; }
static inline void mix(uint64_t v) { g_hash = (g_hash ^ v) * 1099511628211ull; g_hash ^= g_hash >> 29; }
static inline void imix(uint64_t v) { g_ihash = (g_ihash ^ v) * 1099511628211ull; g_ihash ^= g_ihash >> 31; }

static void fwait(uint32_t* w) {
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(w, 0u, __ATOMIC_RELEASE);
}
static void fwake(uint32_t* w) { __atomic_store_n(w, 1u, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

extern "C" int rt_self(void) { return t_self; }
extern "C" int rt_on(void) { int o = t_on; t_on = 1; return o; }
extern "C" int rt_off(void) { int o = t_on; t_on = 0; return o; }
extern "C" void rt_restore(int o) { t_on = o; }
extern "C" uint64_t rt_seq(void) { return ++g_seq; }

// ------------------------------------------------------------------ trace
struct Seg { int k; int t; uint64_t n; int b; };   // k: 0 run segment, 'w' spurious wake, 'n' notify choice
static Seg* g_tr; static size_t g_trn, g_trc;
static Seg* g_rp; static size_t g_rpn, g_rpi; static uint64_t g_rpleft;
static int g_segt; static uint64_t g_segn;
static void tr_push(int k, int t, uint64_t n, int b = 0) {
    if (g_trn == g_trc) {
        size_t nc = g_trc ? g_trc * 2 : 4096;
        Seg* p = (Seg*)mmap(0, nc * sizeof(Seg), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (g_tr) { memcpy(p, g_tr, g_trn * sizeof(Seg)); munmap(g_tr, g_trc * sizeof(Seg)); }
        g_tr = p; g_trc = nc;
    }
    g_tr[g_trn].k = k; g_tr[g_trn].t = t; g_tr[g_trn].n = n; g_tr[g_trn].b = b; ++g_trn;
}
// a segment marked '!' ended because its thread blocked or finished, not by preemption
static void seg_close(int nextt, int blocked = 0) { if (g_segn || blocked) tr_push(0, g_segt, g_segn, blocked); g_segt = nextt; g_segn = 0; }
static void rp_load(const char* s) {
    size_t n = strlen(s); g_rp = (Seg*)mmap(0, (n + 16) * sizeof(Seg), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g_rpn = 0; const char* p = s;
    while (*p) {
        while (*p == ' ' || *p == '\n') ++p;
        if (!*p) break;
        Seg g; g.k = 0; g.n = 0; g.b = 0;
        if (*p == 'w' || *p == 'n') { g.k = *p; ++p; g.t = (int)strtol(p, (char**)&p, 10); }
        else { g.t = (int)strtol(p, (char**)&p, 10); if (*p == ':') { ++p; g.n = strtoull(p, (char**)&p, 10); if (*p == '!') { g.b = 1; ++p; } } }
        g_rp[g_rpn++] = g;
        while (*p && *p != ' ' && *p != '\n') ++p;
    }
    g_rpi = 0; g_rpleft = g_rpn && g_rp[0].k == 0 ? g_rp[0].n : 0;
}

// ------------------------------------------------------------------ violations
static void emit_tail();
static void stack_text(int t, char* b, size_t cap) {
    size_t n = 0; b[0] = 0;
    if (t < 0) return;
    int sp = T[t].sp; if (sp > 128) sp = 128;
    for (int i = sp - 1; i >= 0 && i >= sp - 14; --i) n += (size_t)snprintf(b + n, cap - n, " %lx", (unsigned long)T[t].stk[i]);
}
extern "C" void rt_violation(const char* cls, const char* msg) {
    char st[512]; stack_text(t_self, st, sizeof st);
    ++g_viol; outf("V %s t%d seq%llu pts%llu | %s | stk%s\n", cls, t_self, (unsigned long long)g_seq, (unsigned long long)g_points, msg, st);
}
static void die() { if (!g_ended) { g_ended = 1; emit_tail(); } _exit(0); }
extern "C" void rt_fatal(const char* cls, const char* msg) { rt_violation(cls, msg); die(); for (;;); }

// ------------------------------------------------------------------ heap
#define ABASE 0x100000000000ull
#define ASIZE (256ull << 20)
#define SIMOFF (64ull << 20)     // simulated allocations start here whatever the process allocated before
#define SBASE 0x200000000000ull
#define GBASE 0x300000000000ull
struct Cell { vclk wclk; uint8_t wt, wm, pad[2]; vclk rclk[MAXT]; uint8_t rm[MAXT]; uint8_t pad2[2]; uint32_t wpc; };
struct Hdr { uint64_t magic; uint32_t size; uint8_t lib; uint8_t freed; uint16_t iter; uint32_t next_free_lo, cls; uint32_t pc[4]; uint64_t cap; };
static char* g_abrk; static int g_aready; static int g_iter; static uint64_t g_allocs, g_frees;
static Hdr* g_freel[96];
// freed blocks are handed out again if the run wants that, or once more than half of the arena is gone
static inline int reusing();
extern char __data_start, _end;
static uintptr_t g_dlo, g_dhi; static Cell* g_dcells;
static inline bool in_arena(uintptr_t a) { return a - ABASE < ASIZE; }
static inline Cell* cell_of(uintptr_t a) {
    if (in_arena(a)) return (Cell*)SBASE + ((a - ABASE) >> 3);
    if (a - g_dlo < g_dhi - g_dlo) { if (a - (uintptr_t)&std::cout < sizeof std::cout) return 0; return g_dcells + ((a - g_dlo) >> 3); }
    return 0;
}
#define GRAN(a) (((uint8_t*)GBASE)[((a) - ABASE) >> 3])
static void heap_init() {
    if (g_aready) return;
    g_aready = 1;
    void* p = mmap((void*)ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* q = mmap((void*)SBASE, (ASIZE >> 3) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* r = mmap((void*)GBASE, ASIZE >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    g_dlo = (uintptr_t)&__data_start & ~7ull; g_dhi = (uintptr_t)&_end;
    void* s = mmap(0, (((g_dhi - g_dlo) >> 3) + 2) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p != (void*)ABASE || q != (void*)SBASE || r != (void*)GBASE || s == MAP_FAILED) { static const char m[] = "arena mmap failed\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
    g_dcells = (Cell*)s; g_abrk = (char*)ABASE + 64;
}
static void gran_set(uintptr_t a, size_t n, uint8_t v) { memset(&GRAN(a), v, (n + 7) >> 3); }
static void gran_alloc(uintptr_t a, size_t n) { if (n >> 3) memset(&GRAN(a), 8, n >> 3); if (n & 7) GRAN(a + n) = (uint8_t)(n & 7); }
static void sync_forget(uintptr_t a, size_t n);
static volatile int g_heap_lock;
static inline int reusing() { return C.reuse || (uintptr_t)g_abrk > ABASE + ASIZE / 2; }
static void* halloc(size_t n) {
    heap_init();
    while (__sync_lock_test_and_set(&g_heap_lock, 1)) sched_yield();
    size_t need = n ? n : 1; size_t cap = (need + 15) & ~15ull;
    if (cap > 1024) { size_t c2 = 2048; while (c2 < cap) c2 <<= 1; cap = c2; }
    Hdr* h = 0; unsigned cls = cap <= 1024 ? (unsigned)(cap / 16) : 54u + (unsigned)__builtin_ctzll(cap); if (cls >= 96) cls = 0;
    if (reusing() && cls && g_freel[cls]) {
        h = g_freel[cls]; g_freel[cls] = *(Hdr**)(h + 1);
        uintptr_t u = (uintptr_t)(h + 1);
        memset((Cell*)SBASE + ((u - ABASE) >> 3), 0, (h->cap >> 3) * sizeof(Cell));
    } else {
        size_t tot = sizeof(Hdr) + cap + 16;
        if ((uintptr_t)g_abrk + tot > ABASE + ASIZE) { g_heap_lock = 0; rt_fatal("oom", "simulated heap exhausted"); }
        h = (Hdr*)g_abrk; g_abrk += tot; h->cap = cap;
    }
    h->magic = 0x5afe5afe5afe5afeull; h->size = (uint32_t)n; h->lib = (uint8_t)t_on; h->freed = 0; h->iter = (uint16_t)g_iter; h->cls = cls;
    int t = t_self;
    for (int i = 0; i < 4; ++i) h->pc[i] = t >= 0 && T[t].sp - 1 - i >= 0 && T[t].sp <= 128 ? (uint32_t)T[t].stk[T[t].sp - 1 - i] : 0;
    uintptr_t u = (uintptr_t)(h + 1);
    gran_alloc(u, n);
    if (n < (1u << 20)) memset((void*)u, 0xCB, cap);
    ++g_allocs;
    g_heap_lock = 0;
    return (void*)u;
}
static void sb_all(void);
static void hfree(void* p) {
    if (!p) return;
    sb_all();
    uintptr_t u = (uintptr_t)p;
    if (!in_arena(u) || (u & 15)) { if (g_active) rt_fatal("badfree", "release of an address that was never allocated"); return; }
    Hdr* h = (Hdr*)u - 1;
    if (h->magic != 0x5afe5afe5afe5afeull) { if (GRAN(u) == 0xFD) rt_fatal("doublefree", "memory released twice"); rt_fatal("badfree", "release of an address that is not the start of an allocation"); }
    if (h->freed) rt_fatal("doublefree", "memory released twice");
    while (__sync_lock_test_and_set(&g_heap_lock, 1)) sched_yield();
    h->freed = 1;
    gran_set(u, h->size ? h->size : 1, 0xFD);
    if (h->size < (1u << 20)) memset(p, 0xDD, h->size);
    ++g_frees;
    if (reusing()) {
        sync_forget(u, h->cap);
        if (h->cls) { *(Hdr**)p = g_freel[h->cls]; g_freel[h->cls] = h; }
    }
    g_heap_lock = 0;
}
extern "C" void rt_iter(int it) { g_iter = it; }
extern "C" size_t rt_leaks(int it, char* desc, size_t cap) {
    size_t tot = 0, dn = 0; if (cap) desc[0] = 0; int shown = 0;
    for (char* p = (char*)ABASE + SIMOFF; p < g_abrk;) {
        Hdr* h = (Hdr*)p; p += sizeof(Hdr) + h->cap + 16;
        if (h->freed || !h->lib || h->iter != it) continue;
        tot += h->size ? h->size : 1;
        if (shown < 3) { dn += (size_t)snprintf(desc + dn, cap - dn, "[%u bytes pc %x %x %x %x]", h->size, h->pc[0], h->pc[1], h->pc[2], h->pc[3]); ++shown; }
    }
    return tot;
}
void* operator new(size_t n) { return halloc(n); }
void* operator new[](size_t n) { return halloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return halloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return halloc(n); }
void operator delete(void* p) noexcept { hfree(p); }
void operator delete[](void* p) noexcept { hfree(p); }
void operator delete(void* p, size_t) noexcept { hfree(p); }
void operator delete[](void* p, size_t) noexcept { hfree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { hfree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { hfree(p); }

// ------------------------------------------------------------------ sync objects
struct Sync { uintptr_t a; int owner; int cnt; int readers; VC vc, rvc; int once; int semv; };
#define NSYNC 8192
static Sync* g_sync;
static Sync* sync_of(uintptr_t a) {
    if (!g_sync) g_sync = (Sync*)mmap(0, NSYNC * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    size_t i = (a >> 3) * 0x9E3779B97F4A7C15ull >> 51;
    for (size_t k = 0; k < NSYNC; ++k) {
        Sync* s = &g_sync[(i + k) & (NSYNC - 1)];
        if (s->a == a) return s;
        if (s->a == 0) { s->a = a; s->owner = -1; return s; }
    }
    rt_fatal("oom", "too many synchronisation objects");
    return 0;
}
static void sync_forget(uintptr_t a, size_t n) {
    if (!g_sync) return;
    for (uintptr_t x = a; x < a + n; x += 4) {
        size_t i = (x >> 3) * 0x9E3779B97F4A7C15ull >> 51;
        for (size_t k = 0; k < 64; ++k) {
            Sync* s = &g_sync[(i + k) & (NSYNC - 1)];
            if (s->a == 0) break;
            if (s->a == x) { s->owner = -1; s->cnt = s->readers = s->once = s->semv = 0; memset(&s->vc, 0, sizeof(VC)); memset(&s->rvc, 0, sizeof(VC)); break; }
        }
        if (n > 4096) break;
    }
}
static inline void vjoin(VC* a, const VC* b) { for (int i = 0; i < MAXT; ++i) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }
static inline void acq(Sync* s) { vjoin(&T[t_self].vc, &s->vc); }
static inline void rel(Sync* s) { vjoin(&s->vc, &T[t_self].vc); T[t_self].vc.c[t_self]++; }

// ------------------------------------------------------------------ scheduler
static int runnable(int t) { return T[t].st == ST_RUN; }
static int nrunnable() { int n = 0; for (int i = 0; i < g_n; ++i) n += runnable(i); return n; }
static void deadlock() {
    char b[1024]; size_t n = 0; n += (size_t)snprintf(b, sizeof b, "all threads blocked:");
    for (int i = 0; i < g_n && n < sizeof b - 200; ++i) {
        if (T[i].st == ST_DONE || T[i].st == ST_FREE || T[i].st == ST_JOIN) continue;
        char st[300]; stack_text(i, st, sizeof st);
        n += (size_t)snprintf(b + n, sizeof b - n, " {t%d %s %lx stk%s}", i, T[i].st == ST_COND ? "cond" : "lock", (unsigned long)(uintptr_t)T[i].wobj, st);
    }
    rt_fatal("deadlock", b);
}
static void do_switch(int to, int blocked = 0) {
    int me = t_self;
    if (to == me) return;
    ++g_switches; imix((uint64_t)to * 31 + 7); mix((uint64_t)to);
    seg_close(to, blocked);
    int on = t_on;
    fwake(&T[to].go);
    fwait(&T[me].go);
    t_on = on;
}
// a thread may be woken by the passage of simulated time when nothing else runs
static int wake_timed() {
    int b = -1;
    for (int i = 0; i < g_n; ++i) if (T[i].st == ST_COND && T[i].timed && (b < 0 || T[i].deadline < T[b].deadline)) b = i;
    if (b < 0) return 0;
    if (T[b].deadline > g_time_ns) g_time_ns = T[b].deadline;
    T[b].timedout = 1; T[b].st = ST_RUN; return 1;
}
static void spur_wake(int t) { T[t].st = ST_RUN; ++g_nspur; seg_close(t_self); tr_push('w', t, 0); mix(0x77 + (uint64_t)t); rt_count("spurious_wakeup"); }
static void rp_specials() {
    while (g_rpi < g_rpn && g_rpleft == 0 && g_rp[g_rpi].k == 'w') {
        int t = g_rp[g_rpi].t;
        if (t >= 0 && t < g_n && T[t].st == ST_COND) spur_wake(t);
        ++g_rpi; if (g_rpi < g_rpn && g_rp[g_rpi].k == 0) g_rpleft = g_rp[g_rpi].n;
    }
}
static void rp_next() { ++g_rpi; g_rpleft = g_rpi < g_rpn && g_rp[g_rpi].k == 0 ? g_rp[g_rpi].n : 0; }
static int pick_random(int excl) {
    int c[MAXT], n = 0;
    for (int i = 0; i < g_n; ++i) if (runnable(i) && i != excl) c[n++] = i;
    if (!n) return -1;
    return c[rnd() % (unsigned)n];
}
static int pick_prio() { int b = -1; for (int i = 0; i < g_n; ++i) if (runnable(i) && (b < 0 || T[i].prio > T[b].prio)) b = i; return b; }
static int pick_rr(int from) { for (int k = 1; k <= g_n; ++k) { int i = (from + k) % g_n; if (runnable(i)) return i; } return -1; }

// choose a thread when the current one cannot continue
static int pick_blocked() {
    for (;;) {
        if (C.strategy == RT_REPLAY && !g_fair) {
            // remaining budget of the blocked thread's segment is dropped
            for (int guard = 0; g_rpi < g_rpn && guard < 1000000; ++guard) {
                if (g_rp[g_rpi].k == 'w' || g_rp[g_rpi].k == 'n') { g_rpleft = 0; if (g_rp[g_rpi].k == 'w') rp_specials(); else rp_next(); continue; }
                if (g_rp[g_rpi].t == t_self || g_rp[g_rpi].t < 0 || g_rp[g_rpi].t >= g_n || !runnable(g_rp[g_rpi].t)) { if (runnable(t_self) && g_rp[g_rpi].t == t_self) return t_self; rp_next(); continue; }
                return g_rp[g_rpi].t;
            }
            int r = -1; for (int i = 0; i < g_n; ++i) if (runnable(i)) { r = i; break; }
            if (r >= 0) return r;
        } else {
            int r = g_fair ? pick_rr(t_self) : C.strategy == RT_PCT ? pick_prio() : C.strategy == RT_NONPREEMPT ? pick_rr(t_self - 1 < 0 ? 0 : t_self) : pick_random(-1);
            if (r >= 0) return r;
        }
        if (!wake_timed()) deadlock();
    }
}
enum { PK_LOCK = 1, PK_UNLOCK, PK_COND, PK_NOTIFY, PK_ALOAD, PK_ASTORE, PK_ARMW, PK_YIELD, PK_OP, PK_IO, PK_MEM, PK_SPAWN, PK_USER };

static void multi_limits() {
    if (!g_fair && g_points > C.max_points) { g_fair = 1; rt_count("fair_mode"); }
    if (g_fair && g_points > C.max_points + C.fair_points) {
        char b[1024]; size_t n = (size_t)snprintf(b, sizeof b, "no completion after %llu scheduling points under a fair schedule:", (unsigned long long)g_points);
        for (int i = 0; i < g_n && n < sizeof b - 220; ++i) if (T[i].st != ST_DONE && T[i].st != ST_FREE && T[i].st != ST_JOIN) { char st[200]; stack_text(i, st, sizeof st); n += (size_t)snprintf(b + n, sizeof b - n, " {t%d st%d stk%s}", i, T[i].st, st); }
        rt_fatal("livelock", b);
    }
}
static void sb_one(void);
static void sb_all(void) { if (t_self >= 0) while (T[t_self].nsb) sb_one(); }
static void sb_tick(int kind) {
    Th* me = &T[t_self];
    if (g_alive <= 1 || kind == PK_OP || kind == PK_IO || kind == PK_SPAWN || kind == PK_YIELD) { sb_all(); return; }
    uint32_t x = (me->sbn++ * 2654435761u) ^ (uint32_t)(C.seed * 0x9e3779b97f4a7c15ull >> 32) ^ (uint32_t)t_self * 40503u; x ^= x >> 15; x *= 0x2c1b3c6du; x ^= x >> 12;
    if (x % 4 == 0) sb_one();
}
static void point(int kind) {
    if (!g_active || t_self < 0 || t_inrt) return;
    if (T[t_self].nsb) sb_tick(kind);
    g_time_ns += 100;
    if (g_alive <= 1) {
        if (kind == PK_ALOAD || kind == PK_NOTIFY || kind == PK_YIELD || kind == PK_COND) { if (++T[t_self].spin > 200000) rt_fatal("livelock", "single thread spins forever"); }
        else if (kind != PK_MEM) T[t_self].spin = 0;
        return;
    }
    Th* me = &T[t_self];
    if (kind != PK_MEM) { ++g_points; mix(((uint64_t)t_self << 8) | (uint64_t)kind); imix(((uint64_t)t_self << 8) | (uint64_t)kind); multi_limits(); }
    ++g_segn;
    if (kind == PK_ALOAD || kind == PK_NOTIFY || kind == PK_YIELD) ++me->spin; else if (kind != PK_MEM) me->spin = 0;
    int to = t_self;
    if (g_fair) {
        if (kind == PK_MEM) return;
        to = pick_rr(t_self);
    } else if (C.strategy == RT_REPLAY) {
        if (g_rpleft) --g_rpleft;
        if (g_rpleft == 0 && g_rpi < g_rpn && !(g_rp[g_rpi].b && g_rp[g_rpi].t == t_self)) {
            if (g_rp[g_rpi].k == 0 && g_rp[g_rpi].t == t_self) rp_next();
            rp_specials();
            while (g_rpi < g_rpn) {
                if (g_rp[g_rpi].k == 'n') break;
                if (g_rp[g_rpi].k == 'w') { g_rpleft = 0; rp_specials(); continue; }
                if (g_rp[g_rpi].t >= 0 && g_rp[g_rpi].t < g_n && runnable(g_rp[g_rpi].t)) { to = g_rp[g_rpi].t; break; }
                rp_next();
            }
        } else if (g_rpi >= g_rpn && me->spin > 40) { to = pick_rr(t_self); me->spin = 0; }
    } else {
        if (C.spurious_permille && kind != PK_MEM && rnd() % 1000 < (unsigned)C.spurious_permille) {
            int c[MAXT], n = 0; for (int i = 0; i < g_n; ++i) if (T[i].st == ST_COND) c[n++] = i;
            if (n) spur_wake(c[rnd() % (unsigned)n]);
        }
        switch (C.strategy) {
        case RT_RANDOM:
            if (kind == PK_MEM) { to = pick_random(t_self); }
            else if (rnd() % 1000 < (unsigned)C.switch_permille) to = pick_random(t_self);
            break;
        case RT_OPBOUND:
            if (kind == PK_OP) to = pick_random(-1);
            break;
        case RT_PCT: {
            uint64_t L = C.pct_len ? C.pct_len : 1;
            if (kind != PK_MEM || 1) { if (C.pct_depth > 0 && rnd() % L < (unsigned)C.pct_depth) me->prio = -(int64_t)g_points - 1; }
            to = pick_prio(); break; }
        default: break;
        }
        if (to < 0) to = t_self;
        if (me->spin > 24) { me->spin = 0; if (C.strategy == RT_PCT) { me->prio = -(int64_t)g_points - 1000000; to = pick_prio(); } else { int r = pick_random(t_self); if (r >= 0) to = r; } }
    }
    if (to != t_self) do_switch(to);
}
static void block_now() { sb_all();  // T[t_self].st already set to a blocked state
    int to = pick_blocked();
    if (to == t_self) return;
    do_switch(to, 1);
}
extern "C" void rt_progress(void) { g_memlim = g_mem + C.max_mem; }
extern "C" void rt_op_point(void) { g_memlim = g_mem + C.max_mem; int o = t_on; t_on = 0; point(PK_OP); t_on = o; }
extern "C" void rt_point_user(int) { point(PK_USER); }
static void wake_waiters(void* obj) { for (int i = 0; i < g_n; ++i) if (T[i].st == ST_BLOCK && T[i].wobj == obj) { T[i].st = ST_RUN; T[i].wobj = 0; } }

extern "C" int rt_thread_blocked(int t) { switch (T[t].st) { case ST_RUN: return 0; case ST_BLOCK: return 1; case ST_COND: return 2; case ST_DONE: return 9; default: return 3; } }
extern "C" int rt_thread_in_lib(int t) { return T[t].on; }

// counters
struct Cn { char n[40]; uint64_t v; }; static Cn g_cn[64]; static int g_ncn;
extern "C" void rt_count(const char* n) { for (int i = 0; i < g_ncn; ++i) if (!strcmp(g_cn[i].n, n)) { g_cn[i].v++; return; } if (g_ncn < 64) { strncpy(g_cn[g_ncn].n, n, 39); g_cn[g_ncn++].v = 1; } }

static void emit_tail() {
    seg_close(-1, 1);   // also a last segment without scheduling points
    outf("H %016llx %016llx\n", (unsigned long long)g_hash, (unsigned long long)g_ihash);
    outf("S points=%llu switches=%llu mem=%llu time_ns=%llu allocs=%llu viol=%d", (unsigned long long)g_points, (unsigned long long)g_switches, (unsigned long long)g_mem, (unsigned long long)g_time_ns, (unsigned long long)g_allocs, g_viol);
    for (int i = 0; i < g_ncn; ++i) outf(" %s=%llu", g_cn[i].n, (unsigned long long)g_cn[i].v);
    rt_out("\n", 1);
    rt_out("T", 1);
    if (g_trn < 60000) for (size_t i = 0; i < g_trn; ++i) { if (g_tr[i].k) outf(" %c%d", g_tr[i].k, g_tr[i].t); else outf(" %d:%llu%s", g_tr[i].t, (unsigned long long)g_tr[i].n, g_tr[i].b ? "!" : ""); }
    rt_out("\n", 1);
    rt_out("END\n", 4);
}
extern "C" void rt_finish(void) { t_on = 0; if (!g_ended) { g_ended = 1; emit_tail(); } g_active = 0; }

static void crash_handler(int sig, siginfo_t* si, void*) {
    static volatile int once; if (once++) _exit(4);
    char b[200]; snprintf(b, sizeof b, "signal %d at address %lx", sig, (unsigned long)(uintptr_t)si->si_addr);
    if (!g_active) { outf("V harness-crash t%d | %s | stk\nEND\n", t_self, b); _exit(5); }
    rt_violation(sig == SIGALRM ? "hang" : "crash", b);
    die();
}
extern "C" void rt_begin(const RtConfig* c) {
    C = *c; heap_init();
    if ((uintptr_t)g_abrk > ABASE + SIMOFF) { outf("V harness-limit t0 seq0 pts0 | plan too large | stk\nEND\n"); _exit(5); }
    g_abrk = (char*)ABASE + SIMOFF; memset(g_freel, 0, sizeof g_freel);
    if (!C.max_mem) C.max_mem = 400000000ull;
    g_memlim = g_mem + C.max_mem;
    g_rng = c->seed * 0x9E3779B97F4A7C15ull + 0x1234567ull; if (!g_rng) g_rng = 88172645463325252ull;
    for (int i = 0; i < 4; ++i) rnd();
    if (C.strategy == RT_REPLAY) rp_load(C.trace ? C.trace : "");
    memset(T, 0, sizeof T);
    t_self = 0; g_n = 1; g_alive = 1; T[0].st = ST_RUN; T[0].vc.c[0] = 1; T[0].prio = 0; g_segt = 0;
    g_mem_next = C.mem ? 1 + rnd() % (2 * (unsigned)(C.mem_period > 0 ? C.mem_period : 100)) : ~0ull;
    static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}; for (int s : sg) sigaction(s, &sa, 0);
    g_active = 1;
}

// ------------------------------------------------------------------ threads
static void thread_done() {
    Th* me = &T[t_self];
    rt_run_tls_dtors();
    sb_all();
    t_on = 0;
    me->vc.c[t_self]++;
    me->st = ST_DONE; --g_alive;
    for (int i = 0; i < g_n; ++i) if (T[i].st == ST_JOIN && T[i].wobj == (void*)(intptr_t)(t_self + 1)) { T[i].st = ST_RUN; }
    mix(0xD0 + (uint64_t)t_self);
    int to = pick_blocked();
    ++g_switches; imix((uint64_t)to * 31 + 7); seg_close(to, 1);
    fwake(&T[to].go);
}
static void* tramp(void* p) {
    int id = (int)(intptr_t)p; t_self = id; t_on = 0;
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = mmap(0, 32768, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 32768; sigaltstack(&ss, 0);
    fwait(&T[id].go);
    if (T[id].pfn) T[id].ret = T[id].pfn(T[id].arg); else T[id].fn(T[id].arg);
    thread_done();
    for (;;) pause();
    return 0;
}
typedef int (*pcreate_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static void* real(const char* n) { void* p = dlsym(RTLD_NEXT, n); if (!p) _exit(6); return p; }
static int spawn(void (*fn)(void*), void* (*pfn)(void*), void* arg) {
    if (g_n >= MAXT) rt_fatal("harness-limit", "too many threads");
    int id = g_n++; Th* t = &T[id]; memset(t, 0, sizeof *t);
    t->st = ST_RUN; t->fn = fn; t->pfn = pfn; t->arg = arg;
    T[t_self].vc.c[t_self]++; t->vc = T[t_self].vc; t->vc.c[id] = 1;
    t->prio = (int64_t)(rnd() % 1000000) + 1;
    ++g_alive;
    static pcreate_t pc; if (!pc) pc = (pcreate_t)real("pthread_create");
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024);
    if (pc(&t->real, &at, tramp, (void*)(intptr_t)id)) { static const char m[] = "pthread_create failed\n"; (void)!syscall(SYS_write, 2, m, sizeof m - 1); _exit(7); }
    pthread_attr_destroy(&at);
    return id;
}
extern "C" int rt_spawn(void (*fn)(void*), void* arg) { return spawn(fn, 0, arg); }
extern "C" void rt_join(int tid) {
    while (T[tid].st != ST_DONE) { T[t_self].st = ST_JOIN; T[t_self].wobj = (void*)(intptr_t)(tid + 1); block_now(); }
    T[t_self].st = ST_RUN;
    vjoin(&T[t_self].vc, &T[tid].vc);
}
extern "C" int __cxa_thread_atexit(void (*f)(void*), void* o, void*) {
    if (!g_active || t_self < 0) return 0;    // warm-up process main thread: never exits normally
    TlsD* d = (TlsD*)malloc(sizeof(TlsD)); d->f = f; d->o = o; d->n = T[t_self].tls; T[t_self].tls = d; return 0;
}
extern "C" void rt_run_tls_dtors(void) {
    int o = t_on; t_on = 1;
    while (T[t_self].tls) { TlsD* d = T[t_self].tls; T[t_self].tls = d->n; d->f(d->o); free(d); }
    t_on = o;
}
#define SIM() (g_active && t_self >= 0 && !t_inrt)
#define REALF(name, ret, args, call) typedef ret (*name##_t) args; static name##_t r; if (!r) r = (name##_t)real(#name); return r call

extern "C" int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*f)(void*), void* a) {
    if (!SIM()) { REALF(pthread_create, int, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*), (th, at, f, a)); }
    int id = spawn(0, f, a); *th = (pthread_t)(uintptr_t)(0x5100 + id); point(PK_SPAWN); return 0;
}
extern "C" int pthread_join(pthread_t th, void** rv) {
    if (!SIM()) { REALF(pthread_join, int, (pthread_t, void**), (th, rv)); }
    int id = (int)((uintptr_t)th - 0x5100); if (id < 0 || id >= g_n) return ESRCH;
    rt_join(id); if (rv) *rv = T[id].ret; return 0;
}
extern "C" int pthread_detach(pthread_t th) {
    if (!SIM()) { REALF(pthread_detach, int, (pthread_t), (th)); }
    return 0;
}

// ------------------------------------------------------------------ memory events
static void check_alive(uintptr_t a, size_t n, const char* what) {
    if (!in_arena(a)) return;
    uintptr_t end = a + n;
    for (uintptr_t x = a & ~7ull; x < end; x += 8) {
        uint8_t g = GRAN(x); uintptr_t hi = end - x; if (hi > 8) hi = 8;
        if (g == 8) continue;
        if (g == 0xFD) { char b[160]; snprintf(b, sizeof b, "%s of released memory at %lx size %zu", what, (unsigned long)a, n); rt_fatal("uaf", b); }
        if (g == 0 || hi > g) { char b[160]; snprintf(b, sizeof b, "%s outside of any allocation at %lx size %zu", what, (unsigned long)a, n); rt_fatal("oob", b); }
    }
}
static void race(uintptr_t a, size_t n, int w, uintptr_t pc, int ot, int ow, uint32_t opc) {
    if (g_race_reported >= 3 || !C.races) return;
    ++g_race_reported;
    char b[256]; snprintf(b, sizeof b, "%s of %zu bytes at %lx pc %lx conflicts with %s by t%d pc %x", w ? "write" : "read", n, (unsigned long)a, (unsigned long)pc, ow ? "write" : "read", ot, opc);
    rt_violation("race", b);
}
static inline void access1(uintptr_t a, size_t n, int w, uintptr_t pc) {
    Cell* c = cell_of(a); if (!c) return;
    int me = t_self; Th* t = &T[me];
    uintptr_t end = a + n;
    while (a < end) {
        unsigned off = a & 7; unsigned len = 8 - off; if (len > end - a) len = (unsigned)(end - a);
        uint8_t m = (uint8_t)(((1u << len) - 1) << off);
        if (c->wclk && c->wt != me && (c->wm & m) && c->wclk > t->vc.c[c->wt]) race(a, n, w, pc, c->wt, 1, c->wpc);
        if (w) {
            for (int i = 0; i < g_n; ++i) if (i != me && c->rclk[i] && (c->rm[i] & m) && c->rclk[i] > t->vc.c[i]) { race(a, n, w, pc, i, 0, c->wpc); break; }
            if (c->wt == me && c->wclk == t->vc.c[me]) c->wm |= m; else c->wm = m;
            c->wt = (uint8_t)me; c->wclk = t->vc.c[me]; c->wpc = (uint32_t)pc;
        } else {
            if (c->rclk[me] == t->vc.c[me]) c->rm[me] |= m; else c->rm[me] = m;
            c->rclk[me] = t->vc.c[me];
        }
        a += len; ++c;
    }
}
static inline void mem(uintptr_t a, size_t n, int w, uintptr_t pc) {
    if (!t_on || !g_active) return;
    if (++g_mem > g_memlim) rt_fatal("runaway", "memory access budget of an operation exhausted: the call does not terminate");
    if (in_arena(a)) { check_alive(a, n, w ? "write" : "read"); }
    if (g_alive > 1) {
        if (C.mem) {
            if (C.strategy == RT_RANDOM) { ++g_segn; if (--g_mem_next == 0) { g_mem_next = 1 + rnd() % (2 * (unsigned)C.mem_period); --g_segn; point(PK_MEM); } }
            else if (C.strategy == RT_REPLAY) { if (!g_fair) point(PK_MEM); }
            else if (C.strategy == RT_PCT) { point(PK_MEM); }
        }
    }
    access1(a, n, w, pc);
}
#define RA ((uintptr_t)__builtin_return_address(0))
#define DEF(sz) \
extern "C" void __tsan_read##sz(void* p) { mem((uintptr_t)p, sz, 0, RA); } \
extern "C" void __tsan_write##sz(void* p) { mem((uintptr_t)p, sz, 1, RA); } \
extern "C" void __tsan_read_write##sz(void* p) { mem((uintptr_t)p, sz, 1, RA); } \
extern "C" void __tsan_unaligned_read##sz(void* p) { mem((uintptr_t)p, sz, 0, RA); } \
extern "C" void __tsan_unaligned_write##sz(void* p) { mem((uintptr_t)p, sz, 1, RA); } \
extern "C" void __tsan_unaligned_read_write##sz(void* p) { mem((uintptr_t)p, sz, 1, RA); } \
extern "C" void __tsan_volatile_read##sz(void* p) { mem((uintptr_t)p, sz, 0, RA); } \
extern "C" void __tsan_volatile_write##sz(void* p) { mem((uintptr_t)p, sz, 1, RA); }
DEF(1) DEF(2) DEF(4) DEF(8) DEF(16)
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void* pc) { int t = t_self; if (t >= 0) { Th* h = &T[t]; if (h->sp < 128) h->stk[h->sp] = (uintptr_t)__builtin_return_address(0); h->sp++; (void)pc; } }
extern "C" void __tsan_func_exit() { int t = t_self; if (t >= 0 && T[t].sp > 0) T[t].sp--; }
extern "C" void __tsan_vptr_update(void** p, void*) { mem((uintptr_t)p, 8, 1, RA); }
extern "C" void __tsan_vptr_read(void** p) { mem((uintptr_t)p, 8, 0, RA); }
extern "C" void __tsan_read_range(void* p, unsigned long n) { if (n) mem((uintptr_t)p, n, 0, RA); }
extern "C" void __tsan_write_range(void* p, unsigned long n) { if (n) mem((uintptr_t)p, n, 1, RA); }
extern "C" void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n && t_on) { mem((uintptr_t)s, n, 0, RA); mem((uintptr_t)d, n, 1, RA); } return memcpy(d, s, n); }
extern "C" void* __tsan_memmove(void* d, const void* s, size_t n) { if (n && t_on) { mem((uintptr_t)s, n, 0, RA); mem((uintptr_t)d, n, 1, RA); } return memmove(d, s, n); }
extern "C" void* __tsan_memset(void* d, int v, size_t n) { if (n && t_on) mem((uintptr_t)d, n, 1, RA); return memset(d, v, n); }
extern "C" int memcmp(const void* a, const void* b, size_t n) {
    if (t_on && n) { mem((uintptr_t)a, n, 0, RA); mem((uintptr_t)b, n, 0, RA); }
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}

static inline bool is_acq(int mo) { return mo != 0 && mo != 3; }  // relaxed=0 consume=1 acquire=2 release=3 acq_rel=4 seq_cst=5
static inline bool is_rel(int mo) { return mo >= 3; }
static void apre(const volatile void* p, size_t n, int kind) {
    if (!SIM()) return;
    point(kind);
    if (t_on) check_alive((uintptr_t)p, n, "atomic access");
}
static void apost(const volatile void* p, int a, int r) {
    if (!SIM()) return;
    Sync* s = sync_of((uintptr_t)p);
    if (a) acq(s);
    if (r) rel(s);
}
// Stores weaker than seq_cst wait in a first-in-first-out buffer of their thread (total store order): the thread itself
// sees them at once, the others when it drains: at read-modify-writes, seq_cst stores, fences, locks, blocking, or at random
static void sb_one(void) {
    Th* me = &T[t_self]; Stb e = me->sb[0]; --me->nsb; for (int i = 0; i < me->nsb; ++i) me->sb[i] = me->sb[i + 1];
    switch (e.n) { case 1: __atomic_store_n((uint8_t*)e.a, (uint8_t)e.v, 5); break; case 2: __atomic_store_n((uint16_t*)e.a, (uint16_t)e.v, 5); break;
    case 4: __atomic_store_n((uint32_t*)e.a, (uint32_t)e.v, 5); break; default: __atomic_store_n((uint64_t*)e.a, e.v, 5); }
    if (e.rel && SIM()) rel(sync_of(e.a));
}
static void sb_put(uintptr_t a, int n, uint64_t v, int r) { Th* me = &T[t_self]; if (me->nsb == 8) sb_one(); Stb* e = &me->sb[me->nsb++]; e->a = a; e->n = (uint8_t)n; e->v = v; e->rel = (uint8_t)r; rt_count("buffered_stores"); }
static int sb_may(uintptr_t a) { uintptr_t f = (uintptr_t)__builtin_frame_address(0); return in_arena(a) || a < f || a > f + (8u << 20); }   // not the thread's own stack: the frame may be gone when the buffer drains
static int sb_peek(uintptr_t a, int n, uint64_t* v) {
    if (t_self < 0) return 0;
    Th* me = &T[t_self];
    for (int i = me->nsb; i-- > 0;) { Stb* e = &me->sb[i]; if (e->a == a && e->n == n) { *v = e->v; return 1; } if (e->a < a + (unsigned)n && a < e->a + e->n) { sb_all(); return 0; } }
    return 0;
}
#define ATOM(bits, ty) \
extern "C" ty __tsan_atomic##bits##_load(const volatile ty* p, int mo) { apre(p, bits / 8, PK_ALOAD); ty v; uint64_t fw; if (sb_peek((uintptr_t)p, bits / 8, &fw)) { apost(p, is_acq(mo), 0); return (ty)fw; } v = __atomic_load_n(p, 5); apost(p, is_acq(mo), 0); return v; } \
extern "C" void __tsan_atomic##bits##_store(volatile ty* p, ty v, int mo) { apre(p, bits / 8, PK_ASTORE); if (mo < 5 && SIM() && g_alive > 1 && sb_may((uintptr_t)p)) { sb_put((uintptr_t)p, bits / 8, (uint64_t)v, is_rel(mo)); return; } sb_all(); __atomic_store_n(p, v, 5); apost(p, 0, is_rel(mo)); } \
extern "C" ty __tsan_atomic##bits##_exchange(volatile ty* p, ty v, int mo) { apre(p, bits / 8, PK_ALOAD); sb_all(); ty o = __atomic_exchange_n(p, v, 5); apost(p, is_acq(mo), is_rel(mo)); return o; } \
extern "C" ty __tsan_atomic##bits##_fetch_add(volatile ty* p, ty v, int mo) { apre(p, bits / 8, PK_ARMW); sb_all(); ty o = __atomic_fetch_add(p, v, 5); apost(p, is_acq(mo), is_rel(mo)); return o; } \
extern "C" ty __tsan_atomic##bits##_fetch_sub(volatile ty* p, ty v, int mo) { apre(p, bits / 8, PK_ARMW); sb_all(); ty o = __atomic_fetch_sub(p, v, 5); apost(p, is_acq(mo), is_rel(mo)); return o; } \
extern "C" ty __tsan_atomic##bits##_fetch_and(volatile ty* p, ty v, int mo) { apre(p, bits / 8, PK_ARMW); sb_all(); ty o = __atomic_fetch_and(p, v, 5); apost(p, is_acq(mo), is_rel(mo)); return o; } \
extern "C" ty __tsan_atomic##bits##_fetch_or(volatile ty* p, ty v, int mo) { apre(p, bits / 8, PK_ARMW); sb_all(); ty o = __atomic_fetch_or(p, v, 5); apost(p, is_acq(mo), is_rel(mo)); return o; } \
extern "C" ty __tsan_atomic##bits##_fetch_xor(volatile ty* p, ty v, int mo) { apre(p, bits / 8, PK_ARMW); sb_all(); ty o = __atomic_fetch_xor(p, v, 5); apost(p, is_acq(mo), is_rel(mo)); return o; } \
extern "C" ty __tsan_atomic##bits##_fetch_nand(volatile ty* p, ty v, int mo) { apre(p, bits / 8, PK_ARMW); sb_all(); ty o = __atomic_fetch_nand(p, v, 5); apost(p, is_acq(mo), is_rel(mo)); return o; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* p, ty* e, ty v, int mo, int) { apre(p, bits / 8, PK_ALOAD); sb_all(); int ok = __atomic_compare_exchange_n(p, e, v, 0, 5, 5); apost(p, 1, ok && is_rel(mo)); return ok; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* p, ty* e, ty v, int mo, int) { apre(p, bits / 8, PK_ALOAD); sb_all(); int ok = __atomic_compare_exchange_n(p, e, v, 0, 5, 5); apost(p, 1, ok && is_rel(mo)); return ok; } \
extern "C" ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* p, ty e, ty v, int mo, int) { apre(p, bits / 8, PK_ALOAD); sb_all(); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); apost(p, 1, is_rel(mo)); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
static Sync g_fence;
extern "C" void __tsan_atomic_thread_fence(int mo) { if (SIM()) { if (mo == 5) sb_all(); if (is_acq(mo)) acq(&g_fence); if (is_rel(mo)) rel(&g_fence); } }
extern "C" void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ pthread primitives
static void msim_check(void* m, const char* w) { if (t_on) check_alive((uintptr_t)m, 8, w); }
static int mkind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static int mlock(void* m, int recursive) {
    sb_all();
    Sync* s = sync_of((uintptr_t)m);
    if (s->owner == t_self && recursive) { s->cnt++; return 0; }
    while (s->owner >= 0) {
        if (s->owner == t_self) rt_fatal("deadlock", "thread locks a non-recursive mutex it already holds");
        T[t_self].st = ST_BLOCK; T[t_self].wobj = s; T[t_self].wkind = WO_MUTEX;
        block_now();
        T[t_self].st = ST_RUN;
    }
    s->owner = t_self; s->cnt = 1; acq(s); T[t_self].spin = 0;
    return 0;
}
static int munlock(void* m) {
    sb_all();
    Sync* s = sync_of((uintptr_t)m);
    if (s->owner != t_self) rt_fatal("bad-unlock", "mutex released by a thread that does not hold it");
    if (--s->cnt > 0) return 0;
    rel(s); s->owner = -1; wake_waiters(s);
    return 0;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!SIM()) { REALF(pthread_mutex_lock, int, (pthread_mutex_t*), (m)); }
    point(PK_LOCK); msim_check(m, "mutex lock"); return mlock(m, mkind(m) == PTHREAD_MUTEX_RECURSIVE);
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!SIM()) { REALF(pthread_mutex_trylock, int, (pthread_mutex_t*), (m)); }
    point(PK_ALOAD); msim_check(m, "mutex trylock"); sb_all();
    Sync* s = sync_of((uintptr_t)m);
    if (s->owner == t_self && mkind(m) == PTHREAD_MUTEX_RECURSIVE) { s->cnt++; return 0; }
    if (s->owner >= 0) return EBUSY;
    s->owner = t_self; s->cnt = 1; acq(s); return 0;
}
extern "C" int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { if (!SIM()) return EINVAL; for (int i = 0; i < 50; ++i) { if (pthread_mutex_trylock(m) == 0) return 0; point(PK_YIELD); } return ETIMEDOUT; }
extern "C" int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* t) { return pthread_mutex_timedlock(m, t); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!SIM()) { REALF(pthread_mutex_unlock, int, (pthread_mutex_t*), (m)); }
    msim_check(m, "mutex unlock"); int r = munlock(m); point(PK_UNLOCK); return r;
}
extern "C" int pthread_spin_lock(pthread_spinlock_t* m) { if (SIM()) { point(PK_LOCK); return mlock((void*)m, 0); } return 0; }
extern "C" int pthread_spin_unlock(pthread_spinlock_t* m) { if (SIM()) { munlock((void*)m); point(PK_UNLOCK); } return 0; }
extern "C" int pthread_spin_trylock(pthread_spinlock_t* m) { if (SIM()) { point(PK_ALOAD); sb_all(); Sync* s = sync_of((uintptr_t)m); if (s->owner >= 0) return EBUSY; s->owner = t_self; s->cnt = 1; acq(s); } return 0; }

static int cwait(pthread_cond_t* c, pthread_mutex_t* m, int timed, uint64_t dl) {
    point(PK_COND); msim_check(c, "condition wait");
    Sync* s = sync_of((uintptr_t)m);
    if (s->owner != t_self) rt_fatal("bad-unlock", "condition wait without holding the mutex");
    int cnt = s->cnt; s->cnt = 1; munlock(m);
    Th* me = &T[t_self]; me->st = ST_COND; me->wobj = c; me->wkind = WO_COND; me->timed = timed; me->deadline = dl; me->timedout = 0;
    block_now();
    me->st = ST_RUN; me->wobj = 0; me->timed = 0; me->spin = 0;
    mlock(m, 0); s->cnt = cnt;
    return me->timedout ? ETIMEDOUT : 0;
}
static uint64_t ts_ns(const struct timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; }
#define EPOCH_S 1700000000ull
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!SIM()) { REALF(pthread_cond_wait, int, (pthread_cond_t*, pthread_mutex_t*), (c, m)); }
    return cwait(c, m, 0, 0);
}
static uint64_t dl_of(const struct timespec* t) { uint64_t n = ts_ns(t), e = EPOCH_S * 1000000000ull; return n > e ? n - e : n; }
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    if (!SIM()) { REALF(pthread_cond_timedwait, int, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*), (c, m, t)); }
    return cwait(c, m, 1, dl_of(t));
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) {
    if (!SIM()) return EINVAL;
    return cwait(c, m, 1, dl_of(t));
}
extern "C" int pthread_cond_signal(pthread_cond_t* c) {
    if (!SIM()) { REALF(pthread_cond_signal, int, (pthread_cond_t*), (c)); }
    msim_check(c, "notify"); point(PK_NOTIFY);
    int w[MAXT], n = 0; for (int i = 0; i < g_n; ++i) if (T[i].st == ST_COND && T[i].wobj == c) w[n++] = i;
    if (!n) return 0;
    int k = w[0];
    if (n > 1) {
        if (C.strategy == RT_REPLAY) { if (g_rpi < g_rpn && g_rp[g_rpi].k == 'n') { for (int i = 0; i < n; ++i) if (w[i] == g_rp[g_rpi].t) k = w[i]; rp_next(); } }
        else k = w[rnd() % (unsigned)n];
        seg_close(t_self); tr_push('n', k, 0); mix(0x4e + (uint64_t)k);
    }
    T[k].st = ST_RUN; T[t_self].spin = 0;
    return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!SIM()) { REALF(pthread_cond_broadcast, int, (pthread_cond_t*), (c)); }
    msim_check(c, "notify"); point(PK_NOTIFY);
    for (int i = 0; i < g_n; ++i) if (T[i].st == ST_COND && T[i].wobj == c) T[i].st = ST_RUN;
    return 0;
}
extern "C" int pthread_cond_destroy(pthread_cond_t* c) { (void)c; return 0; }

// reader-writer locks (not used by the pinned tree; here so that a rewrite on top of them is simulated too)
static int rdlock(void* m) {
    sb_all();
    point(PK_LOCK); msim_check(m, "rwlock"); Sync* s = sync_of((uintptr_t)m);
    while (s->owner >= 0) { if (s->owner == t_self) return EDEADLK; T[t_self].st = ST_BLOCK; T[t_self].wobj = s; block_now(); T[t_self].st = ST_RUN; }
    s->readers++; acq(s); return 0;
}
static int wrlock(void* m) {
    sb_all();
    point(PK_LOCK); msim_check(m, "rwlock"); Sync* s = sync_of((uintptr_t)m);
    while (s->owner >= 0 || s->readers > 0) { if (s->owner == t_self) return EDEADLK; T[t_self].st = ST_BLOCK; T[t_self].wobj = s; block_now(); T[t_self].st = ST_RUN; }
    s->owner = t_self; acq(s); vjoin(&T[t_self].vc, &s->rvc); return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!SIM()) { REALF(pthread_rwlock_rdlock, int, (pthread_rwlock_t*), (m)); } return rdlock(m); }
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!SIM()) { REALF(pthread_rwlock_wrlock, int, (pthread_rwlock_t*), (m)); } return wrlock(m); }
extern "C" int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!SIM()) { REALF(pthread_rwlock_tryrdlock, int, (pthread_rwlock_t*), (m)); } point(PK_ALOAD); Sync* s = sync_of((uintptr_t)m); if (s->owner >= 0) return EBUSY; s->readers++; acq(s); return 0; }
extern "C" int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!SIM()) { REALF(pthread_rwlock_trywrlock, int, (pthread_rwlock_t*), (m)); } point(PK_ALOAD); Sync* s = sync_of((uintptr_t)m); if (s->owner >= 0 || s->readers) return EBUSY; s->owner = t_self; acq(s); vjoin(&T[t_self].vc, &s->rvc); return 0; }
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!SIM()) { REALF(pthread_rwlock_unlock, int, (pthread_rwlock_t*), (m)); }
    msim_check(m, "rwlock unlock"); Sync* s = sync_of((uintptr_t)m);
    if (s->owner == t_self) { rel(s); s->owner = -1; }
    else if (s->readers > 0) { vjoin(&s->rvc, &T[t_self].vc); T[t_self].vc.c[t_self]++; s->readers--; }
    else rt_fatal("bad-unlock", "rwlock released by a thread that does not hold it");
    wake_waiters(s); point(PK_UNLOCK); return 0;
}
extern "C" int pthread_once(pthread_once_t* o, void (*f)(void)) {
    if (!SIM()) { REALF(pthread_once, int, (pthread_once_t*, void (*)(void)), (o, f)); }
    point(PK_LOCK); Sync* s = sync_of((uintptr_t)o);
    if (*o == 2 && s->once == 0) s->once = 2;     // completed before the simulation started
    for (;;) {
        if (s->once == 2) { acq(s); return 0; }
        if (s->once == 0) { s->once = 1; f(); s->once = 2; *o = 2; rel(s); wake_waiters(s); point(PK_UNLOCK); return 0; }
        T[t_self].st = ST_BLOCK; T[t_self].wobj = s; block_now(); T[t_self].st = ST_RUN;
    }
}
extern "C" int __cxa_guard_acquire(uint64_t* g) {
    if (*(uint8_t*)g) { if (SIM()) acq(sync_of((uintptr_t)g)); return 0; }
    if (!SIM()) return 1;
    point(PK_LOCK); Sync* s = sync_of((uintptr_t)g);
    for (;;) {
        if (*(uint8_t*)g) { acq(s); return 0; }
        if (s->once == 0) { s->once = 1; return 1; }
        T[t_self].st = ST_BLOCK; T[t_self].wobj = s; block_now(); T[t_self].st = ST_RUN;
    }
}
extern "C" void __cxa_guard_release(uint64_t* g) { *(uint8_t*)g = 1; if (SIM()) { Sync* s = sync_of((uintptr_t)g); s->once = 0; rel(s); wake_waiters(s); point(PK_UNLOCK); } }
extern "C" void __cxa_guard_abort(uint64_t* g) { if (SIM()) { Sync* s = sync_of((uintptr_t)g); s->once = 0; wake_waiters(s); } }

// time
extern "C" int sched_yield(void) { if (!SIM()) return (int)syscall(SYS_sched_yield); point(PK_YIELD); return 0; }
static void simsleep(uint64_t ns) { g_time_ns += ns; rt_count("sleep"); for (int i = 0; i < 3; ++i) point(PK_YIELD); }
extern "C" int nanosleep(const struct timespec* a, struct timespec* b) { if (!SIM()) return (int)syscall(SYS_nanosleep, a, b); simsleep(ts_ns(a)); return 0; }
extern "C" int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { if (!SIM()) return (int)-syscall(SYS_clock_nanosleep, c, f, a, b); simsleep(f ? 1000 : ts_ns(a)); return 0; }
extern "C" int usleep(useconds_t u) { if (!SIM()) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, 0); } simsleep((uint64_t)u * 1000); return 0; }
extern "C" int clock_gettime(clockid_t c, struct timespec* t) { if (!SIM()) return (int)syscall(SYS_clock_gettime, c, t); t->tv_sec = (time_t)(EPOCH_S + g_time_ns / 1000000000ull); t->tv_nsec = (long)(g_time_ns % 1000000000ull); return 0; }
extern "C" int gettimeofday(struct timeval* t, void*) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
extern "C" time_t time(time_t* t) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }

// ------------------------------------------------------------------ console
#define CONCAP (256u << 10)
static char* g_con; static size_t g_conn[MAXT]; static int g_conover[MAXT];
static void con_put(const char* s, size_t n) {
    int t = t_self; if (t < 0 || !g_con) return;
    if (g_conn[t] + n > CONCAP) { g_conover[t] = 1; return; }
    memcpy(g_con + (size_t)t * CONCAP + g_conn[t], s, n); g_conn[t] += n;
    if (SIM() && memchr(s, '\n', n)) { rt_count("console_lines"); point(PK_IO); }
}
struct ConBuf : std::streambuf {
    std::streamsize xsputn(const char* s, std::streamsize n) override { con_put(s, (size_t)n); return n; }
    int overflow(int c) override { if (c != EOF) { char x = (char)c; con_put(&x, 1); } return c == EOF ? 0 : c; }
    int sync() override { return 0; }
};
extern "C" void con_install(void) { g_con = (char*)mmap(0, (size_t)MAXT * CONCAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); static ConBuf* b = new ConBuf; std::cout.rdbuf(b); struct Nul : std::streambuf { std::streamsize xsputn(const char*, std::streamsize n) override { return n; } int overflow(int c) override { return c == EOF ? 0 : c; } }; static Nul* nb = new Nul; std::cerr.rdbuf(nb); }
extern "C" void con_reset(void) { if (t_self >= 0) { g_conn[t_self] = 0; g_conover[t_self] = 0; } }
extern "C" size_t con_text(const char** d) { if (t_self < 0 || g_conover[t_self]) return (size_t)-1; *d = g_con + (size_t)t_self * CONCAP; return g_conn[t_self]; }
// back-traces: as few frames as a compiler that inlines would leave; the rest of the array is garbage
static int g_btlim;
extern "C" void bt_limit(int n) { g_btlim = n; }
extern "C" int backtrace(void** a, int n) {
    typedef int (*fn_t)(void**, int); static fn_t r; if (!r) r = (fn_t)real("backtrace");
    if (!SIM()) return r(a, n);
    ++t_inrt; int k = r(a, n < 64 ? n : 64); --t_inrt; if (g_btlim > 0 && k > g_btlim) { k = g_btlim; rt_count("backtrace_cut"); }
    for (int i = k; i < n; ++i) a[i] = (void*)0xCBCBCBCBCBCBCBCBull;
    rt_count("backtraces"); return k;
}
extern "C" int dladdr1(const void* a, Dl_info* i, void** x, int f) noexcept {
    typedef int (*fn_t)(const void*, Dl_info*, void**, int); static fn_t r; if (!r) r = (fn_t)real("dladdr1");
    ++t_inrt; int k = r(a, i, x, f); --t_inrt; if (!k && x) *x = (void*)0xCBCBCBCBCBCBull; return k;
}
// commands the library wants to run (addr2line for a back-trace) are only counted
extern "C" int system(const char* c) { (void)c; if (SIM()) { rt_count("system_calls"); point(PK_IO); } return 0; }

// ------------------------------------------------------------------ simulated disk
#define MAXF 24
#define MAXH 64
struct File { char name[128]; char* d; size_t n, cap; int exists, dir; };
struct Hnd { int used; File* f; size_t pos; int rd, wr, app; FILE* fp; int werr; };
struct Fault { char op[12]; int nth; char act[12]; long arg; int fired; };
static File F[MAXF]; static Hnd HN[MAXH]; static Fault FT[32]; static int g_nft; static int g_cnt_open, g_cnt_read, g_cnt_write, g_cnt_close, g_cnt_seek;
#define FDBASE 100000
static char* fdata(size_t cap) { return (char*)mmap(0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
extern "C" void fs_clear_faults(void) { g_nft = 0; }
extern "C" void fs_reset(void) { for (int i = 0; i < MAXF; ++i) F[i].exists = 0; memset(HN, 0, sizeof HN); g_nft = 0; g_cnt_open = g_cnt_read = g_cnt_write = g_cnt_close = g_cnt_seek = 0; }
static File* ffind(const char* n, int create) {
    for (int i = 0; i < MAXF; ++i) if (F[i].exists && !strcmp(F[i].name, n)) return &F[i];
    if (!create) return 0;
    for (int i = 0; i < MAXF; ++i) if (!F[i].exists) { File* f = &F[i]; strncpy(f->name, n, 127); f->exists = 1; f->n = 0; f->dir = 0; return f; }
    rt_fatal("harness-limit", "too many simulated files"); return 0;
}
static void fgrow(File* f, size_t n) {
    if (n <= f->cap) return;
    size_t c = f->cap ? f->cap : 4096; while (c < n) c *= 2;
    char* d = fdata(c); if (f->d) { memcpy(d, f->d, f->n); munmap(f->d, f->cap); } f->d = d; f->cap = c;
}
extern "C" void fs_put(const char* name, const char* data, size_t n) { File* f = ffind(name, 1); fgrow(f, n); memcpy(f->d, data, n); f->n = n; f->dir = 0; }
extern "C" int fs_get(const char* name, const char** d, size_t* n) { File* f = ffind(name, 0); if (!f) return 0; *d = f->d; *n = f->n; return 1; }
extern "C" void fs_mkdir(const char* name) { File* f = ffind(name, 1); f->dir = 1; f->n = 0; }
extern "C" void fs_fault(const char* op, int nth, const char* act, long arg) { if (g_nft < 32) { Fault* t = &FT[g_nft++]; memset(t, 0, sizeof *t); strncpy(t->op, op, 11); strncpy(t->act, act, 11); t->nth = nth; t->arg = arg; } }
extern "C" int fs_faults_fired(void) { int n = 0; for (int i = 0; i < g_nft; ++i) n += FT[i].fired; return n; }
extern "C" int fs_fault_fired(const char* op) { int n = 0; for (int i = 0; i < g_nft; ++i) if (!strcmp(FT[i].op, op)) n += FT[i].fired; return n; }
extern "C" int fs_open_handles(void) { int n = 0; for (int i = 0; i < MAXH; ++i) n += HN[i].used; return n; }
// nth: >0 exactly that call; 0 every call; <0 every call from -nth on
static Fault* ffault(const char* op, int* cnt) {
    ++*cnt;
    for (int i = 0; i < g_nft; ++i) if (!strcmp(FT[i].op, op)) {
        Fault* t = &FT[i];
        if (t->nth == *cnt || t->nth == 0 || (t->nth < 0 && *cnt >= -t->nth)) { t->fired++; char nm[40]; snprintf(nm, sizeof nm, "fault_%s_%s", op, t->act); rt_count(nm); return t; }
    }
    return 0;
}
static int act_errno(const char* a) {
    if (!strcmp(a, "EIO")) return EIO; if (!strcmp(a, "ENOSPC")) return ENOSPC; if (!strcmp(a, "EINTR")) return EINTR; if (!strcmp(a, "EACCES")) return EACCES;
    if (!strcmp(a, "EMFILE")) return EMFILE; if (!strcmp(a, "ENOENT")) return ENOENT; if (!strcmp(a, "EDQUOT")) return EDQUOT; if (!strcmp(a, "EFBIG")) return EFBIG; if (!strcmp(a, "ESPIPE")) return ESPIPE; if (!strcmp(a, "EROFS")) return EROFS; return 0;
}
static Hnd* hof(int fd) { int i = fd - FDBASE; return i >= 0 && i < MAXH && HN[i].used ? &HN[i] : 0; }
static bool simpath(const char* p) { return p && !strncmp(p, "/sim/", 5); }
static int sopen(const char* p, int rd, int wr, int trunc, int app, int creat, int excl) {
    point(PK_IO);
    if (Fault* t = ffault("open", &g_cnt_open)) { int e = act_errno(t->act); if (e) { errno = e; return -1; } }
    File* f = ffind(p, 0);
    if (f && f->dir && wr) { errno = EISDIR; return -1; }
    if (f && excl) { errno = EEXIST; return -1; }
    if (!f) { if (!creat) { errno = ENOENT; return -1; } f = ffind(p, 1); }
    if (trunc) f->n = 0;
    for (int i = 0; i < MAXH; ++i) if (!HN[i].used) { memset(&HN[i], 0, sizeof HN[i]); HN[i].used = 1; HN[i].f = f; HN[i].rd = rd; HN[i].wr = wr; HN[i].app = app; return FDBASE + i; }
    errno = EMFILE; return -1;
}
static ssize_t sread(int fd, void* b, size_t n) {
    Hnd* h = hof(fd); if (!h) { errno = EBADF; return -1; }
    point(PK_IO);
    if (h->f->dir) { errno = EISDIR; return -1; }
    Fault* t = ffault("read", &g_cnt_read);
    if (t) {
        int e = act_errno(t->act); if (e) { errno = e; return -1; }
        if (!strcmp(t->act, "short")) { size_t m = (size_t)(t->arg > 0 ? t->arg : 1); if (n > m) n = m; }
        if (!strcmp(t->act, "eof")) return 0;
    }
    size_t av = h->pos < h->f->n ? h->f->n - h->pos : 0; if (n > av) n = av;
    if (t_on && n) mem((uintptr_t)b, n, 1, RA);
    memcpy(b, h->f->d + h->pos, n); h->pos += n; return (ssize_t)n;
}
static ssize_t swrite(int fd, const void* b, size_t n) {
    Hnd* h = hof(fd); if (!h || !h->wr) { errno = EBADF; return -1; }
    point(PK_IO);
    Fault* t = ffault("write", &g_cnt_write);
    if (t) {
        if (!strcmp(t->act, "short")) { size_t m = (size_t)(t->arg > 0 ? t->arg : 1); if (n > m) n = m; }
        else if (!strcmp(t->act, "full")) { // disk full after arg further bytes: short write once, then ENOSPC
            size_t m = (size_t)t->arg; if (m == 0) { errno = ENOSPC; return -1; } if (n >= m) { n = m; t->arg = 0; t->nth = -(g_cnt_write + 1); } }
        else { int e = act_errno(t->act); if (e) { errno = e; return -1; } }
    }
    if (h->app) h->pos = h->f->n;
    fgrow(h->f, h->pos + n);
    if (h->pos > h->f->n) memset(h->f->d + h->f->n, 0, h->pos - h->f->n);
    memcpy(h->f->d + h->pos, b, n); h->pos += n; if (h->pos > h->f->n) h->f->n = h->pos; return (ssize_t)n;
}
static off_t sseek(int fd, off_t o, int w) {
    Hnd* h = hof(fd); if (!h) { errno = EBADF; return -1; }
    if (Fault* t = ffault("seek", &g_cnt_seek)) { int e = act_errno(t->act); if (e) { errno = e; return -1; } }
    off_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t)h->pos : (off_t)h->f->n;
    if (h->f->dir && w == SEEK_END) return 0x7fffffffffffffffll;
    if (base + o < 0) { errno = EINVAL; return -1; }
    h->pos = (size_t)(base + o); return base + o;
}
static int sclose(int fd) {
    Hnd* h = hof(fd); if (!h) { errno = EBADF; return -1; }
    point(PK_IO);
    Fault* t = ffault("close", &g_cnt_close); h->used = 0;
    if (t) {
        if (!strcmp(t->act, "lose")) { size_t k = (size_t)t->arg; if (k < h->f->n) h->f->n = k; errno = EIO; return -1; }
        int e = act_errno(t->act); if (e && e != EINTR) { errno = e; return -1; }
    }
    return 0;
}
static ssize_t ck_read(void* c, char* b, size_t n) { return sread((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) { ssize_t r = swrite((int)(intptr_t)c, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* o, int w) { off_t r = sseek((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { return sclose((int)(intptr_t)c); }
typedef FILE* (*fopen_t)(const char*, const char*);
static FILE* sfopen(const char* p, const char* m) {
    int rd = strchr(m, 'r') || strchr(m, '+'), wr = strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+');
    int fd = sopen(p, !!rd, !!wr, strchr(m, 'w') != 0, strchr(m, 'a') != 0, strchr(m, 'r') == 0, strchr(m, 'x') != 0);
    if (fd < 0) return 0;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    int e = errno; FILE* f = fopencookie((void*)(intptr_t)fd, m, io); errno = e; if (f) HN[fd - FDBASE].fp = f; return f;
}
extern "C" FILE* fopen(const char* p, const char* m) { if (!simpath(p) || !SIM()) { static fopen_t r; if (!r) r = (fopen_t)real("fopen"); return r(p, m); } return sfopen(p, m); }
extern "C" FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
extern "C" int fileno(FILE* f) noexcept { for (int i = 0; i < MAXH; ++i) if (HN[i].used && HN[i].fp == f) return FDBASE + i; typedef int (*fn_t)(FILE*); static fn_t r; if (!r) r = (fn_t)real("fileno"); return r(f); }
static int openv(const char* p, int fl, int mode) {
    if (!simpath(p) || !SIM()) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode) ;
    int acc = fl & O_ACCMODE; return sopen(p, acc != O_WRONLY, acc != O_RDONLY, !!(fl & O_TRUNC), !!(fl & O_APPEND), !!(fl & O_CREAT), (fl & O_CREAT) && (fl & O_EXCL));
}
extern "C" int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); int r = openv(p, fl, m); return r; }
extern "C" int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return openv(p, fl, m); }
extern "C" ssize_t read(int fd, void* b, size_t n) { if (hof(fd)) return sread(fd, b, n); long r = syscall(SYS_read, fd, b, n); return r; }
extern "C" ssize_t write(int fd, const void* b, size_t n) { if (hof(fd)) return swrite(fd, b, n); return syscall(SYS_write, fd, b, n); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!hof(fd)) return syscall(SYS_writev, fd, v, c);
    size_t tot = 0; for (int i = 0; i < c; ++i) tot += v[i].iov_len;
    char* b = (char*)malloc(tot + 1); size_t k = 0; for (int i = 0; i < c; ++i) { memcpy(b + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
    ssize_t r = swrite(fd, b, tot); free(b); return r;
}
extern "C" off_t lseek(int fd, off_t o, int w) noexcept { if (hof(fd)) return sseek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
extern "C" off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
extern "C" int close(int fd) { if (hof(fd)) return sclose(fd); return (int)syscall(SYS_close, fd); }
extern "C" int fsync(int fd) { if (hof(fd)) return 0; return (int)syscall(SYS_fsync, fd); }
static void sstat(File* f, struct stat* s) { memset(s, 0, sizeof *s); s->st_size = (off_t)f->n; s->st_mode = f->dir ? (S_IFDIR | 0755) : (S_IFREG | 0644); }
extern "C" int fstat(int fd, struct stat* s) noexcept { if (Hnd* h = hof(fd)) { sstat(h->f, s); return 0; } return (int)syscall(SYS_newfstatat, fd, "", s, AT_EMPTY_PATH); }
extern "C" int fstat64(int fd, struct stat64* s) noexcept { return fstat(fd, (struct stat*)s); }
extern "C" int stat(const char* p, struct stat* s) noexcept { if (simpath(p)) { File* f = ffind(p, 0); if (!f) { errno = ENOENT; return -1; } sstat(f, s); return 0; } return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
extern "C" int stat64(const char* p, struct stat64* s) noexcept { return stat(p, (struct stat*)s); }
extern "C" int access(const char* p, int m) noexcept { if (simpath(p)) { if (ffind(p, 0)) return 0; errno = ENOENT; return -1; } return (int)syscall(SYS_faccessat, AT_FDCWD, p, m); }
extern "C" int unlink(const char* p) noexcept { if (simpath(p)) { File* f = ffind(p, 0); if (!f) { errno = ENOENT; return -1; } f->exists = 0; f->n = 0; return 0; } return (int)syscall(SYS_unlink, p); }
extern "C" int remove(const char* p) noexcept { if (simpath(p)) return unlink(p); return (int)syscall(SYS_unlink, p); }
extern "C" int rename(const char* a, const char* b) noexcept {
    if (!simpath(a)) return (int)syscall(SYS_rename, a, b);
    File* f = ffind(a, 0); if (!f) { errno = ENOENT; return -1; }
    File* g = ffind(b, 0); if (g) g->exists = 0;
    strncpy(f->name, b, 127); return 0;
}
extern "C" int poll(struct pollfd* p, nfds_t n, int t) { if (n == 1 && hof(p[0].fd)) { p[0].revents = p[0].events; return 1; } return (int)syscall(SYS_poll, p, n, t); }

// ------------------------------------------------------------------ simulated entropy
static uint64_t g_ent, g_entn; static int g_entmode; static uint32_t g_entlog[4096];
extern "C" void rnd_seed(uint64_t s, int mode) { g_ent = s | 1; g_entmode = mode; g_entn = 0; }
static uint32_t entropy() {
    uint32_t v; g_ent ^= g_ent << 13; g_ent ^= g_ent >> 7; g_ent ^= g_ent << 17; uint64_t x = g_ent * 2685821657736338717ull;
    switch (g_entmode) { case 1: v = (uint32_t)(x >> 32) & 0x1; v = v ? ~0u : 0u; break; case 2: v = (uint32_t)g_entn; break; case 3: v = 1u << ((x >> 32) & 31); break; default: v = (uint32_t)(x >> 32); }
    if (g_entn < 4096) g_entlog[g_entn] = v; ++g_entn; return v;
}
extern "C" uint64_t rnd_calls(void) { return g_entn; }
extern "C" uint32_t rnd_value(uint64_t i) { return i < 4096 ? g_entlog[i] : 0; }
extern "C" unsigned _ZNSt13random_device9_M_getvalEv(void*) { if (SIM()) point(PK_IO); return entropy(); }
extern "C" unsigned _ZNSt13random_device16_M_getval_pretr1Ev(void*) { return entropy(); }
extern "C" void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, void*) {}
extern "C" void _ZNSt13random_device14_M_init_pretr1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, void*) {}
extern "C" void _ZNSt13random_device7_M_finiEv(void*) {}
extern "C" ssize_t getrandom(void* b, size_t n, unsigned) { for (size_t i = 0; i < n; ++i) ((char*)b)[i] = (char)entropy(); return (ssize_t)n; }
extern "C" int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }
extern "C" uint32_t arc4random(void) noexcept { return entropy(); }
extern "C" int rand(void) noexcept { return (int)(entropy() & 0x7fffffff); }
