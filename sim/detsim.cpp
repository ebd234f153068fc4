// Runtime of the simulator. Compiled WITHOUT instrumentation; linked into the harness executable, whose definitions of
// the pthread, clock, sleep, allocation, file and __tsan_* symbols take precedence over the C library's.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "detsim.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <new>
#include <random>
#include <stdexcept>
#include <typeinfo>

typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;

static const int MAXT = 40;

// ------------------------------------------------------------------------------------------------ raw system calls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void raw_write(int fd, const char* p, size_t n)
{
    while (n)
    {
        long r = raw6(SYS_write, fd, (long)p, n, 0, 0, 0);
        if (r <= 0)
            return;
        p += r;
        n -= r;
    }
}

// ------------------------------------------------------------------------------------------------ PRNG
static inline u64 mix(u64 z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline u64 hstr(const char* s)
{
    u64 h = 1469598103934665603ull;
    while (*s)
        h = (h ^ (unsigned char)*s++) * 1099511628211ull;
    return h;
}
struct Rng
{
    u64 s;
    u64 next() { return mix(s++ * 0x9e3779b97f4a7c15ull + 0x1234567); }
    u64 below(u64 n) { return next() % n; }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};

// ------------------------------------------------------------------------------------------------ shared result
struct Dev
{
    u32 ord;
    u32 choice;
};
struct Fired
{
    char kind[20];
    u32 ord;
};
struct Cnt
{
    char name[40];
    u64 n, asked;
};
struct Par
{
    char name[40];
    i64 v, lo, hi;
};
static const int MAXDEV = 1 << 20, MAXFIRED = 1 << 16, MAXPAR = 600, MAXCNT = 96;
struct Result
{
    int done, viol;
    char cls[64];
    char msg[6000];
    char notes[4000];
    u64 points, decisions, switches, accesses, sched_hash, log_hash;
    i64 simtime;
    int threads;
    int npar;
    Par par[MAXPAR];
    int nfault;
    Cnt fault[24];
    int nprobe;
    Cnt probe[MAXCNT];
    int ndev, nfired;
    Dev dev[MAXDEV];
    Fired fired[MAXFIRED];
};
static Result* R;

// ------------------------------------------------------------------------------------------------ replay input
struct Replay
{
    bool on;
    int ndev;
    Dev* dev;
    int nfired;
    Fired* fired;
    int npar;
    Par* par;
    u64 watch;
};
static Replay rp;

// ------------------------------------------------------------------------------------------------ simulator state
enum St
{
    S_FREE,
    S_RUN,
    S_MUTEX,
    S_COND,
    S_JOIN,
    S_SLEEP,
    S_FUTEX,
    S_RW,
    S_BARRIER,
    S_FIN
};
static const char* stname[] = {"free", "runnable", "waiting for mutex", "waiting on condition", "joining", "sleeping",
    "futex wait", "rwlock wait", "barrier", "finished"};
static const int FDEPTH = 512;
struct Th
{
    int id;
    St st;
    const void* obj;
    i64 wake;  // INT64_MAX: no timeout
    bool timedout;
    volatile int go;
    pthread_t real;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    bool detached, joined;
    u64 prio;
    u64 stall_until;  // scheduling-point number
    u64 consec;
    u64 waitseq;
    u32 vc[MAXT];
    int fdepth;
    void* fs[FDEPTH];
    int omp_num, omp_team;
    void* team;
};
static Th T[MAXT];
static int nT, n_created;
static __thread Th* self;
static bool active;      // a simulated run is in progress
static bool race_on;
static bool acc_on;      // plain accesses need work (more than one thread exists)
static int plain_mean;
static i64 plain_left = INT64_MAX;
static bool atom_yield = true;
static bool spin_guard;
static u64 seed_;
static Rng rs, rt_, rpln;
static i64 now_;
static i64 rt_off;
static i64 tick_max;
static u64 npoints, ndecis, nswitch, naccess;
static u64 budget_points = 400000, budget_access = 600000000ull;
static u64 shash, lhash;
static bool faults_on = true;
static u64 wseq;
static int strat;
static double p_switch;
static u64 pct_pts[8];
static int n_pct;
static double p_stall, p_late;
static int stall_len;
static double prob_spur, prob_tcf, prob_alloc, prob_entropy;
static i64 prob_io_open, dummy_;
static int verbose_ = 0;
static char watch_buf[8000];
static int watch_len;

static inline void fold(u64& h, u64 v) { h = mix(h ^ v) + 0x632be59bd9b4e019ull; }

[[noreturn]] static void child_exit()
{
    R->points = npoints;
    R->decisions = ndecis;
    R->switches = nswitch;
    R->accesses = naccess;
    R->sched_hash = shash;
    R->log_hash = lhash;
    R->simtime = now_;
    R->threads = n_created + 1;
    raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

static void describe_threads(char* b, size_t n)
{
    size_t k = 0;
    b[0] = 0;
    for (int i = 0; i < nT && k + 200 < n; i++)
    {
        Th& t = T[i];
        k += snprintf(b + k, n - k, "; thread %d %s", i, stname[t.st]);
        if (t.fdepth > 0)
        {
            k += snprintf(b + k, n - k, " at");
            for (int d = (t.fdepth < FDEPTH ? t.fdepth : FDEPTH) - 1, c = 0; d >= 0 && c < 6; d--, c++)
                k += snprintf(b + k, n - k, " {%lx}", (unsigned long)t.fs[d]);
        }
    }
}

static bool in_violation;
static void vviolation(const char* cls, const char* fmt, va_list ap)
{
    if (in_violation)
        child_exit();
    in_violation = true;
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    int n = vsnprintf(R->msg, sizeof(R->msg) - 2500, fmt, ap);
    if (n < 0)
        n = 0;
    if (n > (int)sizeof(R->msg) - 2501)
        n = sizeof(R->msg) - 2501;
    describe_threads(R->msg + n, sizeof(R->msg) - n);
    R->viol = 1;
    child_exit();
}
namespace sim {
void violation(const char* cls, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    active = false;
    vviolation(cls, fmt, ap);
    va_end(ap);
    abort();
}
void note(const char* fmt, ...)
{
    size_t k = strlen(R->notes);
    if (k + 2 >= sizeof R->notes)
        return;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->notes + k, sizeof(R->notes) - k, fmt, ap);
    va_end(ap);
}
}

static Cnt* cnt(Cnt* a, int& n, int max, const char* name)
{
    for (int i = 0; i < n; i++)
        if (!strcmp(a[i].name, name))
            return a + i;
    if (n == max)
        return a + max - 1;
    snprintf(a[n].name, sizeof a[n].name, "%s", name);
    a[n].n = a[n].asked = 0;
    return a + n++;
}

// ------------------------------------------------------------------------------------------------ decisions
static int rp_dev_i;
// n alternatives, alternative 0 is the default; weight: 0 -> strategy decided `pick` already
static int decide(int n, int pick)
{
    u32 ord = (u32)ndecis++;
    int c = pick;
    if (rp.on)
    {
        c = 0;
        while (rp_dev_i < rp.ndev && rp.dev[rp_dev_i].ord < ord)
            rp_dev_i++;
        if (rp_dev_i < rp.ndev && rp.dev[rp_dev_i].ord == ord)
            c = rp.dev[rp_dev_i].choice;
        if (c >= n)
            c = 0;
    }
    if (c != 0 && R->ndev < MAXDEV)
    {
        R->dev[R->ndev].ord = ord;
        R->dev[R->ndev].choice = c;
        R->ndev++;
    }
    fold(shash, (u64)c * 131 + n);
    return c;
}

namespace sim {
bool fault(const char* kind, double prob)
{
    if (!active || !faults_on)
        return false;
    if (prob <= 0)
        return false;
    Cnt* c = cnt(R->fault, R->nfault, 24, kind);
    u32 ord = (u32)c->asked++;
    bool f;
    if (rp.on)
    {
        f = false;
        for (int i = 0; i < rp.nfired; i++)
            if (rp.fired[i].ord == ord && !strncmp(rp.fired[i].kind, kind, 19))
            {
                f = true;
                break;
            }
    }
    else
    {
        u64 x = mix(seed_ ^ hstr(kind) ^ mix(ord + 77));
        f = (x >> 11) * (1.0 / 9007199254740992.0) < prob;
    }
    if (f)
    {
        c->n++;
        if (R->nfired < MAXFIRED)
        {
            snprintf(R->fired[R->nfired].kind, 20, "%s", kind);
            R->fired[R->nfired].ord = ord;
            R->nfired++;
        }
        fold(shash, hstr(kind) + ord);
    }
    return f;
}
void enable_fault(const char* kind, double prob)
{
    if (!strcmp(kind, "spurious_wakeup"))
        prob_spur = prob;
    else if (!strcmp(kind, "thread_create_fail"))
        prob_tcf = prob;
    else if (!strcmp(kind, "alloc_fail"))
        prob_alloc = prob;
    else if (!strcmp(kind, "entropy_fail"))
        prob_entropy = prob;
    else if (!strcmp(kind, "stall"))
        p_stall = prob;
}
void disable_faults() { faults_on = false; }
uint64_t faults_fired(const char* kind)
{
    return active ? cnt(R->fault, R->nfault, 24, kind)->n : 0;
}

static u64 par_ordinal(const char* name)
{
    u64 k = 0;
    for (int i = 0; i < R->npar; i++)
        if (!strcmp(R->par[i].name, name))
            k++;
    return k;
}
int64_t P(const char* name, int64_t lo, int64_t hi)
{
    u64 o = par_ordinal(name);
    u64 x = mix(mix(seed_ ^ hstr(name)) + o);
    i64 v = lo + (i64)(x % (u64)(hi - lo + 1));
    if (rp.on)
    {
        u64 k = 0;
        for (int i = 0; i < rp.npar; i++)
            if (!strcmp(rp.par[i].name, name))
            {
                if (k == o)
                {
                    v = rp.par[i].v;
                    if (v < lo)
                        v = lo;
                    if (v > hi)
                        v = hi;
                    break;
                }
                k++;
            }
    }
    if (R->npar < MAXPAR)
    {
        Par& p = R->par[R->npar++];
        snprintf(p.name, sizeof p.name, "%s", name);
        p.v = v;
        p.lo = lo;
        p.hi = hi;
    }
    fold(lhash, (u64)v);
    return v;
}
double PR(const char* name, double lo, double hi) { return lo + (hi - lo) * (double)P(name, 0, 1024) / 1024.0; }
bool PB(const char* name, int percent) { return P(name, 0, 99) >= 100 - percent; }
void probe(const char* name) { cnt(R->probe, R->nprobe, MAXCNT, name)->n++; }
void probe_if(bool c, const char* name)
{
    Cnt* k = cnt(R->probe, R->nprobe, MAXCNT, name);
    if (c)
        k->n++;
}
void log(uint64_t v) { fold(lhash, v); }
void logd(double v)
{
    u64 b;
    memcpy(&b, &v, 8);
    fold(lhash, b);
}
}

// ------------------------------------------------------------------------------------------------ vector clocks
static inline void vc_join(u32* a, const u32* b)
{
    for (int i = 0; i < nT; i++)
        if (b[i] > a[i])
            a[i] = b[i];
}
struct Sync
{
    u64 addr;  // 0 empty, 1 tombstone
    int owner;  // mutex owner + 1
    int depth;
    int readers;
    int seq;
    u32 vc[MAXT];
};
static const u32 NSYNC = 1 << 15;
static Sync* SY;
static u32 nsync_used;
static Sync* sync_find(const void* p, bool create)
{
    u64 a = (u64)p;
    u32 h = (u32)(mix(a) & (NSYNC - 1));
    Sync* tomb = nullptr;
    for (u32 i = 0; i < NSYNC; i++)
    {
        Sync& s = SY[(h + i) & (NSYNC - 1)];
        if (s.addr == a)
            return &s;
        if (s.addr == 1 && !tomb)
            tomb = &s;
        if (s.addr == 0)
        {
            if (!create)
                return nullptr;
            Sync* t = tomb ? tomb : &s;
            if (!tomb)
                nsync_used++;
            memset(t, 0, sizeof(Sync));
            t->addr = a;
            return t;
        }
    }
    if (!create)
        return nullptr;
    sim::violation("internal", "simulator: sync table full");
}
static void sync_erase_range(u64 a, u64 n)
{
    if (!nsync_used)
        return;
    if (n <= 1024)
    {
        for (u64 x = a; x < a + n; x += 4)
        {
            Sync* s = sync_find((void*)x, false);
            if (s)
                s->addr = 1;
        }
    }
    else
        for (u32 i = 0; i < NSYNC; i++)
            if (SY[i].addr >= a && SY[i].addr < a + n)
                SY[i].addr = 1;
}
static inline void hb_acquire(Sync* s) { vc_join(self->vc, s->vc); }
static inline void hb_release(Sync* s)
{
    vc_join(s->vc, self->vc);
    self->vc[self->id]++;
}
static inline void hb_release_store(Sync* s)
{
    memcpy(s->vc, self->vc, sizeof s->vc);
    self->vc[self->id]++;
}

// ------------------------------------------------------------------------------------------------ scheduler
static void fwait(volatile int* w)
{
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
        raw6(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
static void fwake(volatile int* w)
{
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void late(Th* t)
{
    // a thread made runnable may take a while before it actually gets a processor
    if (p_late > 0 && rs.chance(p_late))
        t->stall_until = npoints + 1 + rs.below(stall_len);
}
static void wake_sleepers()
{
    for (int i = 0; i < nT; i++)
        if (T[i].st != S_RUN && T[i].st != S_FIN && T[i].st != S_FREE && T[i].wake <= now_)
        {
            T[i].timedout = true;
            T[i].wake = INT64_MAX;
            T[i].st = S_RUN;
            late(&T[i]);
        }
}
// pick the next thread to run; the caller's state is already up to date. Returns nullptr on deadlock.
static Th* pick()
{
    npoints++;
    if (tick_max)
        now_ += (i64)rt_.below(tick_max + 1);
    if (npoints > budget_points)
    {
        active = false;
        sim::violation("no-progress", "no completion within %llu scheduling points (simulated time %.6f s)",
            (unsigned long long)budget_points, now_ * 1e-9);
    }
    wake_sleepers();
    if (prob_spur > 0)
    {
        int nw = 0, w[MAXT];
        for (int i = 0; i < nT; i++)
            if (T[i].st == S_COND)
                w[nw++] = i;
        if (nw && sim::fault("spurious_wakeup", prob_spur))
        {
            Th& t = T[w[mix(npoints) % nw]];
            t.st = S_RUN;
            t.wake = INT64_MAX;
            t.obj = nullptr;
        }
    }
    for (;;)
    {
        // candidates: default first (the running thread, else the lowest id)
        int c[MAXT], n = 0;
        bool guard = self && self->consec > 3000;
        if (self && self->st == S_RUN && !guard)
            c[n++] = self->id;
        int base = guard ? self->id + 1 : 0;
        for (int k = 0; k < nT; k++)
        {
            int i = (base + k) % nT;
            if (T[i].st == S_RUN && !(n && c[0] == i && !guard))
                c[n++] = i;
        }
        if (n == 0)
        {
            i64 m = INT64_MAX;
            for (int i = 0; i < nT; i++)
                if (T[i].st != S_FIN && T[i].st != S_FREE && T[i].wake < m)
                    m = T[i].wake;
            if (m == INT64_MAX)
                return nullptr;
            now_ = m;
            wake_sleepers();
            continue;
        }
        if (n == 1)
            return &T[c[0]];
        int pk = 0;
        if (!rp.on)
        {
            // strategy
            int e[MAXT], ne = 0;  // eligible (not stalled)
            for (int k = 0; k < n; k++)
                if (T[c[k]].stall_until <= npoints)
                    e[ne++] = k;
            if (ne == 0)
            {
                // all stalled: release the one whose stall ends first
                u64 b = ~0ull;
                for (int k = 0; k < n; k++)
                    if (T[c[k]].stall_until < b)
                        b = T[c[k]].stall_until;
                for (int k = 0; k < n; k++)
                    if (T[c[k]].stall_until == b)
                        e[ne++] = k;
            }
            if (strat == 1)
            {
                for (int i = 0; i < n_pct; i++)
                    if (pct_pts[i] == npoints && self)
                        self->prio = rs.below(1000);
                if (self && self->consec > 2000)
                    self->prio = rs.below(1000);
                int b = e[0];
                for (int k = 1; k < ne; k++)
                    if (T[c[e[k]]].prio > T[c[b]].prio)
                        b = e[k];
                pk = b;
            }
            else
            {
                if (p_stall > 0 && rs.chance(p_stall))
                {
                    Th& v = T[c[rs.below(n)]];
                    v.stall_until = npoints + 1 + rs.below(stall_len);
                    Cnt* k = cnt(R->fault, R->nfault, 24, "stall");
                    k->n++;
                    k->asked++;
                }
                bool curok = false;
                for (int k = 0; k < ne; k++)
                    if (e[k] == 0)
                        curok = true;
                if (curok && self && c[0] == self->id && self->st == S_RUN && !rs.chance(p_switch))
                    pk = 0;
                else
                    pk = e[rs.below(ne)];
            }
        }
        int d = decide(n, pk);
        return &T[c[d]];
    }
}
static void deadlock()
{
    active = false;
    sim::violation("deadlock", "no thread can run and no timer is pending");
}
static void switch_to(Th* n)
{
    Th* me = self;
    if (n == me)
    {
        me->consec++;
        return;
    }
    nswitch++;
    n->consec = 0;
    me->consec = 0;
    fold(shash, (u64)n->id + 1000);
    fwake(&n->go);
    fwait(&me->go);
}
static void schedule()
{
    Th* n = pick();
    if (!n)
        deadlock();
    switch_to(n);
}
static inline bool insim() { return active && self != nullptr; }
static bool in_rt;  // guards against recursion from the runtime itself

static void block(St st, const void* obj, i64 wake)
{
    self->st = st;
    self->obj = obj;
    self->wake = wake;
    self->timedout = false;
    self->waitseq = ++wseq;
    schedule();
}
namespace sim {
void yield()
{
    if (insim())
        schedule();
}
void busy(int64_t ns)
{
    if (!insim())
        return;
    if (ns <= 0)
        return schedule();
    block(S_SLEEP, nullptr, now_ + ns);
}
int64_t now() { return now_; }
void jump_realtime(int64_t ns)
{
    rt_off += ns;
    Cnt* c = cnt(R->fault, R->nfault, 24, "realtime_jump");
    c->n++;
    c->asked++;
    fold(lhash, (u64)ns);
}
int live_threads()
{
    int n = 0;
    for (int i = 0; i < nT; i++)
        if (T[i].st != S_FIN && T[i].st != S_FREE)
            n++;
    return n;
}
int threads_created() { return n_created; }
int unjoined_threads()
{
    int n = 0;
    for (int i = 1; i < nT; i++)
        if (!T[i].joined && !T[i].detached)
            n++;
    return n;
}
uint64_t steps() { return npoints; }
void set_step_budget(uint64_t p, uint64_t a)
{
    budget_points = npoints + p;
    budget_access = naccess + a;
}
static bool race_cfg;
void race_detection(bool on)
{
    race_cfg = on;
    race_on = on;
}
void preempt_plain(int mean)
{
    plain_mean = mean;
    plain_left = mean ? (i64)(1 + rpln.below(2 * mean)) : INT64_MAX;
}
void atomics_yield(bool on) { atom_yield = on; }
}

// ------------------------------------------------------------------------------------------------ shadow memory
// 8-byte granule -> 4 slots of 8 bytes: tid+1 (6) | write (1) | mask (8) | clock (32)
struct Slot
{
    u32 clk;
    unsigned char mask;
    unsigned char wr;
    unsigned short tid1;
};
struct Cell
{
    Slot s[4];
};
static const u64 SH_BITS = 37;  // address bits kept: program, heap (see a_init) and libraries with stacks stay apart
static Cell* SH;
static inline Cell* cell(u64 a) { return SH + ((a & ((1ull << SH_BITS) - 1)) >> 3); }

static void race(u64 a, int size, bool wr, const Slot& o, void* pc)
{
    active = false;
    char st[600];
    int k = 0;
    st[0] = 0;
    for (int d = (self->fdepth < FDEPTH ? self->fdepth : FDEPTH) - 1, c = 0; d >= 0 && c < 10; d--, c++)
        k += snprintf(st + k, sizeof(st) - k, " {%lx}", (unsigned long)self->fs[d]);
    if (!strcmp(R->cls, ""))
    {
    }
    sim::violation("data-race",
        "thread %d %s of %d bytes at %lx in {%lx} (stack%s) is not ordered with an earlier %s by thread %d; watch=%lx%s",
        self->id, wr ? "write" : "read", size, (unsigned long)a, (unsigned long)pc, st, o.wr ? "write" : "read",
        o.tid1 - 1, (unsigned long)(a & ~7ull), watch_len ? watch_buf : "");
}
static void watch_hit(u64 a, bool wr, void* pc)
{
    if (watch_len + 200 > (int)sizeof watch_buf)
        watch_len = 0;
    int k = snprintf(watch_buf + watch_len, 120, "; [t%d %c {%lx}", self->id, wr ? 'W' : 'R', (unsigned long)pc);
    for (int d = (self->fdepth < FDEPTH ? self->fdepth : FDEPTH) - 1, c = 0; d >= 0 && c < 3; d--, c++)
        k += snprintf(watch_buf + watch_len + k, 40, " {%lx}", (unsigned long)self->fs[d]);
    k += snprintf(watch_buf + watch_len + k, 8, "]");
    watch_len += k;
}
static inline void acc_granule(u64 a, unsigned mask, int size, bool wr, void* pc)
{
    Cell* c = cell(a);
    u32 myclk = self->vc[self->id];
    unsigned short me = (unsigned short)(self->id + 1);
    int freei = -1, samei = -1, oldi = -1;
    for (int i = 0; i < 4; i++)
    {
        Slot& s = c->s[i];
        if (s.tid1 == 0)
        {
            if (freei < 0)
                freei = i;
            continue;
        }
        if (__builtin_expect(s.tid1 == 0xffff, 0))
        {
            active = false;
            char st[300];
            int k = 0;
            st[0] = 0;
            for (int d = (self->fdepth < FDEPTH ? self->fdepth : FDEPTH) - 1, n = 0; d >= 0 && n < 8; d--, n++)
                k += snprintf(st + k, sizeof(st) - k, " {%lx}", (unsigned long)self->fs[d]);
            sim::violation("use-after-free", "thread %d %s freed heap memory at %lx in {%lx} (stack%s)", self->id,
                wr ? "writes" : "reads", (unsigned long)a, (unsigned long)pc, st);
        }
        if (s.tid1 == me)
        {
            if (s.clk == myclk && (s.mask & mask) == mask && s.wr >= (wr ? 1 : 0))
                return;
            if ((s.mask | mask) == mask && s.wr <= (wr ? 1 : 0))
                samei = i;  // superseded by this access
            continue;
        }
        if (self->vc[s.tid1 - 1] < s.clk)
        {
            if ((s.mask & mask) && (wr || s.wr))
                race(a, size, wr, s, pc);
        }
        else if ((s.mask | mask) == mask && wr)
            oldi = i;  // ordered before and fully overwritten
        else if (oldi < 0 && !s.wr)
            oldi = i;
    }
    int k = samei >= 0 ? samei : freei >= 0 ? freei : oldi >= 0 ? oldi : (int)(naccess & 3);
    Slot& s = c->s[k];
    s.clk = myclk;
    s.mask = (unsigned char)mask;
    s.wr = wr;
    s.tid1 = me;
}
static inline void access_(const void* p, int size, bool wr, void* pc)
{
    naccess++;
    if (__builtin_expect(!acc_on, 1))
        return;
    if (!self || !active)
        return;
    if (naccess > budget_access)
        sim::violation("no-progress", "no completion within %llu instrumented memory accesses",
            (unsigned long long)budget_access);
    u64 a = (u64)p;
    if (race_on)
    {
        u64 off = a & 7;
        if (__builtin_expect(off + size <= 8, 1))
        {
            if (rp.watch && (a & ~7ull) == rp.watch)
                watch_hit(a, wr, pc);
            acc_granule(a, ((1u << size) - 1) << off, size, wr, pc);
        }
        else
        {
            u64 e = a + size;
            for (u64 g = a & ~7ull; g < e; g += 8)
            {
                u64 lo = g < a ? a - g : 0, hi = g + 8 > e ? e - g : 8;
                if (rp.watch && g == rp.watch)
                    watch_hit(a, wr, pc);
                acc_granule(g, ((1u << hi) - 1) & ~((1u << lo) - 1), size, wr, pc);
            }
        }
    }
    if (--plain_left <= 0)
    {
        plain_left = plain_mean ? (i64)(1 + rpln.below(2 * plain_mean)) : INT64_MAX;
        schedule();
    }
}
static void shadow_clear(u64 a, u64 n)
{
    if (!SH || !acc_on)
        return;
    u64 b = a & ~7ull, e = (a + n + 7) & ~7ull;
    memset(cell(b), 0, (size_t)((e - b) / 8 * sizeof(Cell)));
}

// ------------------------------------------------------------------------------------------------ allocator
// Deterministic bump allocator with size-class free lists and a FIFO quarantine; new memory is filled with a pattern.
struct Hdr
{
    u64 size;
    u64 magic;
};
static char* A_base;
static u64 A_off, A_cap;
static const u64 MAGIC = 0x5ca1ab1e0ddba11ull, FREED = 0xdeadfeedfacef00dull;
struct FreeN
{
    Hdr h;
    FreeN* next;
};
static FreeN* fl[64];
static const u32 QN = 1 << 16;
static Hdr* Q[QN];
static u32 qh, qt;
static u64 qbytes;
static volatile int alock;
static inline void al()
{
    while (__atomic_exchange_n(&alock, 1, __ATOMIC_ACQUIRE))
        raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
static inline void au() { __atomic_store_n(&alock, 0, __ATOMIC_RELEASE); }
static void a_init()
{
    A_cap = 24ull << 30;
    void* p = mmap((void*)0x21000000000ull, A_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED)
        raw6(SYS_exit_group, 97, 0, 0, 0, 0, 0);
    A_base = (char*)p;
    A_off = 64;
}
static inline int cls_of(u64 n)
{
    // classes: multiples of 32 up to 1024 (0..31), then powers of two
    if (n <= 1024)
        return (int)((n + 31) / 32) - 1;
    int b = 64 - __builtin_clzll(n - 1);
    return 31 + (b - 10);
}
static inline u64 cls_size(int c) { return c < 32 ? (u64)(c + 1) * 32 : 1024ull << (c - 31); }
static void* a_get(u64 n, u64 align)
{
    al();
    if (!A_base)
        a_init();
    if (n == 0)
        n = 1;
    char* p;
    if (align <= 16)
    {
        int c = cls_of(n);
        if (fl[c])
        {
            FreeN* f = fl[c];
            fl[c] = f->next;
            p = (char*)f + sizeof(Hdr);
        }
        else
        {
            u64 s = cls_size(c);
            p = A_base + A_off + sizeof(Hdr);
            A_off += s + sizeof(Hdr);
            if (A_off > A_cap - (1 << 20))
                raw6(SYS_exit_group, 98, 0, 0, 0, 0, 0);
        }
    }
    else
    {
        u64 o = A_off + sizeof(Hdr);
        u64 b = ((u64)A_base + o + align - 1) / align * align;
        p = (char*)b;
        A_off = (b - (u64)A_base) + ((n + 15) & ~15ull);
    }
    A_off = (A_off + 15) & ~15ull;
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    h->size = n;
    h->magic = align <= 16 ? MAGIC : MAGIC + 1;
    au();
    return p;
}
static void a_put(void* p)
{
    Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
    if (h->magic == FREED && insim())
        sim::violation("double-free", "block %p freed twice", p);
    if (h->magic != MAGIC)
    {
        h->magic = FREED;
        return;  // over-aligned blocks are not recycled
    }
    al();
    h->magic = FREED;
    Q[qh++ & (QN - 1)] = h;
    qbytes += h->size;
    while ((qh - qt) >= QN || qbytes > (24u << 20))
    {
        Hdr* o = Q[qt++ & (QN - 1)];
        qbytes -= o->size;
        FreeN* f = (FreeN*)o;
        int c = cls_of(o->size);
        f->next = fl[c];
        fl[c] = f;
    }
    au();
}
static void a_fresh(void* p, u64 n)
{
    if (insim())
    {
        memset(p, 0xBE, n < 65536 ? n : 65536);
        shadow_clear((u64)p, n);
    }
}
static bool alloc_fault_on() { return prob_alloc > 0 || rp.on; }
extern "C" {
void* malloc(size_t n)
{
    if (insim() && !in_rt && alloc_fault_on() && prob_alloc > 0 && sim::fault("alloc_fail", prob_alloc))
    {
        errno = ENOMEM;
        return nullptr;
    }
    void* p = a_get(n, 16);
    a_fresh(p, n);
    return p;
}
void free(void* p)
{
    if (!p)
        return;
    if (active && !self)
        return;  // threads of the C library on their way out: leak
    if (insim())
    {
        Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
        if (h->magic == MAGIC)
        {
            u64 n = h->size;
            if (race_on && acc_on)
                for (u64 g = (u64)p & ~7ull; g < (u64)p + (n < 4096 ? n : 4096); g += 8)
                {
                    acc_granule(g, 0xff, 8, true, __builtin_return_address(0));
                    cell(g)->s[0].tid1 = 0xffff;  // until the block is handed out again
                }
            sync_erase_range((u64)p, n);
            memset(p, 0xDB, n < 65536 ? n : 65536);
        }
    }
    a_put(p);
}
void* calloc(size_t a, size_t b)
{
    size_t n = a * b;
    void* p = a_get(n, 16);
    memset(p, 0, n);
    if (insim())
        shadow_clear((u64)p, n);
    return p;
}
void* realloc(void* p, size_t n)
{
    if (!p)
        return malloc(n);
    Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
    u64 o = h->size;
    void* q = malloc(n);
    if (!q)
        return nullptr;
    memcpy(q, p, o < n ? o : n);
    free(p);
    return q;
}
void* memalign(size_t al_, size_t n)
{
    void* p = a_get(n, al_);
    a_fresh(p, n);
    return p;
}
void* aligned_alloc(size_t al_, size_t n) { return memalign(al_, n); }
int posix_memalign(void** o, size_t al_, size_t n)
{
    *o = memalign(al_, n);
    return 0;
}
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((char*)p - sizeof(Hdr)))->size : 0; }
}
// a freed block touched by instrumented code (mini address sanitizer, heap only)
static inline bool heap_ptr(u64 a) { return a >= (u64)A_base && a < (u64)A_base + A_off; }

// ------------------------------------------------------------------------------------------------ threads
typedef int (*pc_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
typedef int (*pj_t)(pthread_t, void**);
static pc_t real_create;
static pj_t real_join;
static int (*real_detach)(pthread_t);
static void resolve()
{
    if (real_create)
        return;
    real_create = (pc_t)dlsym(RTLD_NEXT, "pthread_create");
    real_join = (pj_t)dlsym(RTLD_NEXT, "pthread_join");
    real_detach = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
}
static void thread_finished(Th* t)
{
    t->st = S_FIN;
    for (int i = 0; i < nT; i++)
        if (T[i].st == S_JOIN && T[i].obj == t)
        {
            T[i].st = S_RUN;
            T[i].wake = INT64_MAX;
            late(&T[i]);
        }
}
static void* tramp(void* p)
{
    Th* t = (Th*)p;
    self = t;
    fwait(&t->go);
    void* r = t->fn(t->arg);
    t->ret = r;
    t->vc[t->id]++;
    thread_finished(t);
    // hand the baton over and leave; nothing of the simulation may run in this thread any more
    Th* n = pick();
    self = nullptr;
    if (!n)
        deadlock();
    nswitch++;
    n->consec = 0;
    fold(shash, (u64)n->id + 1000);
    fwake(&n->go);
    return r;
}
extern "C" int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    resolve();
    if (!insim())
        return real_create(th, at, fn, arg);
    schedule();
    if (prob_tcf > 0 && sim::fault("thread_create_fail", prob_tcf))
        return EAGAIN;
    int id = -1;
    // slots of joined threads are recycled; the clock of the slot goes on counting
    if (nT < 12)
        id = nT;
    else
        for (int i = 1; i < nT && id < 0; i++)
            if (T[i].st == S_FIN && T[i].joined)
                id = i;
    if (id < 0 && nT < MAXT)
        id = nT;
    if (id < 0)
        sim::violation("internal", "simulator: more than %d threads", MAXT);
    Th& t = T[id];
    u32 oldclk = t.vc[id];
    memset(&t, 0, sizeof t);
    n_created++;
    t.id = id;
    t.st = S_RUN;
    t.wake = INT64_MAX;
    t.fn = fn;
    t.arg = arg;
    t.prio = 1000 + rs.below(1000000);
    if (id == nT)
        nT++;
    memcpy(t.vc, self->vc, sizeof t.vc);
    t.vc[id] = oldclk + 1;
    self->vc[self->id]++;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 1 << 20);
    in_rt = true;
    int r = real_create(&t.real, &a, tramp, &t);
    in_rt = false;
    pthread_attr_destroy(&a);
    if (r)
        sim::violation("internal", "simulator: cannot create a real thread (%d)", r);
    {
        // the new stack may reuse an old thread's memory
        pthread_attr_t ga;
        void* sa;
        size_t ss;
        if (race_on && pthread_getattr_np(t.real, &ga) == 0)
        {
            pthread_attr_getstack(&ga, &sa, &ss);
            pthread_attr_destroy(&ga);
            madvise(cell((u64)sa & ~7ull), ss * 4, MADV_DONTNEED);
        }
    }
    acc_on = true;
    *th = t.real;
    late(&t);
    schedule();
    return 0;
}
static Th* by_real(pthread_t p)
{
    for (int i = nT - 1; i >= 0; i--)
        if (T[i].st != S_FREE && !T[i].joined && (i == 0 ? false : pthread_equal(T[i].real, p)))
            return &T[i];
    return nullptr;
}
extern "C" int pthread_join(pthread_t p, void** ret)
{
    resolve();
    if (!insim())
        return real_join(p, ret);
    schedule();
    Th* t = by_real(p);
    if (!t)
        return ESRCH;
    while (t->st != S_FIN)
        block(S_JOIN, t, INT64_MAX);
    vc_join(self->vc, t->vc);
    t->joined = true;
    real_join(p, nullptr);
    if (ret)
        *ret = t->ret;
    return 0;
}
extern "C" int pthread_detach(pthread_t p)
{
    resolve();
    if (!insim())
        return real_detach(p);
    Th* t = by_real(p);
    if (t)
        t->detached = true;
    return real_detach(p);
}
extern "C" int sched_yield()
{
    if (insim())
        schedule();
    return 0;
}

// ------------------------------------------------------------------------------------------------ mutexes
static void m_lock(pthread_mutex_t* m)
{
    Sync* s = sync_find(m, true);
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    while (s->owner && s->owner != self->id + 1)
    {
        block(S_MUTEX, m, INT64_MAX);
        s = sync_find(m, true);
    }
    if (s->owner == self->id + 1)
    {
        if (rec)
        {
            s->depth++;
            return;
        }
        block(S_MUTEX, m, INT64_MAX);  // self-deadlock: never woken
        s = sync_find(m, true);
    }
    s->owner = self->id + 1;
    s->depth = 1;
    hb_acquire(s);
}
static void m_unlock(pthread_mutex_t* m)
{
    Sync* s = sync_find(m, true);
    if (s->owner != self->id + 1)
    {
        sim::probe("unlock_not_owner");
    }
    if (s->depth > 1)
    {
        s->depth--;
        return;
    }
    s->owner = 0;
    s->depth = 0;
    hb_release(s);
    for (int i = 0; i < nT; i++)
        if (T[i].st == S_MUTEX && T[i].obj == m)
        {
            T[i].st = S_RUN;
            T[i].wake = INT64_MAX;
            late(&T[i]);
        }
}
typedef int (*pm_t)(pthread_mutex_t*);
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!insim())
        return 0;
    schedule();
    m_lock(m);
    return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!insim())
        return 0;
    schedule();
    Sync* s = sync_find(m, true);
    if (s->owner && !(s->owner == self->id + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP))
        return EBUSY;
    m_lock(m);
    return 0;
}
static i64 abs_to_sim(clockid_t c, const struct timespec* ts);
static int timedlock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts)
{
    schedule();
    i64 w = abs_to_sim(c, ts);
    for (;;)
    {
        Sync* s = sync_find(m, true);
        if (!s->owner)
            break;
        block(S_MUTEX, m, w);
        if (self->timedout && sync_find(m, true)->owner)
            return ETIMEDOUT;
    }
    m_lock(m);
    return 0;
}
extern "C" int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
    if (!insim())
        return 0;
    return timedlock(m, CLOCK_REALTIME, ts);
}
extern "C" int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts)
{
    if (!insim())
        return 0;
    return timedlock(m, c, ts);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!insim())
        return 0;
    m_unlock(m);
    schedule();
    return 0;
}
extern "C" int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (insim())
    {
        Sync* s = sync_find(m, false);
        if (s)
        {
            if (s->owner)
                sim::violation("mutex-destroyed-locked", "a mutex is destroyed while held by thread %d", s->owner - 1);
            s->addr = 1;
        }
    }
    return 0;
}
// reader/writer locks
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!insim())
        return 0;
    schedule();
    Sync* s;
    while ((s = sync_find(m, true))->owner)
        block(S_RW, m, INT64_MAX);
    s->readers++;
    hb_acquire(s);
    return 0;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!insim())
        return 0;
    schedule();
    Sync* s;
    while ((s = sync_find(m, true))->owner || s->readers)
        block(S_RW, m, INT64_MAX);
    s->owner = self->id + 1;
    hb_acquire(s);
    return 0;
}
extern "C" int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if (!insim())
        return 0;
    schedule();
    Sync* s = sync_find(m, true);
    if (s->owner)
        return EBUSY;
    s->readers++;
    hb_acquire(s);
    return 0;
}
extern "C" int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if (!insim())
        return 0;
    schedule();
    Sync* s = sync_find(m, true);
    if (s->owner || s->readers)
        return EBUSY;
    s->owner = self->id + 1;
    hb_acquire(s);
    return 0;
}
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!insim())
        return 0;
    Sync* s = sync_find(m, true);
    if (s->owner == self->id + 1)
        s->owner = 0;
    else if (s->readers > 0)
        s->readers--;
    hb_release(s);
    for (int i = 0; i < nT; i++)
        if (T[i].st == S_RW && T[i].obj == m)
        {
            T[i].st = S_RUN;
            T[i].wake = INT64_MAX;
        }
    schedule();
    return 0;
}

// ------------------------------------------------------------------------------------------------ condition variables
static int c_wait(pthread_cond_t* c, pthread_mutex_t* m, i64 wake)
{
    schedule();
    m_unlock(m);
    block(S_COND, c, wake);
    bool to = self->timedout;
    self->obj = nullptr;
    m_lock(m);
    return to ? ETIMEDOUT : 0;
}
static void c_wake(pthread_cond_t* c, bool all)
{
    schedule();
    int w[MAXT], n = 0;
    for (int i = 0; i < nT; i++)
        if (T[i].st == S_COND && T[i].obj == c)
            w[n++] = i;
    // FIFO order is the default
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++)
            if (T[w[j]].waitseq < T[w[i]].waitseq)
            {
                int x = w[i];
                w[i] = w[j];
                w[j] = x;
            }
    if (n && !all)
    {
        int k = n > 1 ? decide(n, rp.on ? 0 : (int)rs.below(n)) : 0;
        w[0] = w[k];
        n = 1;
    }
    for (int i = 0; i < n; i++)
    {
        T[w[i]].st = S_RUN;
        T[w[i]].wake = INT64_MAX;
        late(&T[w[i]]);
    }
    schedule();
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!insim())
        return 0;
    return c_wait(c, m, INT64_MAX);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (!insim())
        return 0;
    return c_wait(c, m, abs_to_sim(CLOCK_REALTIME, ts));
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
    if (!insim())
        return 0;
    return c_wait(c, m, abs_to_sim(k, ts));
}
extern "C" int pthread_cond_signal(pthread_cond_t* c)
{
    if (insim())
        c_wake(c, false);
    return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (insim())
        c_wake(c, true);
    return 0;
}
extern "C" int pthread_cond_destroy(pthread_cond_t* c)
{
    if (insim())
        for (int i = 0; i < nT; i++)
            if (T[i].st == S_COND && T[i].obj == c)
                sim::violation("cond-destroyed-waited", "a condition variable is destroyed while thread %d waits on it", i);
    return 0;
}
// once
extern "C" int pthread_once(pthread_once_t* o, void (*f)(void))
{
    if (!insim())
    {
        if (*o != 2)
        {
            *o = 2;
            f();
        }
        return 0;
    }
    schedule();
    for (;;)
    {
        if (*o == 2)
        {
            Sync* s = sync_find(o, true);
            hb_acquire(s);
            return 0;
        }
        if (*o == 0)
            break;
        block(S_SLEEP, o, now_ + 1000);
    }
    *o = 1;
    try
    {
        f();
    } catch (...)
    {
        *o = 0;
        throw;
    }
    *o = 2;
    hb_release(sync_find(o, true));
    return 0;
}
// static initialisers
extern "C" int __cxa_guard_acquire(u64* g)
{
    unsigned char* b = (unsigned char*)g;
    if (!insim())
        return *b ? 0 : 1;
    for (;;)
    {
        if (*b)
        {
            Sync* s = sync_find(g, false);
            if (s)
                hb_acquire(s);
            return 0;
        }
        if (!b[1])
            break;
        block(S_SLEEP, g, now_ + 1000);
    }
    b[1] = 1;
    return 1;
}
extern "C" void __cxa_guard_release(u64* g)
{
    unsigned char* b = (unsigned char*)g;
    b[0] = 1;
    b[1] = 0;
    if (insim())
        hb_release(sync_find(g, true));
}
extern "C" void __cxa_guard_abort(u64* g) { ((unsigned char*)g)[1] = 0; }

// ------------------------------------------------------------------------------------------------ clocks
static const i64 RT0 = 1700000000ll * 1000000000ll, MONO0 = 5000ll * 1000000000ll;
static i64 clk_now(clockid_t c)
{
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)
        return RT0 + now_ + rt_off;
    return MONO0 + now_;
}
static i64 abs_to_sim(clockid_t c, const struct timespec* ts)
{
    i64 t = (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec;
    i64 d = t - clk_now(c);
    return now_ + (d > 0 ? d : 0);
}
extern "C" int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (!insim())
    {
        raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
        return 0;
    }
    schedule();
    i64 t = clk_now(c);
    ts->tv_sec = t / 1000000000ll;
    ts->tv_nsec = t % 1000000000ll;
    return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*)
{
    if (!insim())
    {
        raw6(SYS_gettimeofday, (long)tv, 0, 0, 0, 0, 0);
        return 0;
    }
    schedule();
    i64 t = clk_now(CLOCK_REALTIME);
    tv->tv_sec = t / 1000000000ll;
    tv->tv_usec = (t % 1000000000ll) / 1000;
    return 0;
}
extern "C" time_t time(time_t* o)
{
    time_t t;
    if (!insim())
    {
        struct timespec ts;
        raw6(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts, 0, 0, 0, 0);
        t = ts.tv_sec;
    }
    else
        t = clk_now(CLOCK_REALTIME) / 1000000000ll;
    if (o)
        *o = t;
    return t;
}
extern "C" clock_t clock() { return (clock_t)(now_ / 1000); }
static double prob_eintr = 0;
extern "C" int nanosleep(const struct timespec* d, struct timespec* rem)
{
    if (!insim())
        return 0;
    i64 n = (i64)d->tv_sec * 1000000000ll + d->tv_nsec;
    block(S_SLEEP, nullptr, now_ + (n > 0 ? n : 0));
    if (rem)
        rem->tv_sec = rem->tv_nsec = 0;
    return 0;
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const struct timespec* d, struct timespec* rem)
{
    if (!insim())
        return 0;
    if (flags & TIMER_ABSTIME)
        block(S_SLEEP, nullptr, abs_to_sim(c, d));
    else
    {
        i64 n = (i64)d->tv_sec * 1000000000ll + d->tv_nsec;
        block(S_SLEEP, nullptr, now_ + (n > 0 ? n : 0));
    }
    return 0;
}
extern "C" int usleep(useconds_t u)
{
    if (insim())
        block(S_SLEEP, nullptr, now_ + (i64)u * 1000);
    return 0;
}
extern "C" unsigned sleep(unsigned s)
{
    if (insim())
        block(S_SLEEP, nullptr, now_ + (i64)s * 1000000000ll);
    return 0;
}

// ------------------------------------------------------------------------------------------------ futex (futures, atomics::wait)
extern "C" long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
         f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && insim())
    {
        int op = (int)b & 127 & ~FUTEX_CLOCK_REALTIME;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            schedule();
            if (*(volatile int*)a != (int)c)
            {
                errno = EAGAIN;
                return -1;
            }
            i64 w = INT64_MAX;
            if (d)
            {
                const struct timespec* ts = (const struct timespec*)d;
                if (op == FUTEX_WAIT)
                    w = now_ + (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec;
                else
                    w = abs_to_sim((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            }
            block(S_FUTEX, (void*)a, w);
            if (self->timedout)
            {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            long k = 0;
            for (int i = 0; i < nT && k < c; i++)
                if (T[i].st == S_FUTEX && T[i].obj == (void*)a)
                {
                    T[i].st = S_RUN;
                    T[i].wake = INT64_MAX;
                    k++;
                }
            schedule();
            return k;
        }
    }
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096)
    {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// ------------------------------------------------------------------------------------------------ randomness
static u64 rd_count;
unsigned int std::random_device::_M_getval()
{
    if (prob_entropy > 0 && sim::fault("entropy_fail", prob_entropy))
        throw std::runtime_error("random_device could not be read");
    return (unsigned)mix(seed_ ^ 0xdecafbad ^ mix(rd_count++));
}

// ------------------------------------------------------------------------------------------------ instrumentation ABI
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc)
{
    if (acc_on && self)
    {
        if (self->fdepth < FDEPTH && self->fdepth >= 0)
            self->fs[self->fdepth] = pc;
        self->fdepth++;
    }
}
void __tsan_func_exit()
{
    if (acc_on && self && self->fdepth > 0)
        self->fdepth--;
}
#define RW(n)                                                                    \
    void __tsan_read##n(void* p) { access_(p, n, false, PC); }                   \
    void __tsan_write##n(void* p) { access_(p, n, true, PC); }                   \
    void __tsan_unaligned_read##n(void* p) { access_(p, n, false, PC); }         \
    void __tsan_unaligned_write##n(void* p) { access_(p, n, true, PC); }         \
    void __tsan_volatile_read##n(void* p) { access_(p, n, false, PC); }          \
    void __tsan_volatile_write##n(void* p) { access_(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n)
{
    if (n)
        access_(p, (int)n, false, PC);
}
void __tsan_write_range(void* p, unsigned long n)
{
    if (n)
        access_(p, (int)n, true, PC);
}
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v)
        access_(p, 8, true, PC);
}
void __tsan_vptr_read(void** p) { access_(p, 8, false, PC); }
void __real_dummy();
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (acc_on && n)
    {
        access_(s, (int)n, false, PC);
        access_(d, (int)n, true, PC);
    }
    return memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (acc_on && n)
    {
        access_(s, (int)n, false, PC);
        access_(d, (int)n, true, PC);
    }
    return memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    if (acc_on && n)
        access_(d, (int)n, true, PC);
    return memset(d, c, n);
}
}
// atomics: memory orders relaxed 0, consume 1, acquire 2, release 3, acq_rel 4, seq_cst 5
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo >= 4; }
static inline bool is_rel(int mo) { return mo >= 3; }
static u64 n_atomic;
static inline void at_pre(const volatile void* p)
{
    naccess++;
    if (insim() && acc_on)
    {
        n_atomic++;
        if (naccess > budget_access)
            sim::violation("no-progress", "no completion within %llu instrumented memory accesses",
                (unsigned long long)budget_access);
        if (atom_yield)
            schedule();
    }
}
static inline void at_load(const volatile void* p, int mo)
{
    if (insim() && acc_on && is_acq(mo))
    {
        Sync* s = sync_find((const void*)p, false);
        if (s)
            hb_acquire(s);
    }
}
static inline void at_store(const volatile void* p, int mo)
{
    if (insim() && acc_on)
    {
        if (is_rel(mo))
            hb_release_store(sync_find((const void*)p, true));
        else
        {
            Sync* s = sync_find((const void*)p, false);
            if (s)
                memset(s->vc, 0, sizeof s->vc);
        }
    }
}
static inline void at_rmw(const volatile void* p, int mo)
{
    if (insim() && acc_on)
    {
        Sync* s = sync_find((const void*)p, true);
        if (is_acq(mo))
            hb_acquire(s);
        if (is_rel(mo))
            hb_release(s);
    }
}
#define AT(bits, T_)                                                                                                  \
    extern "C" T_ __tsan_atomic##bits##_load(const volatile T_* p, int mo)                                            \
    {                                                                                                                 \
        at_pre(p);                                                                                                    \
        T_ v = *p;                                                                                                    \
        at_load(p, mo);                                                                                               \
        return v;                                                                                                     \
    }                                                                                                                 \
    extern "C" void __tsan_atomic##bits##_store(volatile T_* p, T_ v, int mo)                                         \
    {                                                                                                                 \
        at_pre(p);                                                                                                    \
        at_store(p, mo);                                                                                              \
        *p = v;                                                                                                       \
    }                                                                                                                 \
    extern "C" T_ __tsan_atomic##bits##_exchange(volatile T_* p, T_ v, int mo)                                        \
    {                                                                                                                 \
        at_pre(p);                                                                                                    \
        at_rmw(p, mo);                                                                                                \
        T_ o = *p;                                                                                                    \
        *p = v;                                                                                                       \
        return o;                                                                                                     \
    }                                                                                                                 \
    AT_OP(bits, T_, add, o + v)                                                                                       \
    AT_OP(bits, T_, sub, o - v)                                                                                       \
    AT_OP(bits, T_, and, o& v)                                                                                        \
    AT_OP(bits, T_, or, o | v)                                                                                        \
    AT_OP(bits, T_, xor, o ^ v)                                                                                       \
    AT_OP(bits, T_, nand, (T_) ~(o & v))                                                                              \
    AT_CAS(bits, T_, strong)                                                                                          \
    AT_CAS(bits, T_, weak)                                                                                            \
    extern "C" T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_* p, T_ e, T_ v, int mo, int fmo)             \
    {                                                                                                                 \
        at_pre(p);                                                                                                    \
        T_ o = *p;                                                                                                    \
        if (o == e)                                                                                                   \
        {                                                                                                             \
            at_rmw(p, mo);                                                                                            \
            *p = v;                                                                                                   \
        }                                                                                                             \
        else                                                                                                          \
            at_load(p, fmo);                                                                                          \
        return o;                                                                                                     \
    }
#define AT_OP(bits, T_, name, expr)                                                  \
    extern "C" T_ __tsan_atomic##bits##_fetch_##name(volatile T_* p, T_ v, int mo)   \
    {                                                                                \
        at_pre(p);                                                                   \
        at_rmw(p, mo);                                                               \
        T_ o = *p;                                                                   \
        *p = (T_)(expr);                                                             \
        return o;                                                                    \
    }
#define AT_CAS(bits, T_, k)                                                                                         \
    extern "C" int __tsan_atomic##bits##_compare_exchange_##k(volatile T_* p, T_* e, T_ v, int mo, int fmo)         \
    {                                                                                                               \
        at_pre(p);                                                                                                  \
        T_ o = *p;                                                                                                  \
        if (o == *e)                                                                                                \
        {                                                                                                           \
            at_rmw(p, mo);                                                                                          \
            *p = v;                                                                                                 \
            return 1;                                                                                               \
        }                                                                                                           \
        at_load(p, fmo);                                                                                            \
        *e = o;                                                                                                     \
        return 0;                                                                                                   \
    }
AT(8, unsigned char)
AT(16, unsigned short)
AT(32, unsigned int)
AT(64, unsigned long)
static u32 fence_vc[MAXT];
extern "C" void __tsan_atomic_thread_fence(int mo)
{
    if (insim() && acc_on)
    {
        schedule();
        // conservative (may hide, never invents a race): a fence synchronises with every other fence
        if (is_acq(mo))
            vc_join(self->vc, fence_vc);
        if (is_rel(mo))
        {
            vc_join(fence_vc, self->vc);
            self->vc[self->id]++;
        }
    }
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------------------------------ failures
static void on_signal(int sig, siginfo_t* si, void*)
{
    active = false;
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "SIGILL";
    sim::violation("crash", "%s in thread %d (address %p)", n, self ? self->id : -1, si->si_addr);
}
static void on_terminate()
{
    active = false;
    const char* w = "";
    const char* ty = "no active exception";
    std::type_info* t = abi::__cxa_current_exception_type();
    if (t)
    {
        ty = t->name();
        try
        {
            throw;
        } catch (std::exception& e)
        {
            w = e.what();
        } catch (...)
        {
        }
    }
    sim::violation("terminate", "std::terminate called in thread %d (%s: %s)", self ? self->id : -1, ty, w);
}
static void on_exit_handler()
{
    if (active)
    {
        active = false;
        sim::violation("unexpected-exit", "the code under test ended the process");
    }
}

// ------------------------------------------------------------------------------------------------ OpenMP (optional seam)
struct Team
{
    int n;
    int arrived, gen;
    void (*fn)(void*);
    void* data;
    u32 vc[MAXT];
    long ws_next, ws_end, ws_incr, ws_chunk;
    int ws_init, ws_done;
    int single_gen[MAXT], single_cur;
};
struct OmpArg
{
    Team* t;
    int num;
};
static int omp_n = 4;
static void* omp_tramp(void* p)
{
    OmpArg* a = (OmpArg*)p;
    self->team = a->t;
    self->omp_num = a->num;
    a->t->fn(a->t->data);
    return nullptr;
}
static int omp_dyn_threads_cap = 0;
namespace sim {
void omp_fewer_threads(bool on) { omp_dyn_threads_cap = on; }
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
{
    if (!insim())
    {
        fn(data);
        return;
    }
    if (n == 0)
        n = omp_n;
    if (n > 8)
        n = 8;
    if (self->team)
        n = 1;  // nested parallelism is off by default
    // "the runtime may deliver fewer threads than asked for"
    if (n > 1 && sim::fault("omp_fewer_threads", omp_dyn_threads_cap ? 0.3 : 0.0))
        n = 1 + (unsigned)(mix(npoints ^ seed_) % n);
    Team t;
    memset(&t, 0, sizeof t);
    t.n = n;
    t.fn = fn;
    t.data = data;
    OmpArg args[MAXT];
    pthread_t th[MAXT];
    sim::probe("omp_parallel_regions");
    double sv = prob_tcf;
    prob_tcf = 0;
    for (unsigned i = 1; i < n; i++)
    {
        args[i].t = &t;
        args[i].num = i;
        pthread_create(&th[i], nullptr, omp_tramp, &args[i]);
    }
    prob_tcf = sv;
    void* ot = self->team;
    int on = self->omp_num;
    self->team = &t;
    self->omp_num = 0;
    fn(data);
    self->team = ot;
    self->omp_num = on;
    for (unsigned i = 1; i < n; i++)
        pthread_join(th[i], nullptr);
}
int omp_get_num_threads() { return insim() && self->team ? ((Team*)self->team)->n : 1; }
int omp_get_thread_num() { return insim() && self->team ? self->omp_num : 0; }
int omp_get_max_threads() { return omp_n; }
void omp_set_num_threads(int n) { omp_n = n < 1 ? 1 : n; }
int omp_in_parallel() { return insim() && self->team && ((Team*)self->team)->n > 1; }
int omp_get_num_procs() { return 8; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
double omp_get_wtime() { return (MONO0 + now_) * 1e-9; }
static pthread_mutex_t omp_crit;
void GOMP_critical_start()
{
    if (insim())
        pthread_mutex_lock(&omp_crit);
}
void GOMP_critical_end()
{
    if (insim())
        pthread_mutex_unlock(&omp_crit);
}
void GOMP_critical_name_start(void** p)
{
    if (insim())
        pthread_mutex_lock((pthread_mutex_t*)p == nullptr ? &omp_crit : &omp_crit);
}
void GOMP_critical_name_end(void** p)
{
    if (insim())
        pthread_mutex_unlock(&omp_crit);
}
void GOMP_atomic_start() { GOMP_critical_start(); }
void GOMP_atomic_end() { GOMP_critical_end(); }
void GOMP_barrier()
{
    if (!insim() || !self->team)
        return;
    Team* t = (Team*)self->team;
    schedule();
    vc_join(t->vc, self->vc);
    self->vc[self->id]++;
    int g = t->gen;
    if (++t->arrived == t->n)
    {
        t->arrived = 0;
        t->gen++;
        t->ws_init = 0;
        for (int i = 0; i < nT; i++)
            if (T[i].st == S_BARRIER && T[i].obj == t)
                T[i].st = S_RUN;
        schedule();
    }
    else
        while (t->gen == g)
            block(S_BARRIER, t, INT64_MAX);
    vc_join(self->vc, t->vc);
}
bool GOMP_single_start()
{
    if (!insim() || !self->team)
        return true;
    Team* t = (Team*)self->team;
    int k = t->single_gen[self->omp_num]++;
    if (k == t->single_cur)
    {
        t->single_cur++;
        return true;
    }
    return false;
}
// dynamically scheduled loops
static bool ws_next(Team* t, long* is, long* ie)
{
    schedule();
    if (t->ws_next >= t->ws_end)
        return false;
    long b = t->ws_next, e = b + t->ws_chunk * t->ws_incr;
    if (e > t->ws_end)
        e = t->ws_end;
    t->ws_next = e;
    *is = b;
    *ie = e;
    return true;
}
bool GOMP_loop_dynamic_next(long* is, long* ie) { return ws_next((Team*)self->team, is, ie); }
bool GOMP_loop_nonmonotonic_dynamic_next(long* is, long* ie) { return GOMP_loop_dynamic_next(is, ie); }
bool GOMP_loop_guided_next(long* is, long* ie) { return GOMP_loop_dynamic_next(is, ie); }
bool GOMP_loop_nonmonotonic_guided_next(long* is, long* ie) { return GOMP_loop_dynamic_next(is, ie); }
bool GOMP_loop_dynamic_start(long s, long e, long inc, long chunk, long* is, long* ie)
{
    static Team single;
    Team* t = insim() && self->team ? (Team*)self->team : nullptr;
    if (!t)
    {
        single.n = 1;
        t = &single;
        t->ws_init = 0;
        if (insim())
            self->team = t;
    }
    if (!t->ws_init)
    {
        t->ws_init = 1;
        t->ws_next = s;
        t->ws_end = e;
        t->ws_incr = inc;
        t->ws_chunk = chunk < 1 ? 1 : chunk;
    }
    return ws_next(t, is, ie);
}
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long* is, long* ie)
{
    return GOMP_loop_dynamic_start(s, e, i, c, is, ie);
}
bool GOMP_loop_guided_start(long s, long e, long i, long c, long* is, long* ie)
{
    return GOMP_loop_dynamic_start(s, e, i, c, is, ie);
}
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long* is, long* ie)
{
    return GOMP_loop_dynamic_start(s, e, i, c, is, ie);
}
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_parallel_loop_dynamic(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f)
{
    struct X
    {
        void (*fn)(void*);
        void* d;
    };
    // the outlined body calls GOMP_loop_*_next: the work share must exist before it starts
    Team* old = insim() ? (Team*)self->team : nullptr;
    (void)old;
    static long S, E, I, C;
    static void (*F)(void*);
    static void* D;
    S = s;
    E = e;
    I = i;
    C = c;
    F = fn;
    D = d;
    GOMP_parallel(
        [](void*) {
            Team* t = (Team*)self->team;
            if (!t->ws_init)
            {
                t->ws_init = 1;
                t->ws_next = S;
                t->ws_end = E;
                t->ws_incr = I;
                t->ws_chunk = C < 1 ? 1 : C;
            }
            F(D);
        },
        nullptr, n, f);
}
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f)
{
    GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, c, f);
}
void GOMP_parallel_loop_guided(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f)
{
    GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, c, f);
}
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f)
{
    GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, c, f);
}
}

// ------------------------------------------------------------------------------------------------ file faults
static double p_open, p_rerr, p_short, p_trunc;
static int io_fd_min = 3;
static bool io_on;
static char io_prefix[256];
static bool (*io_torn)(const char*, i64);
static struct
{
    bool tracked;
    i64 limit;
    i64 pos;
} fdi[1024];
namespace sim {
void io_faults(const char* prefix, double po, double pe, double ps, double pt)
{
    snprintf(io_prefix, sizeof io_prefix, "%s", prefix);
    io_on = true;
    p_open = po;
    p_rerr = pe;
    p_short = ps;
    p_trunc = pt;
}
}
namespace sim {
void io_tear_filter(bool (*f)(const char*, int64_t)) { io_torn = f; }
}
// where the contents end: any position the workload's filter admits (-1: none found, no truncation)
static i64 tear_at(const char* path, int fd)
{
    off_t e = (off_t)raw6(SYS_lseek, fd, 0, SEEK_END, 0, 0, 0);
    raw6(SYS_lseek, fd, 0, SEEK_SET, 0, 0, 0);
    if (e <= 0)
        return 0;
    i64 at = sim::P("io.truncate_at", 0, 1 << 30) % e;
    if (!io_torn)
        return at;
    for (i64 i = 0; i < e; i++)
        if (io_torn(path, (at + i) % e))
            return (at + i) % e;
    return INT64_MAX;
}
static bool io_match(const char* p) { return io_on && insim() && io_prefix[0] && !strncmp(p, io_prefix, strlen(io_prefix)); }
static int do_open(const char* path, int flags, int mode)
{
    bool m = io_match(path);
    if (m && sim::fault("io_open_fail", p_open))
    {
        errno = EMFILE;
        return -1;
    }
    long r = raw6(SYS_openat, AT_FDCWD, (long)path, flags, mode, 0, 0);
    if (r < 0)
    {
        errno = (int)-r;
        return -1;
    }
    if (r < 1024)
    {
        fdi[r].tracked = m;
        fdi[r].limit = INT64_MAX;
        fdi[r].pos = 0;
        if (m && sim::fault("io_truncate", p_trunc))
            fdi[r].limit = tear_at(path, (int)r);
    }
    return (int)r;
}
static ssize_t do_read(int fd, void* b, size_t n)
{
    if (fd >= 0 && fd < 1024 && fdi[fd].tracked && insim())
    {
        if (sim::fault("io_read_err", p_rerr))
        {
            errno = EIO;
            return -1;
        }
        if (n > 1 && sim::fault("io_short_read", p_short))
            n = 1 + (size_t)(sim::P("io.short_len", 0, 1 << 30)) % (n < 400 ? n - 1 : 400);
        i64 left = fdi[fd].limit - fdi[fd].pos;
        if (left < 0)
            left = 0;
        if ((i64)n > left)
            n = (size_t)left;
        if (n == 0)
            return 0;
    }
    long r = raw6(SYS_read, fd, (long)b, n, 0, 0, 0);
    if (r < 0)
    {
        errno = (int)-r;
        return -1;
    }
    if (fd >= 0 && fd < 1024)
        fdi[fd].pos += r;
    return r;
}
extern "C" {
ssize_t read(int fd, void* b, size_t n) { return do_read(fd, b, n); }
int open(const char* p, int fl, ...)
{
    int mode = 0;
    if (fl & (O_CREAT | O_TMPFILE))
    {
        va_list ap;
        va_start(ap, fl);
        mode = va_arg(ap, int);
        va_end(ap);
    }
    return do_open(p, fl, mode);
}
int open64(const char* p, int fl, ...)
{
    int mode = 0;
    if (fl & (O_CREAT | O_TMPFILE))
    {
        va_list ap;
        va_start(ap, fl);
        mode = va_arg(ap, int);
        va_end(ap);
    }
    return do_open(p, fl, mode);
}
// libstdc++'s file buffers open through fopen and then read() the descriptor
FILE* fopen64(const char* p, const char* mode)
{
    static FILE* (*real)(const char*, const char*);
    if (!real)
        real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
    bool m = io_match(p);
    if (m && sim::fault("io_open_fail", p_open))
    {
        errno = EMFILE;
        return nullptr;
    }
    FILE* f = real(p, mode);
    if (f)
    {
        int r = fileno(f);
        if (r >= 0 && r < 1024)
        {
            fdi[r].tracked = m;
            fdi[r].limit = INT64_MAX;
            fdi[r].pos = 0;
            if (m && sim::fault("io_truncate", p_trunc))
                fdi[r].limit = tear_at(p, r);
        }
    }
    return f;
}
FILE* fopen(const char* p, const char* mode) { return fopen64(p, mode); }
}

// ------------------------------------------------------------------------------------------------ one run
static void run_body(const char* scenario)
{
    // strategy of this run (swarm): drawn as parameters, so that a replay file pins them
    strat = (int)sim::P("sim.strategy", 0, 3);
    static const double sw[] = {0.02, 0.1, 0.3, 0.7, 1.0};
    p_switch = sw[sim::P("sim.switch", 0, 4)];
    static const int sl[] = {10, 60, 300, 1500};
    stall_len = sl[sim::P("sim.stall_len", 0, 3)];
    p_stall = 0;
    p_late = 0;
    if (strat == 2)
        p_stall = 0.02;
    if (strat == 3)
        p_late = 0.5;
    n_pct = (int)sim::P("sim.pct_points", 0, 5);
    static const int pl[] = {100, 500, 2500, 10000};
    int len = pl[sim::P("sim.pct_len", 0, 3)];
    for (int i = 0; i < n_pct; i++)
        pct_pts[i] = 1 + rs.below(len);
    static const i64 tk[] = {0, 200, 3000, 50000};
    tick_max = tk[sim::P("sim.tick", 0, 3)];
    sim_scenario(scenario);
}
static void child_main(const char* scenario, u64 seed)
{
    seed_ = seed;
    rs.s = mix(seed ^ 0xa11ce);
    rt_.s = mix(seed ^ 0xb0b);
    rpln.s = mix(seed ^ 0xcafe);
    memset(&T[0], 0, sizeof(Th));
    T[0].st = S_RUN;
    T[0].wake = INT64_MAX;
    T[0].vc[0] = 1;
    T[0].prio = 1000 + rs.below(1000000);
    T[0].real = pthread_self();
    nT = 1;
    self = &T[0];
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    static char alt[65536];
    stack_t ss;
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    int sg[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL};
    for (int s : sg)
        sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    active = true;
    try
    {
        run_body(scenario);
    } catch (std::exception& e)
    {
        sim::violation("uncaught-exception", "exception reached the harness: %s", e.what());
    } catch (...)
    {
        sim::violation("uncaught-exception", "unknown exception reached the harness");
    }
    active = false;
    R->done = 1;
    child_exit();
}

// fork, run, wait. Returns 0 ok, 1 violation, 2 infrastructure trouble (killed by the wall-clock guard).
static int wall_limit_s = 120;
static int run_once(const char* scenario, u64 seed)
{
    // header only: the arrays are delimited by their counters
    size_t hdr = (char*)&R->dev[0] - (char*)R;
    memset(R, 0, hdr);
    pid_t pid = fork();
    if (pid == 0)
    {
        if (!verbose_)
        {
            int dn = (int)raw6(SYS_openat, AT_FDCWD, (long)"/dev/null", O_WRONLY, 0, 0, 0);
            dup2(dn, 1);
            dup2(dn, 2);
        }
        alarm(wall_limit_s);
        child_main(scenario, seed);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    {
    }
    if (R->viol)
        return strcmp(R->cls, "internal") ? 1 : 2;
    if (R->done)
        return 0;
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL))
    {
        snprintf(R->cls, sizeof R->cls, "wall-clock");
        snprintf(R->msg, sizeof R->msg, "run exceeded %d s of real time or was killed", wall_limit_s);
        return 2;
    }
    R->viol = 1;
    snprintf(R->cls, sizeof R->cls, "unexpected-exit");
    snprintf(R->msg, sizeof R->msg, "the process ended (status 0x%x) before the run was over", st);
    return 1;
}

// ------------------------------------------------------------------------------------------------ replay files
static void jesc(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; s++)
    {
        if (*s == '"' || *s == '\\')
            fputc('\\', f), fputc(*s, f);
        else if ((unsigned char)*s < 32)
            fprintf(f, "\\u%04x", *s);
        else
            fputc(*s, f);
    }
    fputc('"', f);
}
// plain text: one item per line, easy to read and to edit
static void save_replay(const char* path, const char* scenario, u64 seed, const Replay& r, const char* cls)
{
    FILE* f = fopen(path, "w");
    if (!f)
        return;
    fprintf(f, "detsim-replay 1\nscenario %s\nseed %llu\nclass %s\n", scenario, (unsigned long long)seed, cls);
    fprintf(f, "loghash %016llx schedhash %016llx\n", (unsigned long long)R->log_hash, (unsigned long long)R->sched_hash);
    for (int i = 0; i < r.npar; i++)
        fprintf(f, "param %s %lld\n", r.par[i].name, (long long)r.par[i].v);
    for (int i = 0; i < r.nfired; i++)
        fprintf(f, "fault %s %u\n", r.fired[i].kind, r.fired[i].ord);
    for (int i = 0; i < r.ndev; i++)
        fprintf(f, "sched %u %u\n", r.dev[i].ord, r.dev[i].choice);
    fprintf(f, "end\n");
    fclose(f);
}
static bool load_replay(const char* path, char* scenario, u64* seed, char* cls, u64* lh, u64* sh)
{
    FILE* f = fopen(path, "r");
    if (!f)
        return false;
    static Dev dv[MAXDEV];
    static Fired fd[MAXFIRED];
    static Par pr[MAXPAR];
    rp.dev = dv;
    rp.fired = fd;
    rp.par = pr;
    rp.ndev = rp.nfired = rp.npar = 0;
    rp.on = true;
    char line[512];
    while (fgets(line, sizeof line, f))
    {
        unsigned a, b;
        long long v;
        unsigned long long u, w;
        char nm[64];
        if (line[0] == '#')
            continue;
        if (!strcmp(line, "mode seed\n"))
            rp.on = false;
        else if (sscanf(line, "scenario %63s", nm) == 1)
            strcpy(scenario, nm);
        else if (sscanf(line, "seed %llu", &u) == 1)
            *seed = u;
        else if (sscanf(line, "class %63s", nm) == 1)
            strcpy(cls, nm);
        else if (sscanf(line, "loghash %llx schedhash %llx", &u, &w) == 2)
            *lh = u, *sh = w;
        else if (sscanf(line, "param %39s %lld", nm, &v) == 2 && rp.npar < MAXPAR)
        {
            strncpy(pr[rp.npar].name, nm, 39);
            pr[rp.npar].name[39] = 0;
            pr[rp.npar++].v = v;
        }
        else if (sscanf(line, "fault %19s %u", nm, &a) == 2 && rp.nfired < MAXFIRED)
        {
            strncpy(fd[rp.nfired].kind, nm, 19);
            fd[rp.nfired].kind[19] = 0;
            fd[rp.nfired++].ord = a;
        }
        else if (sscanf(line, "sched %u %u", &a, &b) == 2 && rp.ndev < MAXDEV)
        {
            dv[rp.ndev].ord = a;
            dv[rp.ndev++].choice = b;
        }
    }
    fclose(f);
    return true;
}

// ------------------------------------------------------------------------------------------------ minimisation
template <class E>
static E* dup_arr(const E* a, int n)
{
    E* r = (E*)malloc(sizeof(E) * (n + 1));
    memcpy(r, a, sizeof(E) * n);
    return r;
}
static double wall()
{
    struct timespec ts;
    raw6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
static int shrink_runs;
static bool still(const char* scenario, u64 seed, const char* cls)
{
    shrink_runs++;
    int r = run_once(scenario, seed);
    return r == 1 && !strcmp(R->cls, cls);
}
template <class E>
static void ddmin(E*& a, int& n, const char* scenario, u64 seed, const char* cls, double tend)
{
    int chunk = n;
    // first try: nothing at all
    while (chunk >= 1 && wall() < tend)
    {
        bool any = false;
        for (int i = 0; i < n && wall() < tend;)
        {
            int k = chunk < n - i ? chunk : n - i;
            E* sv = dup_arr(a, n);
            int sn = n;
            memmove(a + i, a + i + k, sizeof(E) * (n - i - k));
            n -= k;
            if (still(scenario, seed, cls))
            {
                any = true;
                free(sv);
            }
            else
            {
                memcpy(a, sv, sizeof(E) * sn);
                n = sn;
                free(sv);
                i += k;
            }
        }
        if (chunk == 1 && !any)
            break;
        if (chunk > 1)
            chunk = (chunk + 1) / 2;
        else if (!any)
            break;
    }
}
// R holds a violation of (scenario, seed) found in search mode: turn it into a minimal replay
static bool minimise(const char* scenario, u64 seed, const char* path, double limit_s)
{
    char cls[64];
    strcpy(cls, R->cls);
    rp.on = true;
    rp.ndev = R->ndev;
    rp.dev = dup_arr(R->dev, R->ndev);
    rp.nfired = R->nfired;
    rp.fired = dup_arr(R->fired, R->nfired);
    rp.npar = R->npar;
    rp.par = dup_arr(R->par, R->npar);
    double tend = wall() + limit_s;
    if (!still(scenario, seed, cls))
    {
        rp.on = false;
        return false;
    }
    ddmin(rp.fired, rp.nfired, scenario, seed, cls, tend);
    // parameters towards their lower bound
    for (int i = 0; i < rp.npar && wall() < tend; i++)
    {
        if (!strncmp(rp.par[i].name, "sim.", 4))
            continue;
        i64 o = rp.par[i].v;
        if (o == rp.par[i].lo)
            continue;
        rp.par[i].v = rp.par[i].lo;
        if (!still(scenario, seed, cls))
        {
            rp.par[i].v = o;
            i64 mid = rp.par[i].lo + (o - rp.par[i].lo) / 2;
            if (mid != o && mid != rp.par[i].lo)
            {
                rp.par[i].v = mid;
                if (!still(scenario, seed, cls))
                    rp.par[i].v = o;
            }
        }
    }
    ddmin(rp.dev, rp.ndev, scenario, seed, cls, tend);
    ddmin(rp.fired, rp.nfired, scenario, seed, cls, tend);
    // final: twice, identical hashes
    bool ok = still(scenario, seed, cls);
    u64 h1 = R->log_hash, s1 = R->sched_hash;
    ok = ok && still(scenario, seed, cls) && R->log_hash == h1 && R->sched_hash == s1;
    if (ok)
        save_replay(path, scenario, seed, rp, cls);
    if (ok && !strcmp(cls, "data-race"))
    {
        // name both sides: watch the racing address
        char* w = strstr(R->msg, "watch=");
        if (w)
        {
            rp.watch = strtoull(w + 6, nullptr, 16);
            Result* keep = (Result*)malloc(sizeof(Result));
            memcpy(keep, R, (char*)&R->dev[0] - (char*)R);
            if (!still(scenario, seed, cls))
                memcpy(R, keep, (char*)&R->dev[0] - (char*)R);
            rp.watch = 0;
            free(keep);
        }
    }
    return ok;
}

// ------------------------------------------------------------------------------------------------ main
static void print_result(FILE* f, int rc, u64 seed, const char* scenario)
{
    fprintf(f, "{\"rc\":%d,\"scenario\":\"%s\",\"seed\":%llu,\"class\":", rc, scenario, (unsigned long long)seed);
    jesc(f, R->cls);
    fprintf(f, ",\"msg\":");
    jesc(f, R->msg);
    fprintf(f, ",\"notes\":");
    jesc(f, R->notes);
    fprintf(f, ",\"points\":%llu,\"decisions\":%llu,\"switches\":%llu,\"accesses\":%llu,\"sched_hash\":\"%016llx\",\"log_hash\":\"%016llx\",\"sim_s\":%.9f,\"threads\":%d",
        (unsigned long long)R->points, (unsigned long long)R->decisions, (unsigned long long)R->switches,
        (unsigned long long)R->accesses, (unsigned long long)R->sched_hash, (unsigned long long)R->log_hash,
        R->simtime * 1e-9, R->threads);
    fprintf(f, ",\"faults\":{");
    for (int i = 0; i < R->nfault; i++)
        fprintf(f, "%s\"%s\":[%llu,%llu]", i ? "," : "", R->fault[i].name, (unsigned long long)R->fault[i].n,
            (unsigned long long)R->fault[i].asked);
    fprintf(f, "},\"probes\":{");
    for (int i = 0; i < R->nprobe; i++)
        fprintf(f, "%s\"%s\":%llu", i ? "," : "", R->probe[i].name, (unsigned long long)R->probe[i].n);
    fprintf(f, "},\"params\":{");
    int k = 0;
    for (int i = 0; i < R->npar && i < 80; i++)
    {
        bool dup = false;
        for (int j = 0; j < i; j++)
            if (!strcmp(R->par[j].name, R->par[i].name))
                dup = true;
        if (!dup)
            fprintf(f, "%s\"%s\":%lld", k++ ? "," : "", R->par[i].name, (long long)R->par[i].v);
    }
    fprintf(f, "},\"ndev\":%d,\"nfired\":%d}\n", R->ndev, R->nfired);
    fflush(f);
}

struct Agg
{
    u64 runs, viol, infra, points, decisions, switches, accesses, det_checked, det_bad;
    double sim_s;
    int nfault;
    Cnt fault[24];
    int nprobe;
    Cnt probe[MAXCNT];
    u64 probe_runs[MAXCNT];
};

int main(int argc, char** argv)
{
    // fixed addresses: re-execute without address-space randomisation
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("DETSIM_NOEXEC"))
    {
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1)
        {
            setenv("DETSIM_NOEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    resolve();
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    SY = (Sync*)mmap(nullptr, sizeof(Sync) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    SH = (Cell*)mmap(nullptr, (1ull << SH_BITS) * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (R == MAP_FAILED || SY == MAP_FAILED || SH == MAP_FAILED)
    {
        fprintf(stderr, "detsim: cannot map shadow memory\n");
        return 3;
    }
    madvise(SH, (1ull << SH_BITS) * 4, MADV_NOHUGEPAGE);
    atexit(on_exit_handler);
    const char* scenario = "";
    const char* out = nullptr;
    const char* rfile = nullptr;
    u64 base = 1, first = 0, count = 1, stride = 1;
    double limit = 1e9, shrink_s = 20;
    int det = 0, cpu = -1, keep_going = 0, raw = 0;
    const char* ignore = "";
    for (int i = 1; i < argc; i++)
    {
        const char* a = argv[i];
        auto val = [&]() { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (!strcmp(a, "--scenario"))
            scenario = val();
        else if (!strcmp(a, "--base"))
            base = strtoull(val(), 0, 10);
        else if (!strcmp(a, "--seed"))
            raw = 1, base = strtoull(val(), 0, 10);
        else if (!strcmp(a, "--first"))
            first = strtoull(val(), 0, 10);
        else if (!strcmp(a, "--count"))
            count = strtoull(val(), 0, 10);
        else if (!strcmp(a, "--stride"))
            stride = strtoull(val(), 0, 10);
        else if (!strcmp(a, "--limit"))
            limit = atof(val());
        else if (!strcmp(a, "--out"))
            out = val();
        else if (!strcmp(a, "--replay"))
            rfile = val();
        else if (!strcmp(a, "--det"))
            det = atoi(val());
        else if (!strcmp(a, "--cpu"))
            cpu = atoi(val());
        else if (!strcmp(a, "--shrink"))
            shrink_s = atof(val());
        else if (!strcmp(a, "--wall"))
            wall_limit_s = atoi(val());
        else if (!strcmp(a, "-v"))
            verbose_ = 1;
        else if (!strcmp(a, "-k"))
            keep_going = 1;
        else if (!strcmp(a, "--ignore"))
            ignore = val();  // comma-separated violation classes that are not this property's business
    }
    if (cpu >= 0)
    {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET(cpu, &cs);
        sched_setaffinity(0, sizeof cs, &cs);
    }
    if (rfile)
    {
        char sc[64] = "", cls[64] = "";
        u64 seed = 0, lh = 0, sh = 0;
        if (!load_replay(rfile, sc, &seed, cls, &lh, &sh))
        {
            fprintf(stderr, "cannot read %s\n", rfile);
            return 2;
        }
        int rc = run_once(sc, seed);
        print_result(stdout, rc, seed, sc);
        if (rc == 1 && !strcmp(R->cls, cls) && ((!rp.on && !lh) || (R->log_hash == lh && R->sched_hash == sh)))
        {
            printf("REPRODUCED %s\n", cls);
            return 1;
        }
        printf("NOT REPRODUCED (expected class %s)\n", cls);
        return rc == 1 ? 4 : rc;
    }
    if (raw)
    {
        int rc = run_once(scenario, base);
        print_result(stdout, rc, base, scenario);
        return rc;
    }
    Agg* g = (Agg*)calloc(1, sizeof(Agg));
    FILE* hf = nullptr;
    if (out)
    {
        char hp[600];
        snprintf(hp, sizeof hp, "%s.hashes", out);
        hf = fopen(hp, "wb");
    }
    double t0 = wall();
    int rcfinal = 0;
    u64 vseed = 0, vindex = 0;
    char vpath[600] = "";
    FILE* of = out ? fopen(out, "w") : stdout;
    for (u64 k = 0; k < count; k++)
    {
        if (wall() - t0 > limit)
            break;
        u64 idx = first + k * stride;
        u64 seed = mix(mix(base) ^ hstr(scenario) ^ mix(idx * 2 + 1)) >> 1;
        int rc = run_once(scenario, seed);
        g->runs++;
        g->points += R->points;
        g->decisions += R->decisions;
        g->switches += R->switches;
        g->accesses += R->accesses;
        g->sim_s += R->simtime * 1e-9;
        for (int i = 0; i < R->nfault; i++)
        {
            Cnt* c = cnt(g->fault, g->nfault, 24, R->fault[i].name);
            c->n += R->fault[i].n;
            c->asked += R->fault[i].asked;
        }
        for (int i = 0; i < R->nprobe; i++)
        {
            Cnt* c = cnt(g->probe, g->nprobe, MAXCNT, R->probe[i].name);
            c->n += R->probe[i].n;
            if (R->probe[i].n)
                c->asked++;
        }
        if (hf)
        {
            u64 h[3] = {R->sched_hash, R->switches, R->log_hash};
            fwrite(h, 8, 3, hf);
        }
        if (k < 3 && rc == 0)
            print_result(of, rc, seed, scenario);
        if (det && k % det == 0)
        {
            u64 h1 = R->log_hash, s1 = R->sched_hash;
            int r2 = run_once(scenario, seed);
            g->det_checked++;
            if (r2 != rc || R->log_hash != h1 || R->sched_hash != s1)
            {
                g->det_bad++;
                fprintf(of, "{\"nondeterminism\":{\"seed\":%llu,\"index\":%llu,\"rc\":[%d,%d],\"log\":[\"%016llx\",\"%016llx\"],\"sched\":[\"%016llx\",\"%016llx\"]}}\n",
                    (unsigned long long)seed, (unsigned long long)idx, rc, r2, (unsigned long long)h1,
                    (unsigned long long)R->log_hash, (unsigned long long)s1, (unsigned long long)R->sched_hash);
            }
            rc = r2;
        }
        if (rc == 1 && ignore[0])
        {
            // class list match
            const char* p = ignore;
            bool ig = false;
            while (*p)
            {
                const char* e = strchr(p, ',');
                size_t n = e ? (size_t)(e - p) : strlen(p);
                if (n == strlen(R->cls) && !strncmp(p, R->cls, n))
                    ig = true;
                p += n;
                if (*p == ',')
                    p++;
            }
            if (ig)
            {
                cnt(g->probe, g->nprobe, MAXCNT, "other_property_violated")->n++;
                continue;
            }
        }
        if (rc == 2)
        {
            g->infra++;
            fprintf(of, "{\"infra\":1,\"seed\":%llu,\"class\":\"%s\",\"msg\":", (unsigned long long)seed, R->cls);
            jesc(of, R->msg);
            fprintf(of, "}\n");
            continue;
        }
        if (rc == 1)
        {
            g->viol++;
            vseed = seed;
            vindex = idx;
            if (keep_going)
            {
                print_result(of, rc, seed, scenario);
                continue;
            }
            snprintf(vpath, sizeof vpath, "%s.replay", out ? out : "/tmp/detsim");
            print_result(of, rc, seed, scenario);
            bool ok = minimise(scenario, seed, vpath, shrink_s);
            rp.on = false;
            fprintf(of, "{\"minimised\":%s,\"replay\":\"%s\",\"shrink_runs\":%d,\"index\":%llu}\n", ok ? "true" : "false",
                vpath, shrink_runs, (unsigned long long)vindex);
            if (ok)
                print_result(of, 1, seed, scenario);
            rcfinal = 1;
            break;
        }
    }
    fprintf(of, "{\"summary\":1,\"scenario\":\"%s\",\"runs\":%llu,\"violations\":%llu,\"infra\":%llu,\"points\":%llu,\"decisions\":%llu,\"switches\":%llu,\"accesses\":%llu,\"sim_s\":%.6f,\"det_checked\":%llu,\"det_bad\":%llu,\"wall_s\":%.3f,\"vseed\":%llu",
        scenario, (unsigned long long)g->runs, (unsigned long long)g->viol, (unsigned long long)g->infra,
        (unsigned long long)g->points, (unsigned long long)g->decisions, (unsigned long long)g->switches,
        (unsigned long long)g->accesses, g->sim_s, (unsigned long long)g->det_checked, (unsigned long long)g->det_bad,
        wall() - t0, (unsigned long long)vseed);
    fprintf(of, ",\"faults\":{");
    for (int i = 0; i < g->nfault; i++)
        fprintf(of, "%s\"%s\":[%llu,%llu]", i ? "," : "", g->fault[i].name, (unsigned long long)g->fault[i].n,
            (unsigned long long)g->fault[i].asked);
    fprintf(of, "},\"probes\":{");
    for (int i = 0; i < g->nprobe; i++)
        fprintf(of, "%s\"%s\":[%llu,%llu]", i ? "," : "", g->probe[i].name, (unsigned long long)g->probe[i].n,
            (unsigned long long)g->probe[i].asked);
    fprintf(of, "}}\n");
    fflush(of);
    if (hf)
        fclose(hf);
    return rcfinal;
}
