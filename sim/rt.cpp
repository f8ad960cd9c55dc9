// The simulator runtime: one simulated process ("life") inside a forked child.
//  * scheduler: real threads, one baton; every instrumented access of the SUT
//    is a scheduling point, every atomic/lock/syscall a synchronisation point
//  * kernel model: clock, files, sockets, shared memory, threads, stdout
//  * fault injection and crash
//  * happens-before monitor for queued records
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "common.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/uio.h>
#include <linux/futex.h>
#include <malloc.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/ioctl.h>
#include <sys/ipc.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/shm.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
// the simulator's own formatting: no scheduling point, no crash point
__attribute__((format(printf, 3, 4))) static int rt_fmt(char* d, size_t n, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = vsnprintf(d, n, fmt, ap); va_end(ap); return r; }

Arena* A;
const char* OP_NAMES[] = { "NOP","LOG","SLEEP","START","STOP","SETCH","SETDEV","BATCHCH","BATCHDEV","WRITECFG","CLOCK","SPAWN","JOIN","HOOK","COUNTERS","DGRAM","FAULTWIN","FAULTEND","QUIESCE","WAITSEQ","EXITLIFE","AGE","FLOOD" };
const char* FK_NAMES[] = { "none","open_fail","fstat_fail","write_eio","short_write","disk_full","fsync_fail","rename_fail","mkdir_fail","opendir_fail","unlink_fail","read_fail","close_fail",
    "socket_fail","fcntl_fail","bind_fail","sendto_fail","recv_fail","shmget_fail","shmat_fail","thread_create_fail","thread_slow_start","io_stall","thread_stall","oversleep","crash","clock_step" };
const char* FC_NAMES[] = { "none","segv","deadlock","hang","livelock","use_after_close","abort","timeout","harness","diverge" };
const char* PR_NAMES[] = { "queue_full_wait","ring_wrap","rotation","crash_inside_op","record_recovered","hot_update_applied","mutex_contended","stop_with_backlog",
    "concurrent_start","truncated_record","file_reopened","log_while_stopping","dst_cross","midnight_cross","out_of_order_timestamp","statement_discarded", "queue_aged" };

// ------------------------------------------------------------------ basics
void* arena_alloc(size_t n)
{
    n = (n + 15) & ~(size_t)15;
    if (A->bump + n > A->bump_end) { A->fatal_class = FC_HARNESS; rt_fmt(A->fatal_msg, sizeof A->fatal_msg, "arena full"); _exit(78); }
    void* p = A->bump; A->bump += n; return p;
}
void buf_append(Buf& b, const char* p, size_t n)
{
    if (b.n + n > b.cap)
    {
        u32 nc = b.cap ? b.cap * 2 : 512;
        while (nc < b.n + n) nc *= 2;
        char* q = (char*)arena_alloc(nc);
        if (b.n) memcpy(q, b.p, b.n);
        b.p = q; b.cap = nc;
    }
    memcpy(b.p + b.n, p, n);
    b.n += (u32)n;
}

// resolved on first use: the C++ library calls some of these before any constructor of ours runs
template<class F> struct LazyFn { F f; const char* n; operator F() { if (!f) f = (F)dlsym(RTLD_NEXT, n); return f; } };
#define REALFN(ret, name, args) typedef ret (*name##_fn) args; static LazyFn<name##_fn> real_##name = { nullptr, #name };
REALFN(int, pthread_create, (pthread_t*, const pthread_attr_t*, void*(*)(void*), void*))
REALFN(int, pthread_join, (pthread_t, void**))
REALFN(int, pthread_detach, (pthread_t))
REALFN(int, pthread_mutex_lock, (pthread_mutex_t*))
REALFN(int, pthread_mutex_trylock, (pthread_mutex_t*))
REALFN(int, pthread_mutex_unlock, (pthread_mutex_t*))
REALFN(int, pthread_once, (pthread_once_t*, void(*)(void)))
REALFN(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*))
REALFN(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*))
REALFN(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))
REALFN(int, pthread_cond_signal, (pthread_cond_t*))
REALFN(int, pthread_cond_broadcast, (pthread_cond_t*))
REALFN(int, pthread_rwlock_rdlock, (pthread_rwlock_t*))
REALFN(int, pthread_rwlock_wrlock, (pthread_rwlock_t*))
REALFN(int, pthread_rwlock_unlock, (pthread_rwlock_t*))
REALFN(int, __cxa_guard_acquire, (u64*))
REALFN(void, __cxa_guard_release, (u64*))
REALFN(void, __cxa_guard_abort, (u64*))
REALFN(int, nanosleep, (const struct timespec*, struct timespec*))
REALFN(int, clock_nanosleep, (clockid_t, int, const struct timespec*, struct timespec*))
REALFN(int, clock_gettime, (clockid_t, struct timespec*))
REALFN(FILE*, fopen, (const char*, const char*))
REALFN(int, fclose, (FILE*))
REALFN(size_t, fwrite, (const void*, size_t, size_t, FILE*))
REALFN(size_t, fread, (void*, size_t, size_t, FILE*))
REALFN(int, fflush, (FILE*))
REALFN(int, fileno, (FILE*))
REALFN(char*, fgets, (char*, int, FILE*))
REALFN(int, fputs, (const char*, FILE*))
REALFN(int, fputc, (int, FILE*))
REALFN(int, fstat, (int, struct stat*))
REALFN(int, stat, (const char*, struct stat*))
REALFN(int, lstat, (const char*, struct stat*))
REALFN(int, access, (const char*, int))
REALFN(DIR*, opendir, (const char*))
REALFN(int, closedir, (DIR*))
REALFN(struct dirent*, readdir, (DIR*))
REALFN(int, mkdir, (const char*, mode_t))
REALFN(int, rename, (const char*, const char*))
REALFN(int, remove, (const char*))
REALFN(int, unlink, (const char*))
REALFN(int, rmdir, (const char*))
REALFN(int, fsync, (int))
REALFN(int, fdatasync, (int))
REALFN(int, posix_fadvise, (int, off_t, off_t, int))
REALFN(int, ftruncate, (int, off_t))
REALFN(ssize_t, write, (int, const void*, size_t))
REALFN(ssize_t, read, (int, void*, size_t))
REALFN(int, close, (int))
REALFN(int, socket, (int, int, int))
REALFN(int, bind, (int, const struct sockaddr*, socklen_t))
REALFN(ssize_t, sendto, (int, const void*, size_t, int, const struct sockaddr*, socklen_t))
REALFN(ssize_t, recvfrom, (int, void*, size_t, int, struct sockaddr*, socklen_t*))
REALFN(int, shmget, (key_t, size_t, int))
REALFN(void*, shmat, (int, const void*, int))
REALFN(int, shmdt, (const void*))
REALFN(int, shmctl, (int, int, struct shmid_ds*))
REALFN(int, sched_yield, (void))

static int g_pool_fd = -1;
static const u64 POOL_SIZE = 64ull << 20;

const char* const TZS[] = { "UTC0", "CST-8", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<+0530>-5:30", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0" };
void rt_parent_init()
{
#define R(n) (void)(n##_fn)real_##n
    R(pthread_create); R(pthread_join); R(pthread_detach); R(pthread_mutex_lock); R(pthread_mutex_trylock); R(pthread_mutex_unlock); R(pthread_once);
    R(pthread_cond_wait); R(pthread_cond_timedwait); R(pthread_cond_clockwait); R(pthread_cond_signal); R(pthread_cond_broadcast);
    R(pthread_rwlock_rdlock); R(pthread_rwlock_wrlock); R(pthread_rwlock_unlock);
    R(__cxa_guard_acquire); R(__cxa_guard_release); R(__cxa_guard_abort);
    R(nanosleep); R(clock_nanosleep); R(clock_gettime); R(fopen); R(fclose); R(fwrite); R(fread); R(fflush); R(fileno); R(fgets); R(fputs); R(fputc);
    R(fstat); R(stat); R(lstat); R(access); R(opendir); R(closedir); R(readdir); R(mkdir); R(rename); R(remove); R(unlink); R(rmdir); R(fsync); R(fdatasync);
    R(posix_fadvise); R(ftruncate); R(write); R(read); R(close); R(socket); R(bind); R(sendto); R(recvfrom); R(shmget); R(shmat); R(shmdt); R(shmctl); R(sched_yield);
    if (g_pool_fd < 0)
    {
        g_pool_fd = (int)syscall(SYS_memfd_create, "simshm", 0);
        if (g_pool_fd >= 0 && real_ftruncate(g_pool_fd, (off_t)POOL_SIZE) != 0) g_pool_fd = -1;
    }
}
void rt_new_pool() { g_pool_fd = (int)syscall(SYS_memfd_create, "simshm", 0); if (g_pool_fd >= 0 && real_ftruncate(g_pool_fd, (off_t)POOL_SIZE) != 0) g_pool_fd = -1; }
__attribute__((constructor)) static void early_init() { rt_parent_init(); }

// ------------------------------------------------------------------ threads
static const int MAXT = 40;
enum TState { TS_FREE, TS_RUN, TS_SLEEP, TS_BLOCK, TS_DONE };
typedef u32 VC[MAXT];
struct Th
{
    int id; int state; volatile u32 fut;
    i64 due; const void* obj;
    int epoch; long pt; u64 run_len; u64 syncs; int prio;
    pthread_t real; void* (*fn)(void*); void* arg; void* ret;
    bool driver, detached, joined; int opidx; int nops_done; bool in_op; bool cond_signaled;
    int sut_order;
    VC vc; VC relf; VC acqp; bool has_relf, has_acqp;
    u32 cur_log_pause_ms; int nest_op; bool nested_done, in_nested; int pauses_left;
};
static Th T[MAXT];
static int nT;
static thread_local Th* self;
static Th* cur;
static bool g_life_on;
static const Plan* P;
static int L;                 // life index
static int g_hook_mode, g_hook_target = -1;

static u64 steps, next_stop, step_cap, crash_step, next_plain, crash_log, crash_in, logs_begun;   // crash_in steps after the crash_log-th statement began
static u64 iocalls, syncs_total, clock_reads;
static i64 tick_ns, limit_ns;
static double p_sync, p_plain; static int sched_mode; // 0 rw 1 pct 2 replay
static Rng rng(1);
static u64 pct_change[16]; static int pct_n; static int pct_low;
static u64 crash_sync, crash_io;
static int hb_on;

struct RSw { int epoch; long pt; int to; };
static RSw* rsw[MAXT]; static int nrsw[MAXT], crsw[MAXT];

struct FState { long seen; bool fired; i64 until; };
static FState fs_[64];
struct Win { int kind; i64 until; long p1; long ch; };
static Win wins[16]; static int nwins;

static inline bool sim() { return self != nullptr; }

static void futex_wait(volatile u32* a, u32 v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(volatile u32* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static Ev* evt(u32 type, i64 a = 0, i64 b = 0, i64 c = 0, i64 d = 0, i64 e = 0, const char* s = nullptr, size_t sn = 0)
{
    if (A->nev >= A->cap_ev) { A->ev_lost++; static Ev dummy; return &dummy; }
    Ev& x = A->ev[A->nev++];
    x.type = type; x.tid = (int16_t)(self ? self->id : -1); x.life = (int16_t)L; x.step = ++A->gstep; x.mono = A->mono; x.wall = A->mono / 1000 + A->wall_off;
    x.a = a; x.b = b; x.c = c; x.d = d; x.e = e; x.s = nullptr; x.sn = 0;
    if (s) { x.s = (char*)arena_alloc(sn + 1); memcpy(x.s, s, sn); x.s[sn] = 0; x.sn = (u32)sn; }
    return &x;
}
static Ev* evs(u32 type, const char* s, i64 a = 0, i64 b = 0, i64 c = 0, i64 d = 0) { return evt(type, a, b, c, d, 0, s, strlen(s)); }
[[noreturn]] static void fatal(int cls, const char* fmt, ...)
{
    char buf[380]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (!A->fatal_class) { A->fatal_class = cls; memcpy(A->fatal_msg, buf, sizeof buf); }
    evs(EV_FATAL, buf, cls);
    A->life_end = 3; A->sim_ns += 0;
    _exit(77);
}
static void describe_threads(char* out, size_t n)
{
    size_t k = 0; out[0] = 0;
    for (int i = 0; i < nT && k + 60 < n; i++)
    {
        if (T[i].state == TS_FREE || T[i].state == TS_DONE) continue;
        const char* on = T[i].state == TS_RUN ? "running" : T[i].state == TS_SLEEP ? "sleeping" : "blocked";
        k += (size_t)rt_fmt(out + k, n - k, " %s%d:%s", T[i].driver ? "client" : "writer", i, on);
        if (T[i].in_op && T[i].opidx >= 0) k += (size_t)rt_fmt(out + k, n - k, T[i].in_nested ? "(in %s within LOG)" : "(in %s)", OP_NAMES[P->lives[L].threads[i].ops[T[i].opidx].kind]);
    }
}
[[noreturn]] static void do_crash()
{
    A->fault_fired[FK_CRASH]++;
    bool inop = false;
    for (int i = 0; i < nT; i++) if (T[i].in_op) inop = true;
    if (inop) A->probe[PR_CRASH_INOP]++;
    evt(EV_LIFE, L, 2);
    A->life_end = 2; A->life_points[L & 7] = steps;
    _exit(0);
}

// -------------------------------------------------------------- scheduling
static void compute_next_stop()
{
    u64 n = step_cap;
    if (crash_step && crash_step > steps && crash_step < n) n = crash_step;
    if (sched_mode == 0 && next_plain < n) n = next_plain;
    if (sched_mode == 1)
    {
        for (int i = 0; i < pct_n; i++) if (pct_change[i] > steps && pct_change[i] < n) n = pct_change[i];
        u64 q = steps + 64; if (q < n) n = q;          // priorities of woken sleepers, starvation
    }
    if (sched_mode == 2 && cur)
    {
        int i = cur->id;
        while (crsw[i] < nrsw[i] && (rsw[i][crsw[i]].epoch < cur->epoch || (rsw[i][crsw[i]].epoch == cur->epoch && rsw[i][crsw[i]].pt < cur->pt))) crsw[i]++;
        if (crsw[i] < nrsw[i] && rsw[i][crsw[i]].epoch == cur->epoch)
        {
            u64 q = steps + (u64)(rsw[i][crsw[i]].pt - cur->pt); if (q == steps) q = steps + 1;
            if (q < n) n = q;
        }
    }
    next_stop = n;
}
static int candidates(int* out)
{
    int n = 0;
    for (int i = 0; i < nT; i++) if (T[i].state == TS_RUN || (T[i].state == TS_SLEEP && T[i].due <= A->mono)) out[n++] = i;
    return n;
}
static void hand_over(Th* me, Th* to, bool forced, bool isdef)
{
    A->switches++;
    if (!forced) A->preempts++;
    A->hash = mix64(A->hash ^ ((u64)me->id << 48) ^ ((u64)to->id << 40) ^ ((u64)(u32)me->epoch << 20) ^ (u64)me->pt);
    if ((!forced || !isdef) && A->nsw < A->cap_sw)
    {
        auto& s = A->sw[A->nsw++];
        s.life = L; s.tid = me->id; s.epoch = me->epoch; s.pt = me->pt; s.to = to->id | (forced ? 0x100 : 0);
    }
    me->run_len = 0;
    if (to == me) { if (to->state == TS_SLEEP) to->state = TS_RUN; compute_next_stop(); return; }
    if (to->state == TS_SLEEP) to->state = TS_RUN;
    cur = to;
    bool gone = me->state == TS_DONE;
    me->fut = 0;
    compute_next_stop();
    std::atomic_thread_fence(std::memory_order_seq_cst);
    to->fut = 1; futex_wake(&to->fut);
    if (gone) return;
    while (__atomic_load_n(&me->fut, __ATOMIC_SEQ_CST) == 0) futex_wait(&me->fut, 0);
}
static int replay_entry(Th* me, bool forced)
{
    int i = me->id;
    while (crsw[i] < nrsw[i] && (rsw[i][crsw[i]].epoch < me->epoch || (rsw[i][crsw[i]].epoch == me->epoch && rsw[i][crsw[i]].pt < me->pt))) crsw[i]++;
    if (crsw[i] < nrsw[i] && rsw[i][crsw[i]].epoch == me->epoch && rsw[i][crsw[i]].pt == me->pt)
    {
        int to = rsw[i][crsw[i]].to;
        if (((to & 0x100) != 0) == forced) { crsw[i]++; return to & 0xff; }
    }
    return -1;
}
// choose who runs next. forced: the current thread cannot continue
static void reschedule(bool forced, int preempt_to = -1)
{
    Th* me = cur;
    int c[MAXT]; int n = candidates(c);
    bool jumped = false;
    if (n == 0)
    {
        i64 best = INT64_MAX;
        for (int i = 0; i < nT; i++) if (T[i].state == TS_SLEEP && T[i].due < best) best = T[i].due;
        if (best == INT64_MAX)
        {
            char d[300]; describe_threads(d, sizeof d);
            fatal(FC_DEADLOCK, "no thread can run:%s", d);
        }
        A->mono = best; jumped = true;
        n = candidates(c);
        if (A->mono > limit_ns) { char d[300]; describe_threads(d, sizeof d); fatal(FC_HANG, "no completion within %lld simulated ms:%s", (long long)(limit_ns / 1000000), d); }
    }
    int def = c[0];
    for (int i = 0; i < n; i++) if (c[i] > me->id) { def = c[i]; break; }
    if (jumped) { i64 best = INT64_MAX; for (int i = 0; i < n; i++) if (T[c[i]].state == TS_SLEEP && T[c[i]].due < best) { best = T[c[i]].due; def = c[i]; } }
    int to = def;
    if (!forced) to = preempt_to;
    else if (sched_mode == 0) to = c[rng.below((u64)n)];
    else if (sched_mode == 1) { for (int i = 0; i < n; i++) if (T[c[i]].prio > T[to].prio) to = c[i]; }
    else
    {
        int e = replay_entry(me, true);
        if (e >= 0) for (int i = 0; i < n; i++) if (c[i] == e) to = e;
    }
    hand_over(me, &T[to], forced, to == def);
}
static void maybe_preempt_random()
{
    int c[MAXT]; int n = candidates(c), m = 0; int o[MAXT];
    for (int i = 0; i < n; i++) if (c[i] != cur->id) o[m++] = c[i];
    if (m) reschedule(false, o[rng.below((u64)m)]);
}
static void pct_check()
{
    for (int i = 0; i < pct_n; i++) if (pct_change[i] == steps) cur->prio = --pct_low;
    int c[MAXT]; int n = candidates(c); int best = cur->id;
    if (cur->run_len > 20000 && n > 1) { cur->prio = --pct_low; cur->run_len = 0; }
    for (int i = 0; i < n; i++) if (T[c[i]].prio > T[best].prio) best = c[i];
    if (best != cur->id) reschedule(false, best);
}
static void slow_point()
{
    if (crash_step && steps == crash_step) do_crash();
    if (steps >= step_cap) { char d[300]; describe_threads(d, sizeof d); fatal(FC_LIVELOCK, "%llu steps without finishing:%s", (unsigned long long)steps, d); }
    if (A->mono > limit_ns) { char d[300]; describe_threads(d, sizeof d); fatal(FC_HANG, "no completion within %lld simulated ms:%s", (long long)(limit_ns / 1000000), d); }
    if (sched_mode == 0)
    {
        if (steps >= next_plain)
        {
            maybe_preempt_random();
            double u = rng.uni(); if (u < 1e-12) u = 1e-12;
            // geometric
            double g = p_plain > 0 ? __builtin_log(u) / __builtin_log1p(-p_plain) : 1e18;
            next_plain = steps + 1 + (g > 1e15 ? (u64)1e15 : (u64)g);
        }
    }
    else if (sched_mode == 1) pct_check();
    else
    {
        for (;;)
        {
            int e = replay_entry(cur, false);
            if (e < 0) break;
            int c[MAXT]; int n = candidates(c); bool ok = false;
            for (int i = 0; i < n; i++) if (c[i] == e && e != cur->id) ok = true;
            if (ok) { reschedule(false, e); }
        }
    }
    compute_next_stop();
}
static inline void tick(Th* t)
{
    t->pt++; t->run_len++; A->points++; A->mono += tick_ns;
    if (++steps >= next_stop) slow_point();
}
static void sim_sleep(i64 ns);
static void sync_point()
{
    Th* t = self;
    tick(t);
    t->syncs++; syncs_total++; A->syncpoints++;
    if (crash_sync && syncs_total == crash_sync) do_crash();
    for (size_t i = 0; i < P->faults.size(); i++)
    {
        const Fault& f = P->faults[i];
        if (f.kind == FK_STALL && f.life == L && f.p2 == t->id && (long)t->syncs == f.nth && !fs_[i].fired)
        {
            fs_[i].fired = true; A->fault_fired[FK_STALL]++; evt(EV_FAULT, FK_STALL, f.p1);
            sim_sleep(f.p1 * 1000000LL);
        }
    }
    if (sched_mode == 0) { if (p_sync > 0 && rng.uni() < p_sync) maybe_preempt_random(); }
    else if (sched_mode == 1) pct_check();
}
static void block_on(const void* o)
{
    self->obj = o; self->state = TS_BLOCK;
    reschedule(true);
    self->obj = nullptr;
}
static void wake_all(const void* o) { for (int i = 0; i < nT; i++) if (T[i].state == TS_BLOCK && T[i].obj == o) T[i].state = TS_RUN; }
static void raw_sleep(i64 ns)
{
    Th* t = self;
    t->state = TS_SLEEP; t->due = A->mono + (ns > 0 ? ns : 1);
    reschedule(true);
    t->epoch++; t->pt = 0; t->run_len = 0;
    compute_next_stop();
}
static void sim_sleep(i64 ns) { raw_sleep(ns); }

// -------------------------------------------------------------- faults
static int chan_of_path(const char* p)
{
    const char* b = strrchr(p, '/'); b = b ? b + 1 : p;
    if (b[0] == 'c' && b[1] >= '0' && b[1] <= '9') return b[1] - '0';
    return -1;
}
static bool fault_hit(int kind, int ch, long* p1 = nullptr)
{
    bool hit = false; long v = 0;
    for (size_t i = 0; i < P->faults.size() && i < 64; i++)
    {
        const Fault& f = P->faults[i];
        if (f.kind != kind || f.life != L || (f.ch >= 0 && f.ch != ch)) continue;
        fs_[i].seen++;
        if (!fs_[i].fired && fs_[i].seen >= f.nth) { fs_[i].fired = true; fs_[i].until = A->mono + f.p2 * 1000000LL; hit = true; v = f.p1; }
        else if (fs_[i].fired && f.p2 > 0 && A->mono < fs_[i].until) { hit = true; v = f.p1; }
    }
    for (int i = 0; i < nwins; i++)
        if (wins[i].kind == kind && A->mono < wins[i].until && (wins[i].ch < 0 || wins[i].ch == ch)) { hit = true; v = wins[i].p1; }
    if (hit) { A->fault_fired[kind]++; evt(EV_FAULT, kind, v, ch); if (p1) *p1 = v; }
    return hit;
}
static void io_call(int ch)
{
    sync_point();
    iocalls++;
    if (crash_io && iocalls == crash_io) do_crash();
    long ms = 0;
    if (fault_hit(FK_STALLIO, ch, &ms)) sim_sleep(ms * 1000000LL);
}

// -------------------------------------------------------------- happens-before
struct SyncVar { const void* a; VC vc; };
static const u32 NSV = 1 << 12;
static SyncVar* sv_tab;
static SyncVar* sv(const void* a)
{
    u64 h = mix64((u64)(uintptr_t)a) & (NSV - 1);
    for (u32 k = 0; k < NSV; k++) { SyncVar* s = &sv_tab[(h + k) & (NSV - 1)]; if (s->a == a) return s; if (!s->a) { s->a = a; return s; } }
    fatal(FC_HARNESS, "sync table full");
}
static inline void vc_join(VC& d, const VC& s) { for (int i = 0; i < MAXT; i++) if (s[i] > d[i]) d[i] = s[i]; }
static void hb_acquire(const void* a) { if (hb_on) vc_join(self->vc, sv(a)->vc); }
static void hb_release(const void* a) { if (hb_on) { vc_join(sv(a)->vc, self->vc); self->vc[self->id]++; } }
struct Region { char* base; size_t len, stride, moff, mlen; struct Cell { u32 wclk; int16_t wtid; int16_t pad; u32 r[MAXT]; }* cells; };
static Region reg[4]; static int nreg; static int nraces;
static void hb_range(const void* p, size_t n, bool w)
{
    if (!hb_on || !self || n == 0) return;
    char* a = (char*)p;
    for (int k = 0; k < nreg; k++)
    {
        Region& g = reg[k];
        if (a + n <= g.base || a >= g.base + g.len) continue;
        size_t lo = a > g.base ? (size_t)(a - g.base) : 0, hi = (size_t)(a + n - g.base); if (hi > g.len) hi = g.len;
        Th* t = self;
        for (size_t q = lo / 4; q * 4 < hi; q++)
        {
            size_t so = (q * 4) % g.stride;
            if (so >= g.moff && so < g.moff + g.mlen) continue;
            Region::Cell& c = g.cells[q];
            const char* what = nullptr; int other = -1;
            if (c.wclk && c.wtid != t->id && c.wclk > t->vc[c.wtid]) { what = w ? "write/write" : "write/read"; other = c.wtid; }
            if (w)
            {
                for (int i = 0; i < nT; i++) if (i != t->id && c.r[i] > t->vc[i]) { what = "read/write"; other = i; }
                c.wclk = t->vc[t->id]; c.wtid = (int16_t)t->id;
            }
            else c.r[t->id] = t->vc[t->id];
            if (what && nraces < 8)
            {
                nraces++;
                char buf[200]; rt_fmt(buf, sizeof buf, "unordered %s: thread %d then thread %d, queue position %d, offset %d", what, other, t->id, (int)(q * 4 / g.stride), (int)so);
                evs(EV_RACE, buf, k, (i64)(q * 4 / g.stride), (i64)so);
                if (nraces == 8) return;
            }
        }
    }
}
static void hb_register(int ch)
{
    void* b; unsigned long st, n, mo, ml;
    if (!hb_on || sut_ring_info(ch, &b, &st, &n, &mo, &ml) != 0) return;
    for (int i = 0; i < nreg; i++) if (reg[i].base == (char*)b) return;
    if (nreg >= 4) return;
    Region& g = reg[nreg++];
    g.base = (char*)b; g.len = st * n; g.stride = st; g.moff = mo; g.mlen = ml;
    g.cells = (Region::Cell*)calloc(g.len / 4 + 1, sizeof(Region::Cell));
}

// -------------------------------------------------------------- tsan ABI
#define NOI __attribute__((noinline))
static inline void plain(void* a, size_t n, bool w)
{
    Th* t = self; if (!t) return;
    tick(t);
    if (__builtin_expect(hb_on, 0)) hb_range(a, n, w);
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { plain(a, n, false); } void __tsan_write##n(void* a) { plain(a, n, true); } \
    void __tsan_unaligned_read##n(void* a) { plain(a, n, false); } void __tsan_unaligned_write##n(void* a) { plain(a, n, true); } \
    void __tsan_read_write##n(void* a) { plain(a, n, false); plain(a, n, true); } void __tsan_unaligned_read_write##n(void* a) { plain(a, n, false); plain(a, n, true); } \
    void __tsan_volatile_read##n(void* a) { plain(a, n, false); } void __tsan_volatile_write##n(void* a) { plain(a, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* a) { plain(a, n, false); } void __tsan_unaligned_volatile_write##n(void* a) { plain(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { plain(a, n, false); }
void __tsan_write_range(void* a, size_t n) { plain(a, n, true); }
void __tsan_vptr_update(void** a, void*) { plain(a, 8, true); }
void __tsan_vptr_read(void** a) { plain(a, 8, false); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { plain((void*)s, n, false); plain(d, n, true); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { plain((void*)s, n, false); plain(d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) plain(d, n, true); return memset(d, c, n); }
}
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void hb_atomic(const void* a, int mo, bool ld, bool st)
{
    if (!hb_on) return;
    Th* t = self; SyncVar* s = sv(a);
    if (ld) { if (is_acq(mo)) vc_join(t->vc, s->vc); else { vc_join(t->acqp, s->vc); t->has_acqp = true; } }
    if (st)
    {
        if (is_rel(mo)) { if (!ld) memset(s->vc, 0, sizeof(VC)); vc_join(s->vc, t->vc); t->vc[t->id]++; }
        else if (!ld) { memset(s->vc, 0, sizeof(VC)); if (t->has_relf) vc_join(s->vc, t->relf); }
        else if (t->has_relf) vc_join(s->vc, t->relf);
    }
}
static inline void ap(const void* a, int mo, bool ld, bool st) { if (self) { sync_point(); if (hb_on) hb_atomic(a, mo, ld, st); } }
// an atomic is also an access of the memory it lives in, but never racy against other atomics
extern "C" {
#define AT(sz, ty) \
ty __tsan_atomic##sz##_load(const volatile ty* a, int mo) { ap((const void*)a, mo, true, false); return *a; } \
void __tsan_atomic##sz##_store(volatile ty* a, ty v, int mo) { ap((const void*)a, mo, false, true); *a = v; } \
ty __tsan_atomic##sz##_exchange(volatile ty* a, ty v, int mo) { ap((const void*)a, mo, true, true); ty o = *a; *a = v; return o; } \
ty __tsan_atomic##sz##_fetch_add(volatile ty* a, ty v, int mo) { ap((const void*)a, mo, true, true); ty o = *a; *a = (ty)(o + v); return o; } \
ty __tsan_atomic##sz##_fetch_sub(volatile ty* a, ty v, int mo) { ap((const void*)a, mo, true, true); ty o = *a; *a = (ty)(o - v); return o; } \
ty __tsan_atomic##sz##_fetch_and(volatile ty* a, ty v, int mo) { ap((const void*)a, mo, true, true); ty o = *a; *a = (ty)(o & v); return o; } \
ty __tsan_atomic##sz##_fetch_or(volatile ty* a, ty v, int mo) { ap((const void*)a, mo, true, true); ty o = *a; *a = (ty)(o | v); return o; } \
ty __tsan_atomic##sz##_fetch_xor(volatile ty* a, ty v, int mo) { ap((const void*)a, mo, true, true); ty o = *a; *a = (ty)(o ^ v); return o; } \
ty __tsan_atomic##sz##_fetch_nand(volatile ty* a, ty v, int mo) { ap((const void*)a, mo, true, true); ty o = *a; *a = (ty)~(o & v); return o; } \
int __tsan_atomic##sz##_compare_exchange_strong(volatile ty* a, ty* c, ty v, int mo, int fmo) { \
    if (self) sync_point(); if (*a == *c) { if (self && hb_on) hb_atomic((const void*)a, mo, true, true); *a = v; return 1; } \
    if (self && hb_on) hb_atomic((const void*)a, fmo, true, false); *c = *a; return 0; } \
int __tsan_atomic##sz##_compare_exchange_weak(volatile ty* a, ty* c, ty v, int mo, int fmo) { return __tsan_atomic##sz##_compare_exchange_strong(a, c, v, mo, fmo); } \
ty __tsan_atomic##sz##_compare_exchange_val(volatile ty* a, ty c, ty v, int mo, int fmo) { __tsan_atomic##sz##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (!self) return;
    sync_point();
    if (!hb_on) return;
    Th* t = self;
    if (is_acq(mo) && t->has_acqp) vc_join(t->vc, t->acqp);
    if (is_rel(mo)) { memcpy(t->relf, t->vc, sizeof(VC)); t->has_relf = true; t->vc[t->id]++; }
}
void __tsan_atomic_signal_fence(int) {}
}

// -------------------------------------------------------------- allocation
static int dirty_byte = -1;
static void* sim_alloc(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    if (dirty_byte >= 0 && self) memset(p, dirty_byte, malloc_usable_size(p));
    return p;
}
void* operator new(size_t n) { return sim_alloc(n); }
void* operator new[](size_t n) { return sim_alloc(n); }
static void sim_free(void* p) { if (p && self) { size_t n = malloc_usable_size(p); memset(p, 0xDD, n); } free(p); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }

// -------------------------------------------------------------- pthread
struct Mtx { const void* a; int owner; int count; };
static Mtx mtab[512];
static Mtx* mtx(const void* a)
{
    u64 h = mix64((u64)(uintptr_t)a) & 511;
    for (int k = 0; k < 512; k++) { Mtx* m = &mtab[(h + k) & 511]; if (m->a == a) return m; if (!m->a) { m->a = a; m->owner = -1; return m; } }
    fatal(FC_HARNESS, "mutex table full");
}
static Th* new_thread(void* (*fn)(void*), void* arg, bool driver, int slot)
{
    int id = slot;
    if (id < 0) { if (nT >= MAXT) fatal(FC_HARNESS, "too many threads"); id = nT++; }
    Th& t = T[id];
    t.id = id; t.fn = fn; t.arg = arg; t.driver = driver; t.fut = 0; t.opidx = -1; t.epoch = 0; t.pt = 0;
    t.prio = (int)(100 + rng.below(1000));
    if (self && hb_on) { memcpy(t.vc, self->vc, sizeof(VC)); self->vc[self->id]++; }
    t.vc[id]++;
    t.state = TS_RUN;
    return &t;
}
static void* trampoline(void* x)
{
    Th* t = (Th*)x;
    while (__atomic_load_n(&t->fut, __ATOMIC_SEQ_CST) == 0) futex_wait(&t->fut, 0);
    self = t;
    t->ret = t->fn(t->arg);
    // exit
    evt(EV_THREAD, t->id, 1);
    hb_release(t);
    t->state = TS_DONE;
    wake_all(t);
    Th* me = t;
    (void)me;
    void* ret = t->ret;
    self = nullptr;
    // reschedule uses cur
    reschedule(true);
    return ret;
}
static int start_real(Th* t)
{
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024);
    int rc = real_pthread_create(&t->real, &at, trampoline, t);
    pthread_attr_destroy(&at);
    return rc;
}
extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    if (!sim()) return real_pthread_create(th, at, fn, arg);
    sync_point();
    if (fault_hit(FK_THREAD, -1)) return EAGAIN;
    Th* t = new_thread(fn, arg, false, -1);
    long ms = 0;
    if (fault_hit(FK_SLOWTHREAD, -1, &ms)) { t->state = TS_SLEEP; t->due = A->mono + (ms < 0 ? -ms * 1000LL : ms * 1000000LL); }   // below zero: microseconds
    if (start_real(t) != 0) fatal(FC_HARNESS, "real pthread_create failed");
    *th = t->real;
    evt(EV_THREAD, t->id, 0);
    if (nT > A->max_threads) A->max_threads = nT;
    sync_point();
    return 0;
}
static Th* th_of(pthread_t p) { for (int i = 0; i < nT; i++) if (T[i].state != TS_FREE && T[i].real == p && !T[i].joined && T[i].id != 0) return &T[i]; return nullptr; }
int pthread_join(pthread_t p, void** r)
{
    if (!sim()) return real_pthread_join(p, r);
    sync_point();
    Th* t = th_of(p);
    if (!t) return ESRCH;
    while (t->state != TS_DONE) block_on(t);
    hb_acquire(t);
    t->joined = true;
    if (r) *r = t->ret;
    real_pthread_join(t->real, nullptr);
    return 0;
}
int pthread_detach(pthread_t p)
{
    if (!sim()) return real_pthread_detach(p);
    sync_point();
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!sim()) return real_pthread_mutex_lock(m);
    sync_point();
    Mtx* x = mtx(m);
    if (x->owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { x->count++; return 0; }
    if (x->owner >= 0) A->probe[PR_MUTEX_CONTENDED]++;
    while (x->owner >= 0) block_on(m);
    x->owner = self->id; x->count = 1; hb_acquire(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!sim()) return real_pthread_mutex_trylock(m);
    sync_point();
    Mtx* x = mtx(m);
    if (x->owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { x->count++; return 0; }
    if (x->owner >= 0) return EBUSY;
    x->owner = self->id; x->count = 1; hb_acquire(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!sim()) return real_pthread_mutex_unlock(m);
    Mtx* x = mtx(m);
    if (x->owner != self->id) { evs(EV_BADUSE, "unlock of a mutex that is not held"); return EPERM; }
    if (--x->count == 0) { hb_release(m); x->owner = -1; wake_all(m); }
    sync_point();
    return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t clk, const struct timespec* ts)
{
    if (!sim()) { while (real_pthread_mutex_trylock(m)) real_sched_yield(); return 0; }
    i64 due = ts->tv_sec * 1000000000LL + ts->tv_nsec; if (clk == CLOCK_REALTIME) due -= A->wall_off * 1000;
    for (;;) { if (pthread_mutex_trylock(m) == 0) return 0; if (A->mono >= due) return ETIMEDOUT; sim_sleep(std::min<i64>(due - A->mono, 1000000)); }
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts); }
int pthread_spin_init(pthread_spinlock_t* s, int) { *s = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_trylock(pthread_spinlock_t* s)
{
    if (sim()) sync_point();
    if (__atomic_exchange_n(s, 1, __ATOMIC_ACQUIRE)) return EBUSY;
    if (sim()) hb_acquire((const void*)s);
    return 0;
}
int pthread_spin_lock(pthread_spinlock_t* s) { while (pthread_spin_trylock(s)) { if (sim()) block_on((const void*)s); else real_sched_yield(); } return 0; }
int pthread_spin_unlock(pthread_spinlock_t* s)
{
    if (sim()) hb_release((const void*)s);
    __atomic_store_n(s, 0, __ATOMIC_RELEASE);
    if (sim()) { wake_all((const void*)s); sync_point(); }
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    if (!sim()) return real_pthread_once(o, fn);
    sync_point();
    Mtx* x = mtx(o);
    while (x->owner >= 0) block_on(o);
    if (x->count == 0) { x->owner = self->id; fn(); x->count = 1; x->owner = -1; hb_release(o); wake_all(o); }
    else hb_acquire(o);
    return 0;
}
static int cond_wait_common(const void* c, pthread_mutex_t* m, i64 due)
{
    Th* t = self; t->cond_signaled = false;
    Mtx* x = mtx(m); int cnt = x->count; x->count = 0; x->owner = -1; hb_release(m); wake_all(m);
    t->obj = c;
    if (due >= 0) { t->state = TS_SLEEP; t->due = due; } else t->state = TS_BLOCK;
    reschedule(true);
    t->obj = nullptr;
    t->epoch++; t->pt = 0; compute_next_stop();
    bool sig = t->cond_signaled;
    while (x->owner >= 0) block_on(m);
    x->owner = t->id; x->count = cnt; hb_acquire(m);
    return sig ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!sim()) return real_pthread_cond_wait(c, m);
    sync_point(); cond_wait_common(c, m, -1); return 0;
}
static i64 abs_to_due(clockid_t clk, const struct timespec* ts)
{
    i64 ns = ts->tv_sec * 1000000000LL + ts->tv_nsec;
    if (clk == CLOCK_REALTIME) ns -= A->wall_off * 1000;
    return ns;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (!sim()) return real_pthread_cond_timedwait(c, m, ts);
    sync_point(); return cond_wait_common(c, m, abs_to_due(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts)
{
    if (!sim()) return real_pthread_cond_clockwait(c, m, clk, ts);
    sync_point(); return cond_wait_common(c, m, abs_to_due(clk, ts));
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!sim()) return real_pthread_cond_signal(c);
    sync_point();
    for (int i = 0; i < nT; i++) if ((T[i].state == TS_BLOCK || T[i].state == TS_SLEEP) && T[i].obj == c) { T[i].cond_signaled = true; T[i].state = TS_RUN; break; }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!sim()) return real_pthread_cond_broadcast(c);
    sync_point();
    for (int i = 0; i < nT; i++) if ((T[i].state == TS_BLOCK || T[i].state == TS_SLEEP) && T[i].obj == c) { T[i].cond_signaled = true; T[i].state = TS_RUN; }
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!sim()) return real_pthread_rwlock_rdlock(m);
    sync_point(); Mtx* x = mtx(m);
    while (x->owner >= 0 && x->owner != 1000) block_on(m);
    x->owner = 1000; x->count++; hb_acquire(m); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!sim()) return real_pthread_rwlock_wrlock(m);
    sync_point(); Mtx* x = mtx(m);
    while (x->owner >= 0) block_on(m);
    x->owner = self->id; x->count = 1; hb_acquire(m); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    sync_point(); Mtx* x = mtx(m);
    if (x->owner >= 0 && x->owner != 1000) return EBUSY;
    x->owner = 1000; x->count++; hb_acquire(m); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    sync_point(); Mtx* x = mtx(m);
    if (x->owner >= 0) return EBUSY;
    x->owner = self->id; x->count = 1; hb_acquire(m); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!sim()) return real_pthread_rwlock_unlock(m);
    Mtx* x = mtx(m); hb_release(m);
    if (--x->count == 0) { x->owner = -1; wake_all(m); }
    sync_point(); return 0;
}
int __cxa_guard_acquire(u64* g)
{
    if (!sim()) return real___cxa_guard_acquire(g);
    sync_point();
    if (*(volatile char*)g) { hb_acquire(g); return 0; }
    Mtx* x = mtx(g);
    while (x->owner >= 0 && !*(volatile char*)g) block_on(g);
    if (*(volatile char*)g) { hb_acquire(g); return 0; }
    x->owner = self->id; return 1;
}
void __cxa_guard_release(u64* g)
{
    if (!sim()) { real___cxa_guard_release(g); return; }
    *(volatile char*)g = 1; hb_release(g); mtx(g)->owner = -1; wake_all(g);
    sync_point();
}
void __cxa_guard_abort(u64* g)
{
    if (!sim()) { real___cxa_guard_abort(g); return; }
    mtx(g)->owner = -1; wake_all(g);
}
int sched_yield(void)
{
    if (!sim()) return real_sched_yield();
    sync_point();
    self->run_len += 200;
    // a yielding thread lets somebody else run
    int c[MAXT]; int n = candidates(c);
    if (n > 1) { self->pt++; int to = c[0]; for (int i = 0; i < n; i++) if (c[i] > self->id) { to = c[i]; break; } if (to == self->id) to = c[0] == self->id ? c[1] : c[0]; if (sched_mode != 2) reschedule(false, to); else slow_point(); }
    return 0;
}

// -------------------------------------------------------------- time
static void sleep_ns(i64 ns)
{
    sync_point();
    long ms = 0;
    if (fault_hit(FK_OVERSLEEP, -1, &ms)) ns += ms * 1000000LL;
    raw_sleep(ns);
}
int nanosleep(const struct timespec* r, struct timespec* rem)
{
    if (!sim()) return real_nanosleep(r, rem);
    sleep_ns(r->tv_sec * 1000000000LL + r->tv_nsec);
    if (rem) rem->tv_sec = rem->tv_nsec = 0;
    return 0;
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec* r, struct timespec* rem)
{
    if (!sim()) return real_clock_nanosleep(clk, flags, r, rem);
    i64 ns = r->tv_sec * 1000000000LL + r->tv_nsec;
    if (flags & TIMER_ABSTIME) { ns = abs_to_due(clk, r) - A->mono; if (ns < 0) ns = 0; }
    sleep_ns(ns);
    return 0;
}
int usleep(useconds_t us) { struct timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return nanosleep(&ts, nullptr); }
unsigned sleep(unsigned s) { struct timespec ts = { (time_t)s, 0 }; nanosleep(&ts, nullptr); return 0; }
static i64 wall_us() { return A->mono / 1000 + A->wall_off; }
static void step_clock(i64 ms)
{
    A->wall_off += ms * 1000; evt(EV_CLOCKSTEP, 0, 0, 0, ms);
}
static void clock_read()
{
    sync_point(); clock_reads++;
    long ms = 0;
    if (fault_hit(FK_CLOCKSTEP, -1, &ms)) step_clock(ms);
}
time_t time(time_t* t)
{
    if (!sim()) { struct timespec ts; real_clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
    clock_read();
    i64 us = wall_us(); time_t s = (time_t)(us >= 0 ? us / 1000000 : -((-us + 999999) / 1000000));
    if (t) *t = s;
    return s;
}
int gettimeofday(struct timeval* tv, void* tz)
{
    (void)tz;
    if (!sim()) { struct timespec ts; real_clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    clock_read();
    i64 us = wall_us(); tv->tv_sec = us / 1000000; tv->tv_usec = us % 1000000;
    return 0;
}
int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (!sim()) return real_clock_gettime(c, ts);
    clock_read();
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { i64 us = wall_us(); ts->tv_sec = us / 1000000; ts->tv_nsec = (us % 1000000) * 1000 + A->mono % 1000; }
    else { ts->tv_sec = A->mono / 1000000000; ts->tv_nsec = A->mono % 1000000000; }
    return 0;
}
pid_t getpid(void) { if (!sim()) return (pid_t)syscall(SYS_getpid); return 4242 + L; }
pid_t gettid(void) { if (!sim()) return (pid_t)syscall(SYS_gettid); return 5000 + L * 100 + self->id; }
long syscall(long n, ...) __THROW
{
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (sim() && n == SYS_gettid) return 5000 + L * 100 + self->id;
    if (sim() && n == SYS_getpid) return 4242 + L;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
    return ret;
}
} // extern C

// -------------------------------------------------------------- file system
struct FdE { int kind; /*0 free 1 file 2 sock 3 directory*/ int open; int ino; bool wr, app; u32 off; FILE* fp; u32 bport; int ch; u32 peer_port, peer_ip; };
static FdE fdt[16384]; static int nfd;
static const int FDBASE = 100;
static void norm(const char* p, char* out, size_t n)
{
    size_t k = 0;
    while (p[0] == '.' && p[1] == '/') { p += 2; while (*p == '/') p++; }
    for (; *p && k + 1 < n; p++)
    {
        if (*p == '/' && p[1] == '/') continue;
        if (*p == '/' && p[1] == '.' && (p[2] == '/' || !p[2])) { p++; continue; }
        out[k++] = *p;
    }
    while (k > 1 && out[k - 1] == '/') k--;
    out[k] = 0;
    if (!strcmp(out, ".")) out[0] = 0;
}
static Inode* lookup(const char* n)
{
    for (int i = 0; i < A->nino; i++) if (A->ino[i].used && !strcmp(A->ino[i].cur_path, n) && n[0]) return &A->ino[i];
    return nullptr;
}
static bool dir_exists(const char* n) { if (!n[0] || !strcmp(n, "/")) return true; Inode* i = lookup(n); return i && i->isdir; }
static bool parent_ok(const char* n)
{
    const char* s = strrchr(n, '/'); if (!s) return true; if (s == n) return true;
    char d[280]; size_t k = (size_t)(s - n); if (k >= sizeof d) return false; memcpy(d, n, k); d[k] = 0; return dir_exists(d);
}
static const int MAXINO = 600;
static Inode* mkino(const char* n, bool dir)
{
    if (A->nino >= MAXINO) fatal(FC_HARNESS, "too many inodes");
    Inode* i = &A->ino[A->nino]; memset(i, 0, sizeof *i); i->id = A->nino++; i->used = 1; i->isdir = dir; i->links = 1;
    rt_fmt(i->birth_path, sizeof i->birth_path, "%s", n); rt_fmt(i->cur_path, sizeof i->cur_path, "%s", n);
    i->birth_life = L; i->birth_step = A->gstep; i->mtime = wall_us() / 1000000;
    return i;
}
static int newfd(int kind) { if (nfd >= 16384) fatal(FC_HARNESS, "too many fds"); FdE& f = fdt[nfd]; memset(&f, 0, sizeof f); f.kind = kind; f.open = 1; return FDBASE + nfd++; }
static FdE* getfd(int fd, const char* what, bool quiet = false)
{
    if (fd < FDBASE || fd >= FDBASE + nfd) { if (!quiet) { char b[80]; rt_fmt(b, sizeof b, "%s on bad descriptor %d", what, fd); evs(EV_BADUSE, b); } errno = EBADF; return nullptr; }
    FdE* f = &fdt[fd - FDBASE];
    if (!f->open) { char b[80]; rt_fmt(b, sizeof b, "%s on closed %s", what, f->kind == 2 ? "socket" : "file"); evs(EV_BADUSE, b); errno = EBADF; return nullptr; }
    return f;
}
static FdE* fd_of_file(FILE* fp) { for (int i = nfd - 1; i >= 0; i--) if (fdt[i].fp == fp) return &fdt[i]; return nullptr; }
static ssize_t kwrite1(FdE* f, const char* p, size_t n)
{
    Inode* i = &A->ino[f->ino];
    long v = 0;
    if (fault_hit(FK_WRITE, f->ch, &v)) { errno = v ? (int)v : EIO; return -1; }
    if (fault_hit(FK_ENOSPC, f->ch, &v)) { errno = ENOSPC; return -1; }
    if (A->disk_free >= 0)
    {
        if (A->disk_free == 0) { A->fault_fired[FK_ENOSPC]++; evt(EV_FAULT, FK_ENOSPC, 0, -1); errno = ENOSPC; return -1; }
        if ((i64)n > A->disk_free) n = (size_t)A->disk_free;
        A->disk_free -= (i64)n;
    }
    if (n > 1 && fault_hit(FK_SHORTW, f->ch, &v)) { size_t k = (size_t)(v > 0 ? v : 1); if (k < n) n = k; }
    u32 off = i->data.n;
    if (!f->app && f->off < i->data.n)
    {
        // positional overwrite (not used by fn-log today)
        size_t k = 0; for (; k < n && f->off + k < i->data.n; k++) i->data.p[f->off + k] = p[k];
        if (k < n) buf_append(i->data, p + k, n - k);
        off = f->off;
    }
    else buf_append(i->data, p, n);
    f->off = off + (u32)n; i->mtime = wall_us() / 1000000;
    evt(EV_WRITE, (i64)(f - fdt), i->id, off, (i64)n);
    return (ssize_t)n;
}
static ssize_t kwrite(FdE* f, const char* p, size_t n)
{
    size_t done = 0;
    while (done < n) { ssize_t r = kwrite1(f, p + done, n - done); if (r <= 0) break; done += (size_t)r; }
    return (ssize_t)done;
}
static ssize_t cw(void* c, const char* p, size_t n) { return kwrite((FdE*)c, p, n); }
static ssize_t cr(void* c, char* p, size_t n)
{
    FdE* f = (FdE*)c; Inode* i = &A->ino[f->ino];
    if (i->bad || fault_hit(FK_READ, f->ch)) { errno = EIO; return -1; }
    size_t k = f->off < i->data.n ? i->data.n - f->off : 0; if (k > n) k = n;
    if (k) memcpy(p, i->data.p + f->off, k);
    f->off += (u32)k; return (ssize_t)k;
}
static int cs(void* c, off64_t* o, int w)
{
    FdE* f = (FdE*)c; Inode* i = &A->ino[f->ino];
    i64 b = w == SEEK_SET ? 0 : w == SEEK_CUR ? f->off : i->data.n; b += *o; if (b < 0) return -1; f->off = (u32)b; *o = b; return 0;
}
static ssize_t scrw(void*, const char* p, size_t n)
{
    u32 off = A->screen.n; buf_append(A->screen, p, n); evt(EV_SCREEN, 0, 0, off, (i64)n); return (ssize_t)n;
}
static int kopen(const char* path, bool rd, bool wr, bool app, bool trunc, bool creat)
{
    char n[280]; norm(path, n, sizeof n);
    int ch = chan_of_path(n); long v = 0;
    if (!strncmp(n, "/proc/", 6)) { int fd = newfd(1); Inode* i = nullptr; for (int k = 0; k < A->nino; k++) if (A->ino[k].used && !strcmp(A->ino[k].birth_path, "!cmdline")) i = &A->ino[k]; fdt[fd - FDBASE].ino = i->id; fdt[fd - FDBASE].ch = -2; evs(EV_OPEN, n, fd - FDBASE, i->id, 0); return fd; }
    if (wr && fault_hit(FK_OPEN, ch, &v)) { errno = v ? (int)v : EACCES; return -1; }
    if (!wr && fault_hit(FK_READ, ch, &v)) { errno = v ? (int)v : EACCES; return -1; }
    if (strlen(n) > 250) { errno = ENAMETOOLONG; return -1; }
    Inode* i = lookup(n);
    if (i && i->isdir) { errno = EISDIR; return -1; }
    if (!i) { if (!creat) { errno = ENOENT; return -1; } if (!parent_ok(n)) { errno = ENOENT; return -1; } i = mkino(n, false); }
    else if (i->bad && !wr) { errno = EACCES; return -1; }
    if (trunc && i->data.n) { char b[330]; rt_fmt(b, sizeof b, "truncate %s", n); evs(EV_UNLINK, b, 1, i->id); i->data.n = 0; }
    int fd = newfd(1); FdE& f = fdt[fd - FDBASE];
    f.ino = i->id; f.wr = wr; f.app = app; f.off = app ? i->data.n : 0; f.ch = ch;
    (void)rd;
    evs(EV_OPEN, n, fd - FDBASE, i->id, wr ? 1 : 0);
    return fd;
}
static const cookie_io_functions_t ckf = { cr, cw, cs, nullptr };
extern "C" {
static FILE* attach(FdE* f, const char* mode);
static FILE* sim_fopen(const char* path, const char* mode)
{
    io_call(chan_of_path(path));
    bool a = mode[0] == 'a', w = mode[0] == 'w', plus = strchr(mode, '+') != nullptr;
    int fd = kopen(path, !a && !w, a || w || plus, a, w, a || w);
    if (fd < 0) return nullptr;
    return attach(&fdt[fd - FDBASE], mode);
}
static FILE* attach(FdE* f, const char* mode)
{
    FILE* fp = fopencookie(f, mode, ckf);
    if (!fp) fatal(FC_HARNESS, "fopencookie");
    size_t bs = (size_t)P->k("stdio_buf", 4096);
    // glibc takes the size only together with a buffer; neither is ever released: the FILE lives as long as the simulated process
    if (char* sb = (char*)malloc(bs)) setvbuf(fp, sb, _IOFBF, bs);
    f->fp = fp;
    return fp;
}
FILE* fdopen(int fd, const char* mode)
{
    if (!sim() || fd < FDBASE) { errno = EBADF; return nullptr; }
    sync_point(); FdE* f = getfd(fd, "fdopen"); return f ? attach(f, mode) : nullptr;
}
FILE* fopen(const char* path, const char* mode) { if (!sim()) return real_fopen(path, mode); return sim_fopen(path, mode); }
FILE* fopen64(const char* path, const char* mode) { if (!sim()) return real_fopen(path, mode); return sim_fopen(path, mode); }
static bool file_ok(FILE* fp, const char* what, FdE** out = nullptr)
{
    FdE* f = fd_of_file(fp); if (out) *out = f;
    if (!f) return true;            // stdout, stderr
    if (!f->open) fatal(FC_USEAFTERCLOSE, "%s on a FILE that was closed (%s)", what, A->ino[f->ino].birth_path);
    return true;
}
int fclose(FILE* fp)
{
    if (!sim()) return real_fclose(fp);
    FdE* f = fd_of_file(fp);
    io_call(f ? f->ch : -1);
    file_ok(fp, "fclose", &f);
    if (!f) return 0;
    int r = real_fflush(fp);
    extern void __fpurge(FILE*); __fpurge(fp);
    if (f->wr && fault_hit(FK_CLOSE, f->ch)) r = EOF;
    f->open = 0;
    evt(EV_CLOSE, (i64)(f - fdt), f->ino, f->wr ? 1 : 0);
    return r;
}
size_t fwrite(const void* p, size_t s, size_t n, FILE* fp)
{
    if (!sim()) return real_fwrite(p, s, n, fp);
    FdE* f = fd_of_file(fp); io_call(f ? f->ch : -1);
    file_ok(fp, "fwrite"); hb_range(p, s * n, false);
    if (f && f->kind == 1 && P->k("fw", 0)) evt(EV_FWRITE, 0, f->ino, 0, (i64)(s * n), 0, (const char*)p, std::min<size_t>(s * n, 200));
    return real_fwrite(p, s, n, fp);
}
size_t fread(void* p, size_t s, size_t n, FILE* fp)
{
    if (!sim()) return real_fread(p, s, n, fp);
    FdE* f = fd_of_file(fp); io_call(f ? f->ch : -1); file_ok(fp, "fread");
    return real_fread(p, s, n, fp);
}
int fflush(FILE* fp)
{
    if (!sim()) return real_fflush(fp);
    if (!fp) { sync_point(); return real_fflush(nullptr); }
    FdE* f = fd_of_file(fp); io_call(f ? f->ch : -1); file_ok(fp, "fflush");
    return real_fflush(fp);
}
int fileno(FILE* fp)
{
    if (!sim()) return real_fileno(fp);
    sync_point();
    FdE* f = fd_of_file(fp); if (!f) return real_fileno(fp);
    file_ok(fp, "fileno");
    return FDBASE + (int)(f - fdt);
}
char* fgets(char* b, int n, FILE* fp)
{
    if (!sim()) return real_fgets(b, n, fp);
    FdE* f = fd_of_file(fp); io_call(f ? f->ch : -1); file_ok(fp, "fgets");
    return real_fgets(b, n, fp);
}
int fputs(const char* s, FILE* fp)
{
    if (!sim()) return real_fputs(s, fp);
    FdE* f = fd_of_file(fp); io_call(f ? f->ch : -1); file_ok(fp, "fputs"); hb_range(s, strlen(s), false);
    return real_fputs(s, fp);
}
int fputc(int c, FILE* fp)
{
    if (!sim()) return real_fputc(c, fp);
    FdE* f = fd_of_file(fp); io_call(f ? f->ch : -1); file_ok(fp, "fputc");
    return real_fputc(c, fp);
}
int vfprintf_sim(FILE* fp, const char* fmt, va_list ap)
{
    FdE* f = fd_of_file(fp); io_call(f ? f->ch : -1); file_ok(fp, "fprintf");
    if (hb_on)
    {
        bool only_s = true; for (const char* p = fmt; *p; p++) if (*p == '%') { p++; if (*p != 's') only_s = false; if (!*p) break; }
        if (only_s) { va_list b; va_copy(b, ap); for (const char* p = fmt; *p; p++) if (*p == '%') { p++; const char* s = va_arg(b, const char*); if (s) hb_range(s, strlen(s) + 1, false); } va_end(b); }
    }
    return vfprintf(fp, fmt, ap);
}
int printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim() ? vfprintf_sim(stdout, fmt, ap) : vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int fprintf(FILE* fp, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim() ? vfprintf_sim(fp, fmt, ap) : vfprintf(fp, fmt, ap); va_end(ap); return r; }
int puts(const char* s) { if (sim()) { io_call(-1); hb_range(s, strlen(s) + 1, false); } int r = (fputs_unlocked)(s, stdout); fputc_unlocked('\n', stdout); return r; }
int snprintf(char* d, size_t n, const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt); int r = vsnprintf(d, n, fmt, ap); va_end(ap);
    if (sim() && r >= 0 && n) { tick(self); hb_range(d, (size_t)r < n ? (size_t)r + 1 : n, true); }
    return r;
}
int fstat(int fd, struct stat* st)
{
    if (!sim()) return real_fstat(fd, st);
    if (fd < FDBASE) return real_fstat(fd, st);
    FdE* f = getfd(fd, "fstat"); if (!f) return -1;
    io_call(f->ch);
    if (f->ch != -2 && fault_hit(FK_FSTAT, f->ch)) { errno = EIO; return -1; }
    memset(st, 0, sizeof *st); Inode* i = &A->ino[f->ino]; st->st_size = i->data.n; st->st_mtime = i->mtime; st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_ino = (ino_t)i->id; st->st_blksize = 4096;
    return 0;
}
int stat(const char* p, struct stat* st)
{
    if (!sim()) return real_stat(p, st);
    io_call(chan_of_path(p));
    char n[280]; norm(p, n, sizeof n); memset(st, 0, sizeof *st);
    if (dir_exists(n)) { st->st_mode = S_IFDIR | 0755; st->st_nlink = 2; return 0; }
    Inode* i = lookup(n); if (!i) { errno = ENOENT; return -1; }
    st->st_size = i->data.n; st->st_mtime = i->mtime; st->st_mode = S_IFREG | 0644; st->st_nlink = 1; return 0;
}
int lstat(const char* p, struct stat* st) { if (!sim()) return real_lstat(p, st); return stat(p, st); }
int access(const char* p, int m)
{
    if (!sim()) return real_access(p, m);
    io_call(chan_of_path(p));
    char n[280]; norm(p, n, sizeof n);
    if (dir_exists(n) || lookup(n)) return 0;
    errno = ENOENT; return -1;
}
DIR* opendir(const char* p)
{
    if (!sim()) return real_opendir(p);
    io_call(-1);
    char n[280]; norm(p, n, sizeof n);
    if (fault_hit(FK_OPENDIR, -1)) { errno = EMFILE; return nullptr; }
    if (!dir_exists(n)) { errno = ENOENT; return nullptr; }
    int fd = newfd(3); evs(EV_OPEN, n, fd - FDBASE, 0, 0); //an open directory holds a descriptor
    return (DIR*)&fdt[fd - FDBASE];
}
int closedir(DIR* d)
{
    if (!sim()) return real_closedir(d);
    sync_point();
    size_t i = (size_t)((FdE*)d - fdt);
    if (i >= (size_t)nfd || !fdt[i].open || fdt[i].kind != 3) { evs(EV_BADUSE, "closedir of a directory that is not open"); return -1; }
    fdt[i].open = 0; evt(EV_CLOSE, (i64)i, 0, 0); return 0;
}
struct dirent* readdir(DIR* d) { if (!sim()) return real_readdir(d); sync_point(); return nullptr; }
int mkdir(const char* p, mode_t m)
{
    if (!sim()) return real_mkdir(p, m);
    io_call(-1);
    char n[280]; norm(p, n, sizeof n);
    if (fault_hit(FK_MKDIR, -1)) { errno = EACCES; return -1; }
    if (dir_exists(n) || lookup(n)) { errno = EEXIST; return -1; }
    if (!parent_ok(n)) { errno = ENOENT; return -1; }
    mkino(n, true); evs(EV_MKDIR, n); return 0;
}
int rename(const char* o, const char* w)
{
    if (!sim()) return real_rename(o, w);
    io_call(chan_of_path(o));
    char n[280], m[280]; norm(o, n, sizeof n); norm(w, m, sizeof m);
    long v = 0;
    if (fault_hit(FK_RENAME, chan_of_path(n), &v)) { errno = v ? (int)v : EACCES; return -1; }
    Inode* i = lookup(n); if (!i) { errno = ENOENT; return -1; }
    if (!parent_ok(m)) { errno = ENOENT; return -1; }
    if (!strcmp(n, m)) return 0;
    Inode* j = lookup(m);
    if (j) { j->cur_path[0] = 0; j->links = 0; }
    rt_fmt(i->cur_path, sizeof i->cur_path, "%s", m);
    char b[600]; rt_fmt(b, sizeof b, "%s\n%s", n, m); evs(EV_RENAME, b, 0, i->id, j ? j->id : -1);
    A->probe[PR_ROTATE]++;
    return 0;
}
static int sim_unlink(const char* p)
{
    io_call(chan_of_path(p));
    char n[280]; norm(p, n, sizeof n);
    if (fault_hit(FK_UNLINK, chan_of_path(n))) { errno = EACCES; return -1; }
    Inode* i = lookup(n); if (!i) { errno = ENOENT; return -1; }
    i->cur_path[0] = 0; i->links = 0; evs(EV_UNLINK, n, 0, i->id);
    return 0;
}
int remove(const char* p) { if (!sim()) return real_remove(p); return sim_unlink(p); }
int unlink(const char* p) { if (!sim()) return real_unlink(p); return sim_unlink(p); }
int rmdir(const char* p) { if (!sim()) return real_rmdir(p); errno = EPERM; return -1; }
int fsync(int fd)
{
    if (!sim() || fd < FDBASE) return real_fsync(fd);
    FdE* f = getfd(fd, "fsync"); if (!f) return -1;
    io_call(f->ch);
    if (!f->open) { getfd(fd, "fsync"); return -1; }
    if (fault_hit(FK_FSYNC, f->ch)) { errno = EIO; return -1; }
    return 0;
}
int fdatasync(int fd) { if (!sim() || fd < FDBASE) return real_fdatasync(fd); return fsync(fd); }
int posix_fadvise(int fd, off_t a, off_t b, int c) { if (!sim() || fd < FDBASE) return real_posix_fadvise(fd, a, b, c); sync_point(); getfd(fd, "posix_fadvise"); return 0; }
int ftruncate(int fd, off_t n)
{
    if (!sim() || fd < FDBASE) return real_ftruncate(fd, n);
    FdE* f = getfd(fd, "ftruncate"); if (!f) return -1;
    Inode* i = &A->ino[f->ino]; evs(EV_UNLINK, "truncate", 1, i->id); if ((u64)n < i->data.n) i->data.n = (u32)n; return 0;
}
int open(const char* p, int fl, ...)
{
    va_list ap; va_start(ap, fl); int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    if (!sim()) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
    io_call(chan_of_path(p));
    int acc = fl & O_ACCMODE;
    return kopen(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_APPEND, fl & O_TRUNC, fl & O_CREAT);
}
ssize_t write(int fd, const void* p, size_t n)
{
    if (!sim() || fd < FDBASE) { if (sim() && (fd == 1 || fd == 2)) { io_call(-1); hb_range(p, n, false); return fd == 1 ? scrw(nullptr, (const char*)p, n) : (ssize_t)n; } return real_write(fd, p, n); }
    FdE* f = getfd(fd, "write"); if (!f) return -1;
    io_call(f->ch); hb_range(p, n, false);
    if (!f->open) { getfd(fd, "write"); return -1; }
    return kwrite1(f, (const char*)p, n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (!sim()) return (ssize_t)syscall(SYS_writev, fd, v, c);
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    char* b = (char*)malloc(n + 1); if (!b) { errno = ENOMEM; return -1; }
    size_t o = 0; for (int i = 0; i < c; i++) { hb_range(v[i].iov_base, v[i].iov_len, false); memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    ssize_t r = write(fd, b, n); int e = errno; free(b); errno = e; return r;
}
off_t lseek(int fd, off_t o, int w)
{
    if (!sim() || fd < FDBASE) return (off_t)syscall(SYS_lseek, fd, o, w);
    sync_point(); FdE* f = getfd(fd, "lseek"); if (!f) return -1;
    off64_t p = o; if (f->kind != 1 || cs(f, &p, w)) { errno = EINVAL; return -1; } return (off_t)p;
}
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int openat(int d, const char* p, int fl, ...)
{
    va_list ap; va_start(ap, fl); int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    if (!sim()) return (int)syscall(SYS_openat, d, p, fl, mode);
    return open(p, fl, mode);
}
ssize_t read(int fd, void* p, size_t n)
{
    if (!sim() || fd < FDBASE) return real_read(fd, p, n);
    FdE* f = getfd(fd, "read"); if (!f) return -1;
    io_call(f->ch); return cr(f, (char*)p, n);
}
static SockQ* portq(u32 port) { for (int i = 0; i < 64; i++) if (A->port[i].used && A->port[i].port == port) return &A->port[i]; return nullptr; }
int close(int fd)
{
    if (!sim() || fd < FDBASE) { if (sim() && fd >= 0 && fd < 3) { evs(EV_BADUSE, "close of a standard descriptor"); return 0; } return real_close(fd); }
    sync_point();
    FdE* f = getfd(fd, "close"); if (!f) return -1;
    f->open = 0;
    if (f->kind == 2) { evt(EV_SOCKCLOSE, fd - FDBASE); if (f->bport) { SockQ* q = portq(f->bport); if (q) q->used = 0; } }
    else evt(EV_CLOSE, fd - FDBASE, f->ino, f->wr ? 1 : 0);
    return 0;
}
// -------------------------------------------------------------- network
int socket(int d, int t, int p)
{
    if (!sim()) return real_socket(d, t, p);
    io_call(-1); long v = 0;
    if (fault_hit(FK_SOCKET, -1, &v)) { errno = v ? (int)v : EMFILE; return -1; }
    int fd = newfd(2); if (t & SOCK_NONBLOCK) fdt[fd - FDBASE].off = O_NONBLOCK; evt(EV_SOCK, fd - FDBASE); return fd;
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (!sim() || fd < FDBASE) return (int)syscall(SYS_fcntl, fd, cmd, a);
    sync_point(); FdE* f = getfd(fd, "fcntl"); if (!f) return -1;
    if (cmd == F_SETFL && fault_hit(FK_FCNTL, -1)) { errno = EINVAL; return -1; }
    if (cmd == F_SETFL) { f->off = (u32)a; return 0; }
    if (cmd == F_GETFL) return (int)f->off | O_RDWR;
    return 0;
}
int ioctl(int fd, unsigned long req, ...)
{
    va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
    if (!sim() || fd < FDBASE) return (int)syscall(SYS_ioctl, fd, req, a);
    sync_point(); FdE* f = getfd(fd, "ioctl"); if (!f) return -1;
    if (req == FIONBIO) { if (fault_hit(FK_FCNTL, -1)) { errno = EINVAL; return -1; } f->off = *(int*)a ? f->off | O_NONBLOCK : f->off & ~(u32)O_NONBLOCK; return 0; }
    if (req == FIONREAD) { SockQ* q = f->bport ? portq(f->bport) : nullptr; *(int*)a = q && q->head != q->tail ? (int)q->q[q->head].n : 0; return 0; }
    errno = ENOTTY; return -1;
}
static bool sock_ready(FdE* f) { if (f->kind != 2) return true; SockQ* q = f->bport ? portq(f->bport) : nullptr; return q && (q->head != q->tail || A->mono < q->flood_until); }
static int sim_poll(struct pollfd* v, nfds_t n, i64 ns)
{
    for (i64 end = A->mono + ns;;)
    {
        sync_point(); int k = 0;
        for (nfds_t i = 0; i < n; i++)
        {
            v[i].revents = 0; if (v[i].fd < 0) continue;
            FdE* f = getfd(v[i].fd, "poll"); if (!f) { v[i].revents = POLLNVAL; k++; continue; }
            if (sock_ready(f)) v[i].revents |= (short)(v[i].events & POLLIN);
            v[i].revents |= (short)(v[i].events & POLLOUT);
            if (v[i].revents) k++;
        }
        if (k || (ns >= 0 && A->mono >= end)) return k;
        sim_sleep(ns >= 0 && end - A->mono < 1000000 ? end - A->mono : 1000000);
    }
}
int poll(struct pollfd* v, nfds_t n, int ms)
{
    if (!sim() || n == 0 || v[0].fd < FDBASE) { if (sim() && ms > 0) { sim_sleep(ms * 1000000LL); return 0; } return (int)syscall(SYS_poll, v, n, ms); }
    return sim_poll(v, n, ms < 0 ? -1 : ms * 1000000LL);
}
int ppoll(struct pollfd* v, nfds_t n, const struct timespec* t, const sigset_t* m) { (void)m; return poll(v, n, t ? (int)(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1); }
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t)
{
    if (!sim()) return (int)syscall(SYS_select, n, r, w, e, t);
    i64 ns = t ? t->tv_sec * 1000000000LL + t->tv_usec * 1000LL : -1;
    std::vector<struct pollfd> v;
    for (int fd = 0; fd < n && fd < FD_SETSIZE; fd++)
    {
        struct pollfd p = { fd, 0, 0 };
        if (r && FD_ISSET(fd, r)) p.events |= POLLIN;
        if (w && FD_ISSET(fd, w)) p.events |= POLLOUT;
        if (p.events) v.push_back(p);
    }
    if (e) FD_ZERO(e);
    if (v.empty()) { if (ns > 0) sim_sleep(ns); return 0; }
    int k = 0; sim_poll(v.data(), v.size(), ns);
    for (auto& p : v) { if (r && (p.events & POLLIN)) { if (p.revents & POLLIN) k++; else FD_CLR(p.fd, r); } if (w && (p.events & POLLOUT)) { if (p.revents & POLLOUT) k++; else FD_CLR(p.fd, w); } }
    return k;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, a); }
int setsockopt(int fd, int, int, const void*, socklen_t) { if (sim()) { sync_point(); getfd(fd, "setsockopt"); } return 0; }
int bind(int fd, const struct sockaddr* sa, socklen_t n)
{
    if (!sim()) return real_bind(fd, sa, n);
    io_call(-1); FdE* f = getfd(fd, "bind"); if (!f) return -1;
    const struct sockaddr_in* s = (const struct sockaddr_in*)sa; u32 port = ntohs(s->sin_port);
    if (fault_hit(FK_BIND, -1)) { errno = EADDRINUSE; return -1; }
    if (portq(port)) { errno = EADDRINUSE; return -1; }
    for (int i = 0; i < 64; i++) if (!A->port[i].used) { SockQ& q = A->port[i]; q.used = 1; q.port = port; q.ip = s->sin_addr.s_addr; q.head = q.tail = 0; q.flood_until = 0; f->bport = port; return 0; }
    errno = ENOMEM; return -1;
}
ssize_t sendto(int fd, const void* p, size_t n, int fl, const struct sockaddr* sa, socklen_t sl)
{
    if (!sim()) return real_sendto(fd, p, n, fl, sa, sl);
    struct sockaddr_in peer;
    if (!sa)
    {
        sync_point(); FdE* c = getfd(fd, "sendto"); if (!c) return -1;
        if (!c->peer_port) { errno = EDESTADDRREQ; return -1; }
        memset(&peer, 0, sizeof(peer)); peer.sin_family = AF_INET; peer.sin_port = htons((unsigned short)c->peer_port); peer.sin_addr.s_addr = c->peer_ip; sa = (const struct sockaddr*)&peer;
    }
    const struct sockaddr_in* s = (const struct sockaddr_in*)sa; u32 port = ntohs(s->sin_port);
    int ch = port % 10000 >= 8000 && port % 10000 < 8200 ? (int)(port % 10000 - 8000) / 32 : -1;
    io_call(ch); FdE* f = getfd(fd, "sendto"); if (!f) return -1;
    hb_range(p, n, false);
    long v = 0;
    if (!(f->off & O_NONBLOCK) && !(fl & MSG_DONTWAIT) && fault_hit(FK_SENDTO, ch, &v))
    {
        if (v == EAGAIN || v == 0) { sim_sleep(5000000000LL); }   // a blocking socket with a full buffer blocks
        else { evt(EV_SEND, fd - FDBASE, s->sin_addr.s_addr, port, (i64)n, 0, (const char*)p, n); errno = (int)v; return -1; }
    }
    else if (fault_hit(FK_SENDTO, ch, &v)) { evt(EV_SEND, fd - FDBASE, s->sin_addr.s_addr, port, (i64)n, 0, (const char*)p, n); errno = v ? (int)v : EAGAIN; return -1; }
    evt(EV_SEND, fd - FDBASE, s->sin_addr.s_addr, port, (i64)n, 1, (const char*)p, n);
    return (ssize_t)n;
}
int connect(int fd, const struct sockaddr* sa, socklen_t n)
{
    if (!sim() || fd < FDBASE) return (int)syscall(SYS_connect, fd, sa, n);
    sync_point(); FdE* f = getfd(fd, "connect"); if (!f) return -1;
    const struct sockaddr_in* s = (const struct sockaddr_in*)sa;
    if (s->sin_family == AF_UNSPEC) f->peer_port = 0; else { f->peer_port = ntohs(s->sin_port); f->peer_ip = s->sin_addr.s_addr; }
    return 0;
}
ssize_t send(int fd, const void* p, size_t n, int fl) { if (!sim() || fd < FDBASE) return (ssize_t)syscall(SYS_sendto, fd, p, n, fl, nullptr, 0); return sendto(fd, p, n, fl, nullptr, 0); }
ssize_t recvfrom(int fd, void* p, size_t n, int fl, struct sockaddr* sa, socklen_t* sl)
{
    if (!sim()) return real_recvfrom(fd, p, n, fl, sa, sl);
    sync_point(); FdE* f = getfd(fd, "recvfrom"); if (!f) return -1;
    long v = 0;
    if (fault_hit(FK_RECV, -1, &v)) { errno = v ? (int)v : EINTR; return -1; }
    SockQ* q = f->bport ? portq(f->bport) : nullptr;
    if (q && q->head == q->tail && A->mono < q->flood_until)
    {
        sim_sleep(q->flood_us * 1000LL);
        size_t k = q->flood_n < n ? q->flood_n : n; memcpy(p, q->flood_p, k); hb_range(p, k, true);
        evt(EV_RECV, fd - FDBASE, 0, f->bport, q->flood_n, 0, q->flood_p, q->flood_n);
        return (ssize_t)k;
    }
    if (!q || q->head == q->tail)
    {
        if (!(f->off & O_NONBLOCK) && !(fl & MSG_DONTWAIT)) { for (int k = 0; k < 200 && (!q || q->head == q->tail); k++) sim_sleep(1000000000LL); }
        if (!q || q->head == q->tail) { errno = EAGAIN; return -1; }
    }
    auto& d = q->q[q->head]; q->head = (q->head + 1) % 256;
    size_t k = d.n < n ? d.n : n; memcpy(p, d.p, k); hb_range(p, k, true);
    evt(EV_RECV, fd - FDBASE, 0, f->bport, d.n, 0, d.p, d.n);
    return (ssize_t)k;
}
ssize_t recv(int fd, void* p, size_t n, int fl) { if (!sim()) return real_recvfrom(fd, p, n, fl, nullptr, nullptr); return recvfrom(fd, p, n, fl, nullptr, nullptr); }
struct hostent* gethostbyname(const char*) { return nullptr; }

// -------------------------------------------------------------- shared memory
struct At { void* a; int seg; }; static At ats[16]; static int nats;
int shmget(key_t key, size_t size, int flg)
{
    if (!sim()) return real_shmget(key, size, flg);
    io_call(-1); long v = 0;
    if (fault_hit(FK_SHMGET, -1, &v)) { errno = v ? (int)v : EACCES; return -1; }
    for (int i = 0; i < A->nshm; i++) if (A->shm[i].used && A->shm[i].key == key)
    {
        if ((flg & IPC_CREAT) && (flg & IPC_EXCL)) { errno = EEXIST; return -1; }
        if (size > A->shm[i].size) { errno = EINVAL; return -1; }
        evt(EV_SHM, 0, A->shm[i].id); return A->shm[i].id;
    }
    if (!(flg & IPC_CREAT)) { errno = ENOENT; return -1; }
    if (size == 0) { errno = EINVAL; return -1; }
    u64 sz = (size + 4095) & ~4095ull;
    if (A->nshm >= 8 || A->shm_used + sz > POOL_SIZE) { errno = ENOSPC; return -1; }
    ShmSeg& s = A->shm[A->nshm]; s.used = 1; s.removed = 0; s.key = key; s.size = size; s.off = A->shm_used; s.id = 700 + A->nshm; s.nattach = 0; s.cpid = 4242 + L; s.lpid = 0; A->nshm++; A->shm_used += sz;
    fallocate(g_pool_fd, FALLOC_FL_PUNCH_HOLE | FALLOC_FL_KEEP_SIZE, (off_t)s.off, (off_t)sz);
    evt(EV_SHM, 4, s.id, 0, (i64)size);
    return s.id;
}
void* shmat(int id, const void* hint, int flg)
{
    if (!sim()) return real_shmat(id, hint, flg);
    io_call(-1);
    if (fault_hit(FK_SHMAT, -1)) { errno = ENOMEM; return (void*)-1; }
    for (int i = 0; i < A->nshm; i++) if (A->shm[i].used && A->shm[i].id == id)
    {
        ShmSeg& s = A->shm[i];
        char* at = (char*)0x600000000000ull + (u64)L * 0x100000000ull + (u64)nats * 0x10000000ull;
        void* a = mmap(at, s.size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, g_pool_fd, (off_t)s.off);
        if (a == MAP_FAILED) fatal(FC_HARNESS, "shmat mmap");
        if (nats < 16) { ats[nats].a = a; ats[nats].seg = i; nats++; }
        s.nattach++; s.lpid = 4242 + L; evt(EV_SHM, 1, id); return a;
    }
    errno = EINVAL; return (void*)-1;
}
int shmdt(const void* a)
{
    if (!sim()) return real_shmdt(a);
    io_call(-1);
    for (int i = 0; i < nats; i++) if (ats[i].a == a && ats[i].seg >= 0)
    {
        ShmSeg& s = A->shm[ats[i].seg]; s.nattach--; s.lpid = 4242 + L; ats[i].seg = -1;
        munmap((void*)a, s.size); evt(EV_SHM, 2, s.id); return 0;
    }
    evs(EV_BADUSE, "shmdt of an address that is not attached"); errno = EINVAL; return -1;
}
int shmctl(int id, int cmd, struct shmid_ds* ds)
{
    if (!sim()) return real_shmctl(id, cmd, ds);
    io_call(-1);
    for (int i = 0; i < A->nshm; i++) if (A->shm[i].used && A->shm[i].id == id)
    {
        ShmSeg& s = A->shm[i];
        if (cmd == IPC_RMID) { s.used = 0; s.removed = 1; evt(EV_SHM, 3, id); return 0; }
        if (cmd == IPC_STAT) { if (ds) { memset(ds, 0, sizeof *ds); ds->shm_segsz = s.size; ds->shm_cpid = s.cpid; ds->shm_lpid = s.lpid; ds->shm_perm.mode = 0600; ds->shm_perm.uid = ds->shm_perm.cuid = getuid(); ds->shm_nattch = (shmatt_t)s.nattach; } return 0; }
        return 0;
    }
    evt(EV_SHM, 5, id); errno = EINVAL; return -1;
}
} // extern C

// -------------------------------------------------------------- driver
int g_text_bin;
std::string record_text(int tid, int seq, int life, long len)
{
    char h[64]; int n = rt_fmt(h, sizeof h, "@%d.%d.%d.%ld:", life, tid, seq, len);
    std::string s(h, (size_t)n);
    char f[40]; int fn = rt_fmt(f, sizeof f, "~%d.%d.%d", life, tid, seq);
    if (g_text_bin && seq % 2) fn += rt_fmt(f + fn, 8, "%s", "%s%n\t\xfe");
    if (g_text_bin == 2 && seq % 2) f[fn++] = '\0';
    int k = 0;
    while ((long)s.size() < len - 1) s.push_back(f[k++ % fn]);
    s.push_back('$');
    return s;
}
static void run_nested(Th* t);
extern "C" {
void drv_pause(void)
{
    Th* t = self; if (!t) return;
    sync_point();
    if (t->cur_log_pause_ms) sim_sleep((i64)t->cur_log_pause_ms * 1000000LL);
    run_nested(t);
}
void drv_hook(const char* content, int len, int ch, int pri, int cat, long long id)
{
    evt(EV_HOOK, ch, pri, cat, len, id, content, (size_t)(len > 0 ? len : 0));
    // complete text as a C string too
    if (len >= 0 && (content[len] || (g_text_bin < 2 && (size_t)len != strnlen(content, (size_t)len + 1)))) evs(EV_BADUSE, "hook content is not terminated at its length");
}
int drv_hook_cat(int cat) { return g_hook_mode == 3 ? cat ^ 1 : cat; }
long long drv_hook_id(long long id) { return g_hook_mode == 3 ? id ^ 3 : id; }
int drv_hook_target(void) { return g_hook_mode >= 2 ? g_hook_target : -1; }
}
void drv_transmitted(int ch, const char* content, int len, int cat, long long id) { evt(EV_XMIT, ch, 0, cat, len, id, content, (size_t)len); }

static void put_cfg(const std::string& text, i64 mtime, int mode, long partial)
{
    Inode* i = lookup("log.yaml");
    if (mode == 2) { if (i) { i->cur_path[0] = 0; i->links = 0; } return; }
    if (mode == 3) { if (i) i->bad = 1; return; }
    if (mode == 0 || !i)
    {
        if (i) { i->cur_path[0] = 0; i->links = 0; }
        i = mkino("log.yaml", false);
    }
    i->bad = 0; i->data.n = 0;
    size_t n = text.size(); if (partial > 0 && (size_t)partial < n) n = (size_t)partial;
    buf_append(i->data, text.data(), n);
    i->mtime = mtime;
}
static i64 cfg_mtime = 1000000;
static void* driver_thread(void* arg);
static int op_exec(Th* t, const Op& o, int idx)
{
    switch (o.kind)
    {
    case OP_LOG:
    {
        std::string text = record_text(t->id, idx, L, o.a[6]);
        // the text lives in ordinary memory of the caller
        t->cur_log_pause_ms = (u32)o.a[8];
        sut_log((int)o.a[0], (int)o.a[1], (int)o.a[2], o.a[3], (unsigned)o.a[4], (int)o.a[5], text.c_str(), (int)text.size(), (int)(o.a[7] & 7));
        return 0;
    }
    case OP_SLEEP: case OP_QUIESCE: sim_sleep(o.a[0] * 1000000LL); return 0;
    case OP_START:
    {
        int r = o.a[0] == 0 ? sut_start_text(P->cfg[(size_t)o.a[1]].c_str()) : sut_start_file(o.a[0] == 1 ? "log.yaml" : "missing.yaml");
        if (r == 0) for (int c = 0; c < sut_max_channels(); c++) hb_register(c);
        return r;
    }
    case OP_STOP: return sut_stop();
    case OP_SETCH: sut_setch((int)o.a[0], (int)o.a[1], o.a[2]); return 0;
    case OP_SETDEV: sut_setdev((int)o.a[0], (int)o.a[1], (int)o.a[2], o.a[3]); return 0;
    case OP_BATCHCH: sut_batchch((int)o.a[0], o.a[1]); return 0;
    case OP_BATCHDEV: sut_batchdev((int)o.a[0], (int)o.a[1], o.a[2]); return 0;
    case OP_WRITECFG:
    {
        sync_point();
        cfg_mtime += o.a[1];
        put_cfg(P->cfg[(size_t)o.a[0]], cfg_mtime, (int)o.a[2], o.a[3]);
        evt(EV_CFGFILE, o.a[0], o.a[2], cfg_mtime, o.a[3]);
        return 0;
    }
    case OP_CLOCK: step_clock(o.a[0]); return 0;
    case OP_HOOK: g_hook_mode = (int)o.a[0]; g_hook_target = (int)o.a[1]; sut_hook(o.a[0] != 0); return 0;
    case OP_COUNTERS:
        for (int c = 0; c < o.a[0]; c++)
        {
            for (int w = 0; w < 17; w++) { if (w >= 6 && w < 10) continue; long long v = sut_chlog(c, w); evt(EV_COUNTER, c, -1, w, v); }
            for (int d = 0; d < o.a[1]; d++) for (int w = 0; w < 17; w++) { if (w >= 3 && w < 10) continue; long long v = sut_devlog(c, d, w); evt(EV_COUNTER, c, d, w, v); }
        }
        return 0;
    case OP_DGRAM:
    {
        sync_point();
        for (int k = 0; k < o.a[3]; k++)
        {
            u32 port = 9000 + (u32)o.a[0] * 32 + (u32)o.a[1];
            std::string s = o.a[2] > 0 ? record_text(t->id, idx * 100 + k, L, o.a[2]) : std::string();
            if (o.a[4] == 0 && s.size()) s.push_back('\n');
            char* p = (char*)arena_alloc(s.size() + 1); memcpy(p, s.data(), s.size());
            SockQ* q = portq(port);   // no scheduling point from here to the end of the insertion
            if (!q) { evt(EV_DGRAM, port, 1, 0, (i64)s.size(), 0, s.data(), s.size()); continue; }
            int nx = (q->tail + 1) % 256; if (nx == q->head) continue;
            q->q[q->tail].p = p; q->q[q->tail].n = (u32)s.size(); q->tail = nx;
            evt(EV_DGRAM, port, 0, 0, (i64)s.size(), 0, s.data(), s.size());
        }
        return 0;
    }
    case OP_FLOOD:
    {
        SockQ* q = portq(9000 + (u32)o.a[0] * 32 + (u32)o.a[1]); if (!q) return 0;
        std::string s = record_text(t->id, idx * 100, L, 40) + "\n"; char* p = (char*)arena_alloc(s.size() + 1); memcpy(p, s.data(), s.size());
        q->flood_p = p; q->flood_n = (u32)s.size(); q->flood_us = o.a[3]; q->flood_until = A->mono + o.a[2] * 1000000LL;
        return 0;
    }
    case OP_FAULTWIN: if (nwins < 16) { wins[nwins].kind = (int)o.a[0]; wins[nwins].until = o.a[1] < 0 ? INT64_MAX : A->mono + o.a[1] * 1000000LL; wins[nwins].ch = o.a[2]; wins[nwins].p1 = o.a[3]; nwins++; } return 0;
    case OP_FAULTEND: for (int i = 0; i < nwins; i++) if (wins[i].kind == o.a[0] || o.a[0] == 0) wins[i].until = 0;
        for (size_t i = 0; i < P->faults.size() && i < 64; i++) if (P->faults[i].life == L && (P->faults[i].kind == o.a[0] || o.a[0] == 0) && P->faults[i].kind != FK_CRASH) { fs_[i].fired = true; fs_[i].until = 0; }
        return 0;
    case OP_SPAWN:
    {
        int id = (int)o.a[0];
        Th* n = new_thread(driver_thread, (void*)(intptr_t)id, true, id);
        if (start_real(n) != 0) fatal(FC_HARNESS, "real pthread_create failed");
        if (nT > A->max_threads) A->max_threads = nT;
        return 0;
    }
    case OP_JOIN:
    {
        Th* n = &T[o.a[0]];
        if (n->state == TS_FREE) return 0;
        while (n->state != TS_DONE) block_on(n);
        hb_acquire(n);
        return 0;
    }
    case OP_WAITSEQ: for (int k = 0; k < 20000 && T[o.a[0]].nops_done < o.a[1] && T[o.a[0]].state != TS_DONE; k++) sim_sleep(1000000); return 0;
    case OP_AGE:
    {
        // one step as far as the scheduler and a kill are concerned: it is not the code under test
        auto me = self; self = nullptr;
        for (int i = 0; i < sut_max_channels(); i++) A->probe[PR_AGED] += sut_age(i, o.a[0]);
        self = me;
        return 0;
    }
    case OP_EXITLIFE: if (o.a[0] == 1) do_crash(); exit(0);
    default: return 0;
    }
}
// a statement executed while another one of the same thread is being composed
static void run_nested(Th* t)
{
    int i = t->nest_op; if (i < 0) return;
    t->nest_op = -1; t->nested_done = true;
    u32 pause = t->cur_log_pause_ms; int outer = t->opidx;
    const Op& o = P->lives[L].threads[t->id].ops[(size_t)i];
    t->opidx = i; t->in_nested = true; evt(EV_INV, (i64)i);
    sync_point();
    op_exec(t, o, (int)o.a[9]);
    evt(EV_RET, (i64)i, 0); t->opidx = outer; t->in_nested = false;
    t->cur_log_pause_ms = pause;
    sync_point();
}
static void* driver_thread(void* arg)
{
    int id = (int)(intptr_t)arg;
    Th* t = self;
    const std::vector<Op>& ops = P->lives[L].threads[id].ops;
    for (size_t i = 0; i < ops.size(); i++)
    {
        const Op& o = ops[i];
        if (o.kind == OP_NOP) { t->nops_done = (int)i + 1; continue; }
        t->opidx = (int)i; t->epoch = (int)(o.a[9] + 1) * 64; t->pt = 0;
        if (o.kind == OP_LOG && crash_log && ++logs_begun == crash_log) crash_step = steps + crash_in;
        compute_next_stop();
        evt(EV_INV, (i64)i); t->in_op = true;
        t->nested_done = false; t->nest_op = o.kind == OP_LOG && o.a[7] >= 8 && i + 1 < ops.size() && ops[i + 1].kind == OP_LOG && ops[i + 1].a[7] < 8 ? (int)i + 1 : -1;
        sync_point();
        int r = op_exec(t, o, (int)o.a[9]);
        t->in_op = false; evt(EV_RET, (i64)i, r);
        t->nest_op = -1; if (t->nested_done) i++;
        t->nops_done = (int)i + 1;
        sync_point();
    }
    return nullptr;
}
static void at_life_exit()
{
    // what libc does at the end of exit(): flush all streams
    real_fflush(nullptr);
    for (int i = 0; i < nats; i++) if (ats[i].seg >= 0) A->shm[ats[i].seg].nattach--;
    evt(EV_LIFE, L, 1);
    A->life_end = 1; A->life_points[L & 7] = steps;
    _exit(0);
}
static void on_signal(int sig)
{
    if (sig == SIGALRM) fatal(FC_TIMEOUT, "real-time guard");
    fatal(sig == SIGABRT ? FC_ABORT : FC_SEGV, "signal %d (%s) in %s %d%s", sig, sig == SIGABRT ? "abort/terminate" : "memory fault", self && !self->driver ? "writer thread" : "client thread", self ? self->id : -1,
        self && self->in_op && self->opidx >= 0 ? (std::string(" during ") + OP_NAMES[P->lives[L].threads[self->id].ops[self->opidx].kind]).c_str() : "");
}
static u64 fnv(const void* p, size_t n) { u64 h = 1469598103934665603ull; const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }
// parent side, after the run: is the segment that another program left behind still as it was?
bool rt_foreign_intact()
{
    ShmSeg& s = A->shm[0]; if (!s.used || s.removed) return false;
    void* m = mmap(nullptr, s.size, PROT_READ, MAP_SHARED, g_pool_fd, (off_t)s.off); if (m == MAP_FAILED) return true;
    bool ok = fnv(m, s.size) == A->foreign_hash; munmap(m, s.size); return ok;
}
static char altstack[64 * 1024];
[[noreturn]] void run_life(const Plan& p, int life)
{
    P = &p; L = life; g_text_bin = (int)p.k("bin", 0); A->life = life; A->life_end = 0;
    g_life_on = true;
    memset((void*)T, 0, sizeof T);
    sv_tab = (SyncVar*)calloc(NSV, sizeof(SyncVar));
    tick_ns = p.k("tick_ns", 1000);
    step_cap = (u64)p.k("step_cap", 12000000);
    hb_on = (int)p.k("hb", 0);
    limit_ns = A->mono + p.k("limit_ms", 120000) * 1000000LL;
    dirty_byte = (int)p.k("dirty", 0xCD);
    sched_mode = p.explicit_sched ? 2 : (int)p.k("sched", 0);
    rng = Rng(p.seed * 7919 + (u64)life * 104729 + 17);
    p_sync = (double)p.k("p_sync_ppm", 100000) / 1e6; p_plain = (double)p.k("p_plain_ppm", 1000) / 1e6;
    pct_n = 0; pct_low = 0;
    if (sched_mode == 1)
    {
        pct_n = (int)p.k("pct_d", 3); if (pct_n > 16) pct_n = 16;
        u64 span = (u64)p.k("pct_span", 4000);
        for (int i = 0; i < pct_n; i++) pct_change[i] = 1 + rng.below(span);
    }
    crash_step = crash_sync = crash_io = crash_log = crash_in = logs_begun = 0;
    for (auto& f : p.faults) if (f.kind == FK_CRASH && f.life == life)
    {
        if (f.p1 == 0) crash_step = (u64)f.nth; else if (f.p1 == 1) crash_sync = (u64)f.nth; else if (f.p1 == 3) { crash_log = (u64)f.nth; crash_in = (u64)f.p2; } else crash_io = (u64)f.nth;
    }
    steps = 0;
    if (sched_mode == 0) { double u = rng.uni() + 1e-12; double g = p_plain > 0 ? __builtin_log(u) / __builtin_log1p(-p_plain) : 1e15; next_plain = 1 + (u64)(g > 1e15 ? 1e15 : g); }
    for (int i = 0; i < MAXT; i++) { rsw[i] = nullptr; nrsw[i] = crsw[i] = 0; }
    if (sched_mode == 2)
    {
        for (auto& s : p.sw) if (s.life == life && s.tid < MAXT) nrsw[s.tid]++;
        for (int i = 0; i < MAXT; i++) if (nrsw[i]) { rsw[i] = (RSw*)calloc((size_t)nrsw[i], sizeof(RSw)); nrsw[i] = 0; }
        for (auto& s : p.sw) if (s.life == life && s.tid < MAXT) rsw[s.tid][nrsw[s.tid]++] = RSw{ s.epoch, s.pt, s.to };
    }
    // environment of the process
    setenv("TZ", TZS[(size_t)p.k("tz", 0) % 6], 1); tzset();
    if (life == 0)
    {
        Inode* c = mkino("", false); strcpy(c->birth_path, "!cmdline"); c->cur_path[0] = 0; buf_append(c->data, "simapp", 7);
        if (p.k("yaml", 0) || !p.cfg.empty()) { put_cfg(p.cfg.empty() ? std::string() : p.cfg[(size_t)p.k("yaml_cfg", 0)], cfg_mtime, 0, 0); }
        if (p.k("foreign_seg", 0))
        {
            ShmSeg& s = A->shm[0]; s.used = 1; s.key = p.k("shm_key", 0x5151); s.size = p.k("foreign_seg", 0) == 3 || sut_shm_size() == 0 ? 4096 : sut_shm_size(); s.off = 0; s.id = 700; A->nshm = 1; A->shm_used = (s.size + 4095) & ~4095ull;
            fallocate(g_pool_fd, FALLOC_FL_PUNCH_HOLE | FALLOC_FL_KEEP_SIZE, 0, (off_t)A->shm_used);
            void* m = mmap(nullptr, s.size, PROT_READ | PROT_WRITE, MAP_SHARED, g_pool_fd, 0);
            if (p.k("foreign_seg", 0) == 3) memset(m, 0x11, s.size); else sut_foreign_segment(m, s.size, 700, (int)p.k("foreign_seg", 0));
            A->foreign_hash = fnv(m, s.size);
            munmap(m, s.size);
        }
    }
    else
    {
        // config file mtime continues
        Inode* c = lookup("log.yaml"); if (c) cfg_mtime = c->mtime;
    }
    // sockets of a dead process are gone
    for (int i = 0; i < 64; i++) A->port[i].used = 0;
    for (int i = 0; i < A->nshm; i++) A->shm[i].nattach = 0;
    FILE* so = fopencookie(nullptr, "w", cookie_io_functions_t{ nullptr, scrw, nullptr, nullptr });
    setvbuf(so, nullptr, _IONBF, 0);
    stdout = so;
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM }) sigaction(s, &sa, nullptr);
    alarm((unsigned)p.k("guard_s", 40));
    nT = (int)p.lives[(size_t)life].threads.size();
    T[0].id = 0; T[0].state = TS_RUN; T[0].driver = true; T[0].prio = (int)(100 + rng.below(1000)); T[0].fut = 1; T[0].real = pthread_self(); T[0].opidx = -1;
    T[0].vc[0] = 1;
    for (int i = 1; i < nT; i++) { T[i].id = i; T[i].state = TS_FREE; T[i].opidx = -1; T[i].driver = true; }
    cur = &T[0];
    atexit(at_life_exit);
    A->life_points[life & 7] = 0;
    self = &T[0];
    evt(EV_LIFE, life, 0);
    compute_next_stop();
    driver_thread((void*)(intptr_t)0);
    exit(0);
}
