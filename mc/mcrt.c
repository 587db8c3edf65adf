#define _GNU_SOURCE
#include "mcrt.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <fcntl.h>
#include <time.h>
#include <sched.h>
#include <ucontext.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define MC_ASAN 1
__attribute__((weak)) const char *__asan_default_options(void) { return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
const char *__ubsan_default_options(void) { return "print_stacktrace=0"; }
#endif

#define MAXTHREADS 64
#define MAXLOG (1 << 19)
#define MAXKEYS 64
#define STACKSZ (1 << 20)

// ---------------------------------------------------------------- shared slots
typedef struct { uint8_t n, c, kind; } Ent;             // kind 'D','F','S'
typedef struct {
    volatile int status;       // 0 running, 1 ok, 2 fail, 3 skipped
    volatile uint32_t len;
    char key[96];
    char msg[1600];
    uint64_t outcome, evals, steps;
    int64_t vt;
    Ent log[MAXLOG];
} Slot;
typedef struct { char key[96]; char msg[1600]; char replay[4000]; uint64_t count; } Fail;
typedef struct {
    volatile uint64_t runs, points, evals, skipped, steps, maxdepth, pruned;
    volatile int done;
    int nfail; Fail fail[MAXKEYS];
    int nsample; char sample[6][900];
    uint64_t hcap, hcount; uint64_t hset[1 << 17];
} Work;

static mc_config *C;
static Slot *S;                // slot of the running execution
static int prefixLen; static uint8_t *prefixC;
static int bound = 0; static int usedCost;
static bool replaying, inprocess;
static jmp_buf runJmp;
static char paramName[32][40]; static long paramVal[32]; static int nparam;

// ---------------------------------------------------------------- threads
enum { T_FREE, T_READY, T_SLEEP, T_MUTEX, T_SEM, T_JOIN, T_DONE };
typedef struct { ucontext_t ctx; int st; int64_t wake; void *obj; void *(*fn)(void *); void *arg, *ret; void *stack; int joined; int spin; int jt;
    void *fake; } Thr;
static Thr T[MAXTHREADS]; static int nT, cur;
static bool active, exploring = true;
static int64_t now_us; int64_t mc_epoch_us = 1700000000LL * 1000000LL;
static int nstall; static long stallUs[8];
static uint64_t steps;
static struct { uintptr_t a, b; } W[64]; static int nW;

bool mc_is_active(void) { return active; }
bool mc_replaying(void) { return replaying; }
int mc_self(void) { return cur; }
int64_t mc_now_us(void) { return now_us; }
void mc_advance_us(int64_t us) { now_us += us; }
void mc_set_clock_us(int64_t us) { now_us = us; }
void mc_explore(bool on) { exploring = on; }
void mc_stalls(int n, const long *us) { nstall = n; for (int i = 0; i < n; i++) stallUs[i] = us[i]; }
void mc_watch(const volatile void *p, size_t len) { if (nW < 64) { W[nW].a = (uintptr_t)p; W[nW++].b = (uintptr_t)p + len; } }
void mc_watch_clear(void) { nW = 0; }

long mc_param(const char *name, long d) {
    for (int i = 0; i < nparam; i++) if (!strcmp(paramName[i], name)) return paramVal[i];
    return d;
}

static void finish(int status) __attribute__((noreturn));
static void finish(int status) {
    S->steps = steps; S->vt = now_us - mc_epoch_us;
    S->status = status;
    if (inprocess) longjmp(runJmp, 1);
    _exit(0);
}
void mc_end_ok(void) { finish(1); }
void mc_skip(void) { finish(3); }
void mc_fail(const char *key, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    snprintf(S->key, sizeof(S->key), "%s", key);
    vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
    va_end(ap);
    if (replaying) fprintf(stderr, "[mc] FAIL %s: %s\n", S->key, S->msg);
    finish(2);
}
void mc_note(const char *fmt, ...) {
    if (!replaying) return;
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "[mc t%d %+.6f] ", cur, 1e-6 * (now_us - mc_epoch_us));
    vfprintf(stderr, fmt, ap); fputc('\n', stderr);
    va_end(ap);
}
void mc_outcome(uint64_t v) { uint64_t h = S->outcome; h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 29; S->outcome = h; }
void mc_count(uint64_t n) { S->evals += n; }

static int shardW, shardJ; static uint64_t shardIdx;
static int pick(int n, int kind, const char *label) {
    if (n <= 1) return 0;
    if (n > 255) { fprintf(stderr, "mc: too many alternatives (%d) at %s\n", n, label); _exit(9); }
    uint32_t k = S->len;
    if (k >= MAXLOG) { mc_fail("horizon", "execution has more than %d choice points", MAXLOG); }
    int c = (int)k < prefixLen ? prefixC[k] : 0;
    if (c >= n) {
        if (replaying) { fprintf(stderr, "mc: replay does not fit this program (choice %u: %d of %d at %s)\n", k, c, n, label); _exit(8); }
        fprintf(stderr, "mc: nondeterministic program (choice %u: %d of %d at %s)\n", k, c, n, label); _exit(9);
    }
    S->log[k].n = (uint8_t)n; S->log[k].c = (uint8_t)c; S->log[k].kind = (uint8_t)kind;
    S->len = k + 1;
    if (kind != 'D' && c) usedCost++;
    if (replaying && (kind != 'S' || c)) fprintf(stderr, "[mc t%d %+.6f] %c %s -> %d of %d\n", cur, 1e-6 * (now_us - mc_epoch_us), kind, label, c, n);
    if (inprocess && shardJ > 1 && (int)S->len == C->shard_depth) {
        if ((int)(shardIdx % shardJ) != shardW) finish(4);
    }
    return c;
}
int mc_choose(int n, const char *label) { return pick(n, 'D', label); }
int mc_fault(int n, const char *label) {
    if (!exploring) return 0;
    return pick(n, 'F', label);
}

static void swtch(int to) {
    if (to == cur) return;
    int from = cur; cur = to;
#ifdef MC_ASAN
    __sanitizer_start_switch_fiber(T[from].st == T_DONE ? NULL : &T[from].fake, to == 0 ? T[0].stack : T[to].stack, to == 0 ? (size_t)T[0].obj : STACKSZ);
#endif
    swapcontext(&T[from].ctx, &T[to].ctx);
#ifdef MC_ASAN
    __sanitizer_finish_switch_fiber(T[cur].fake, NULL, NULL);
#endif
}

typedef struct { int owner; int init; } Mx;
static bool canrun(int i) {
    Thr *t = &T[i];
    switch (t->st) {
        case T_READY: return true;
        case T_SLEEP: return t->wake <= now_us;
        case T_MUTEX: return ((Mx *)t->obj)->owner == 0;
        case T_SEM: return *(int *)t->obj > 0;
        case T_JOIN: return T[t->jt].st == T_DONE;
    }
    return false;
}
static const char *stname(int s) { static const char *n[] = {"free", "ready", "sleep", "mutex", "sem", "join", "done"}; return n[s]; }
static void describe(char *b, size_t n) {
    size_t k = 0; b[0] = 0;
    for (int i = 0; i < nT && k + 40 < n; i++) k += snprintf(b + k, n - k, " t%d:%s%s", i, stname(T[i].st), i == cur ? "*" : "");
}
static void horizon(void) {
    char b[600];
    if (++steps > (uint64_t)C->step_limit) { describe(b, sizeof b); mc_fail("no-progress", "no end after %llu scheduling steps, %.3f virtual s;%s", (unsigned long long)steps, 1e-6 * (now_us - mc_epoch_us), b); }
    if (now_us - mc_epoch_us > C->vt_limit_us) { describe(b, sizeof b); mc_fail("no-progress", "no end after %.3f virtual s;%s", 1e-6 * (now_us - mc_epoch_us), b); }
}
static int schedPick(int n, const char *label) {
    if (!exploring || n <= 1) return 0;
    return pick(n, 'S', label);
}
// Called when the current thread cannot continue (or must give way)
static void reschedule(const char *label) {
    for (;;) {
        horizon();
        int r[MAXTHREADS], n = 0;
        for (int k = 1; k <= nT; k++) { int i = (cur + k) % nT; if (canrun(i)) r[n++] = i; }
        if (n == 0) {
            int64_t w = INT64_MAX;
            for (int i = 0; i < nT; i++) if (T[i].st == T_SLEEP && T[i].wake < w) w = T[i].wake;
            if (w == INT64_MAX) { char b[600]; describe(b, sizeof b); mc_fail("deadlock", "deadlock:%s", b); }
            now_us = w;
            continue;
        }
        int c = schedPick(n, label);
        T[r[c]].st = T_READY;
        swtch(r[c]);
        return;
    }
}
static void point(const char *label) {
    if (!active) return;
    horizon();
    Thr *t = &T[cur];
    int r[MAXTHREADS], n = 0;
    r[n++] = cur;
    for (int k = 1; k < nT; k++) { int i = (cur + k) % nT; if (canrun(i)) r[n++] = i; }
    if (++t->spin > 20000 && n > 1) { t->spin = 0; int to = r[1]; T[to].st = T_READY; swtch(to); return; }
    int c = schedPick(n + nstall, label);
    if (c == 0) return;
    t->spin = 0;
    if (c < n) { T[r[c]].st = T_READY; swtch(r[c]); return; }
    t->st = T_SLEEP; t->wake = now_us + stallUs[c - n];
    reschedule("stalled");
}
void mc_yield(const char *label) { point(label); }
static void blockOn(int st, void *obj, const char *label) {
    T[cur].st = st; T[cur].obj = obj; T[cur].spin = 0;
    reschedule(label);
}
void mc_sleep_us(int64_t us) {
    T[cur].wake = now_us + (us > 0 ? us : 0);
    T[cur].st = T_SLEEP; T[cur].spin = 0;
    reschedule("sleep");
}
int mc_live_threads(void) { int n = 0; for (int i = 1; i < nT; i++) if (T[i].st != T_DONE) n++; return n; }
int mc_mutex_busy(const void *m) { return ((const Mx *)m)->owner != 0; }

static void entry(void) {
#ifdef MC_ASAN
    __sanitizer_finish_switch_fiber(T[cur].fake, NULL, NULL);
#endif
    Thr *t = &T[cur];
    t->ret = t->fn(t->arg);
    t->st = T_DONE;
    reschedule("exit");
    abort();
}

// ---------------------------------------------------------------- wrapped calls
#ifndef MC_ASAN
#include <sys/mman.h>
void *__real_memset(void *, int, size_t);
void *__wrap_memset(void *p, int c, size_t n) {      // clearing a big buffer without touching its pages
    if (c || n < (1 << 20)) return __real_memset(p, c, n);
    uintptr_t a = ((uintptr_t)p + 4095) & ~4095UL, e = ((uintptr_t)p + n) & ~4095UL;
    if (madvise((void *)a, e - a, MADV_DONTNEED)) return __real_memset(p, c, n);
    __real_memset(p, c, a - (uintptr_t)p); __real_memset((void *)e, c, (uintptr_t)p + n - e);
    return p;
}
void *__wrap___memset_chk(void *p, int c, size_t n, size_t m) { if (n > m) abort(); return __wrap_memset(p, c, n); }
#endif
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
__attribute__((weak)) void mc_thread_hook(void *(*fn)(void *), void *arg) {}
int __wrap_pthread_create(pthread_t *id, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!active) return __real_pthread_create(id, a, fn, arg);
    if (nT == MAXTHREADS) mc_fail("too-many-threads", "more than %d threads", MAXTHREADS);
    mc_thread_hook(fn, arg);
    int i = nT++;
    Thr *t = &T[i]; memset(t, 0, sizeof(*t));
    t->st = T_READY; t->fn = fn; t->arg = arg;
    t->stack = mmap(NULL, STACKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&t->ctx);
    t->ctx.uc_stack.ss_sp = t->stack; t->ctx.uc_stack.ss_size = STACKSZ; t->ctx.uc_link = NULL;
    makecontext(&t->ctx, entry, 0);
    *id = (pthread_t)(i + 1);
    point("pthread_create");
    return 0;
}
int __real_pthread_join(pthread_t, void **);
int __wrap_pthread_join(pthread_t id, void **ret) {
    if (!active) return __real_pthread_join(id, ret);
    long i = (long)id - 1;
    if (i < 0 || i >= nT || i == 0) mc_fail("join-invalid", "pthread_join() on an invalid thread id %ld", (long)id);
    if (i == cur) return EDEADLK;
    if (T[i].joined) mc_fail("join-twice", "pthread_join() a second time on thread t%ld", i);
    point("pthread_join");
    while (T[i].st != T_DONE) { T[cur].jt = (int)i; blockOn(T_JOIN, NULL, "join"); }
    T[i].joined = 1;
    if (ret) *ret = T[i].ret;
    return 0;
}
pthread_t __real_pthread_self(void);
pthread_t __wrap_pthread_self(void) { return active ? (pthread_t)(cur + 1) : __real_pthread_self(); }
int __real_pthread_detach(pthread_t);
int __wrap_pthread_detach(pthread_t t) { return active ? 0 : __real_pthread_detach(t); }
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (!C) return __real_pthread_mutex_init(m, a); memset(m, 0, sizeof(*m)); return 0; }
int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
    if (!C) return __real_pthread_mutex_destroy(m);
    if (active && ((Mx *)m)->owner) { if (mc_param("strict_destroy", 0)) mc_fail("mutex-destroyed-busy", "mutex destroyed while held by t%d", ((Mx *)m)->owner - 1); return EBUSY; }
    return 0;
}
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    Mx *x = (Mx *)m;
    if (!C) return __real_pthread_mutex_lock(m);
    if (!active) { x->owner = 1; return 0; }
    point("lock");
    if (x->owner && ((uintptr_t)m & 3)) mc_fail("misaligned", "a mutex at %p is contended: futex refuses misaligned words, the program would abort", (void *)m);
    while (x->owner) blockOn(T_MUTEX, x, "lock-wait");
    x->owner = cur + 1;
    return 0;
}
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    Mx *x = (Mx *)m;
    if (!C) return __real_pthread_mutex_trylock(m);
    point("trylock");
    if (x->owner) return EBUSY;
    x->owner = active ? cur + 1 : 1;
    return 0;
}
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    Mx *x = (Mx *)m;
    if (!C) return __real_pthread_mutex_unlock(m);
    x->owner = 0;
    point("unlock");
    return 0;
}
typedef struct { int count; char name[64]; int linked; } Sem;
static Sem sems[64]; static int nSem;
static Sem *semFind(const char *name) { for (int i = 0; i < nSem; i++) if (sems[i].linked && !strcmp(sems[i].name, name)) return &sems[i]; return NULL; }
sem_t *__real_sem_open(const char *, int, ...);
sem_t *__wrap_sem_open(const char *name, int flags, ...) {
    unsigned value = 0;
    if (flags & O_CREAT) { va_list ap; va_start(ap, flags); (void)va_arg(ap, int); value = va_arg(ap, unsigned); va_end(ap); }
    Sem *s = semFind(name);
    if (s) {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return SEM_FAILED; }
        return (sem_t *)s;
    }
    if (!(flags & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
    if (nSem == 64) { errno = EMFILE; return SEM_FAILED; }
    s = &sems[nSem++]; s->count = (int)value; s->linked = 1;
    snprintf(s->name, sizeof s->name, "%s", name);
    return (sem_t *)s;
}
int __real_sem_close(sem_t *);
int __wrap_sem_close(sem_t *s) { (void)s; return 0; }
int __real_sem_unlink(const char *);
int __wrap_sem_unlink(const char *name) { Sem *s = semFind(name); if (!s) { errno = ENOENT; return -1; } s->linked = 0; return 0; }
int __wrap_sem_init(sem_t *s, int p, unsigned v) { (void)p; *(int *)s = (int)v; return 0; }
int __wrap_sem_destroy(sem_t *s) { (void)s; return 0; }
int __wrap_sem_getvalue(sem_t *s, int *v) { *v = *(int *)s; return 0; }
int __wrap_sem_post(sem_t *s) { (*(int *)s)++; point("sem_post"); return 0; }
int __wrap_sem_wait(sem_t *s) {
    point("sem_wait");
    if (*(int *)s <= 0 && ((uintptr_t)s & 3)) mc_fail("misaligned", "a semaphore at %p is waited for: futex refuses misaligned words, the program would abort", (void *)s);
    while (*(int *)s <= 0) blockOn(T_SEM, s, "sem_wait-block");
    (*(int *)s)--;
    return 0;
}
int __wrap_sem_trywait(sem_t *s) { point("sem_trywait"); if (*(int *)s <= 0) { errno = EAGAIN; return -1; } (*(int *)s)--; return 0; }
int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t us) { if (!active) { now_us += us; return 0; } mc_sleep_us(us); return 0; }
unsigned __real_sleep(unsigned);
unsigned __wrap_sleep(unsigned s) { if (!active) { now_us += s * 1000000LL; return 0; } mc_sleep_us(s * 1000000LL); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void)b; int64_t us = a->tv_sec * 1000000LL + (a->tv_nsec + 999) / 1000; if (!active) now_us += us; else mc_sleep_us(us); return 0; }
int __real_gettimeofday(struct timeval *, void *);
int __wrap_gettimeofday(struct timeval *t, void *z) {
    if (!C) return __real_gettimeofday(t, z);
    t->tv_sec = now_us / 1000000; t->tv_usec = now_us % 1000000; return 0;
}
time_t __real_time(time_t *);
time_t __wrap_time(time_t *t) { if (!C) return __real_time(t); time_t v = now_us / 1000000; if (t) *t = v; return v; }
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!C) return __real_clock_gettime(c, t); t->tv_sec = now_us / 1000000; t->tv_nsec = (now_us % 1000000) * 1000; return 0; }
int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *c) { (void)t; (void)n; (void)c; return 0; }
int __wrap_sched_setaffinity(pid_t p, size_t n, const cpu_set_t *c) { (void)p; (void)n; (void)c; return 0; }
int __wrap_sched_yield(void) { if (active) mc_sleep_us(0); return 0; }

// ---------------------------------------------------------------- instrumented memory accesses
// The code under test may be compiled (not linked) with -fsanitize=thread: the
// compiler then announces each access, and those to watched memory are points.
static inline __attribute__((always_inline)) void acc(void *p, unsigned n, const char *l) {
    if (!active || !nW) return;
    uintptr_t a = (uintptr_t)p;
    for (int i = 0; i < nW; i++) if (a < W[i].b && a + n > W[i].a) { point(l); return; }
}
#define HOOK(n) \
  void __tsan_read##n(void *p) { acc(p, n, "read"); } \
  void __tsan_write##n(void *p) { acc(p, n, "write"); } \
  void __tsan_unaligned_read##n(void *p) { acc(p, n, "read"); } \
  void __tsan_unaligned_write##n(void *p) { acc(p, n, "write"); } \
  void __tsan_volatile_read##n(void *p) { acc(p, n, "read"); } \
  void __tsan_volatile_write##n(void *p) { acc(p, n, "write"); } \
  void __tsan_read_write##n(void *p) { acc(p, n, "rw"); } \
  void __tsan_unaligned_read_write##n(void *p) { acc(p, n, "rw"); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
void __tsan_read_range(void *p, unsigned long n) { acc(p, (unsigned)n, "read"); }
void __tsan_write_range(void *p, unsigned long n) { acc(p, (unsigned)n, "write"); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
void __tsan_atomic_thread_fence(int m) { (void)m; }
void __tsan_atomic_signal_fence(int m) { (void)m; }
#define ATOM(B, TY) \
  TY __tsan_atomic##B##_load(const volatile TY *a, int m) { (void)m; acc((void *)a, B / 8, "atomic"); return *a; } \
  void __tsan_atomic##B##_store(volatile TY *a, TY v, int m) { (void)m; acc((void *)a, B / 8, "atomic"); *a = v; } \
  TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int m) { (void)m; acc((void *)a, B / 8, "atomic"); TY o = *a; *a = v; return o; } \
  TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int m) { (void)m; acc((void *)a, B / 8, "atomic"); TY o = *a; *a = o + v; return o; } \
  TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int m) { (void)m; acc((void *)a, B / 8, "atomic"); TY o = *a; *a = o - v; return o; } \
  TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int m) { (void)m; acc((void *)a, B / 8, "atomic"); TY o = *a; *a = o & v; return o; } \
  TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int m) { (void)m; acc((void *)a, B / 8, "atomic"); TY o = *a; *a = o | v; return o; } \
  TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int m) { (void)m; acc((void *)a, B / 8, "atomic"); TY o = *a; *a = o ^ v; return o; } \
  TY __tsan_atomic##B##_fetch_nand(volatile TY *a, TY v, int m) { (void)m; acc((void *)a, B / 8, "atomic"); TY o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int m, int fm) { (void)m; (void)fm; acc((void *)a, B / 8, "atomic"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int m, int fm) { (void)m; (void)fm; acc((void *)a, B / 8, "atomic"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c, TY v, int m, int fm) { (void)m; (void)fm; acc((void *)a, B / 8, "atomic"); TY o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)

// ---------------------------------------------------------------- explorer
static void resetRun(void) {
    S->status = 0; S->len = 0; S->outcome = 0; S->evals = 0; S->key[0] = S->msg[0] = 0; S->steps = 0;
    for (int i = 1; i < nT; i++) if (T[i].stack) { munmap(T[i].stack, STACKSZ); T[i].stack = NULL; }
    memset(&T[0], 0, sizeof(T[0])); T[0].st = T_READY; nT = 1; cur = 0;
#ifdef MC_ASAN
    { pthread_attr_t at; void *b; size_t z; pthread_getattr_np(__real_pthread_self(), &at); pthread_attr_getstack(&at, &b, &z); pthread_attr_destroy(&at); T[0].stack = b; T[0].obj = (void *)z; }
#endif
    nSem = 0; memset(sems, 0, sizeof sems); nW = 0; nstall = 0;
    now_us = mc_epoch_us; steps = 0; exploring = true; usedCost = 0; active = true;
}
static void onSignal(int s) {
    if (S && S->status == 0) {
        snprintf(S->key, sizeof S->key, s == SIGALRM ? "hang" : "crash-%d", s);
        if (s == SIGALRM) snprintf(S->msg, sizeof S->msg, "execution did not end within %d s of real time (thread t%d runs without pausing)", C->run_seconds, cur);
        else snprintf(S->msg, sizeof S->msg, "signal %d (%s) in thread t%d", s, strsignal(s), cur);
        S->steps = steps; S->status = 2;
    }
    if (replaying) { const char *m = S->msg; (void)!write(2, m, strlen(m)); (void)!write(2, "\n", 1); }
    _exit(0);
}
static void signals(void) {
    static char alt[65536]; stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt}; sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK;
    int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM};
    for (unsigned i = 0; i < sizeof sg / sizeof *sg; i++) sigaction(sg[i], &sa, NULL);
}
static void childRun(void) {           // in a forked child
    signals(); alarm(C->run_seconds);
    resetRun();
    C->body();
    finish(1);
}

// A prefix of choices, stored as its non-zero entries
typedef struct { uint32_t len, n; uint8_t cost; struct { uint32_t i : 24, c : 8; } d[]; } Pre;
static uint8_t fullPrefix[MAXLOG + 1];
static char *knownKeys[32]; static int nKnown;
static bool isKnown(const char *k) { for (int i = 0; i < nKnown; i++) if (!strcmp(k, knownKeys[i])) return true; return false; }
#define SOON 25.0   // seconds to go on after the first failure that is not listed
typedef struct { Pre **v; size_t n, cap; } Stk;
static Stk stk[16];
static void push(Pre *p) { Stk *s = &stk[p->cost]; if (s->n == s->cap) { s->cap = s->cap ? 2 * s->cap : 1024; s->v = realloc(s->v, s->cap * sizeof *s->v); } s->v[s->n++] = p; }
static Pre *popp(void) { for (int i = 0; i <= bound; i++) if (stk[i].n) return stk[i].v[--stk[i].n]; return NULL; }
static size_t pendingCount(void) { size_t n = 0; for (int i = 0; i < 16; i++) n += stk[i].n; return n; }

static int hadd(Work *w, uint64_t h) {
    if (h == 0) h = 1;
    uint64_t m = (1 << 17) - 1, i = h & m;
    if (w->hcount > 100000) return 0;
    while (w->hset[i]) { if (w->hset[i] == h) return 0; i = (i + 1) & m; }
    w->hset[i] = h; w->hcount++; return 1;
}
static void trimReplay(char *out, size_t n, Slot *s) {
    int last = -1; for (uint32_t i = 0; i < s->len; i++) if (s->log[i].c) last = (int)i;
    size_t k = 0; out[0] = 0;
    // run-length encoded: "x" or "x*count"
    for (int i = 0; i <= last && k + 24 < n;) {
        int j = i; while (j <= last && s->log[j].c == s->log[i].c) j++;
        if (j - i > 2) k += snprintf(out + k, n - k, "%s%d*%d", k ? "," : "", s->log[i].c, j - i);
        else { k += snprintf(out + k, n - k, "%s%d", k ? "," : "", s->log[i].c); j = i + 1; }
        i = j;
    }
}
static int parseReplay(const char *t, uint8_t **out) {
    int cap = 1 << 16, n = 0; uint8_t *v = malloc(cap);
    while (*t) { char *e; long c = strtol(t, &e, 10), r = 1; if (*e == '*') r = strtol(e + 1, &e, 10);
        while (r-- > 0) { if (n == cap) v = realloc(v, cap *= 2); v[n++] = (uint8_t)c; }
        if (*e != ',') break;
        t = e + 1; }
    *out = v; return n;
}
static void record(Work *w, Slot *s) {
    w->runs++; w->points += s->len; w->evals += s->evals + 1; w->steps += s->steps;
    if (s->len > w->maxdepth) w->maxdepth = s->len;
    if (s->status == 3) { w->skipped++; return; }
    if (s->status == 2) {
        int i; for (i = 0; i < w->nfail; i++) if (!strcmp(w->fail[i].key, s->key)) break;
        if (i == w->nfail) {
            if (w->nfail == MAXKEYS) return;
            w->nfail++; snprintf(w->fail[i].key, sizeof w->fail[i].key, "%s", s->key);
            memcpy(w->fail[i].msg, s->msg, sizeof s->msg); trimReplay(w->fail[i].replay, sizeof w->fail[i].replay, s); w->fail[i].count = 0;
        }
        w->fail[i].count++;
        return;
    }
    if (hadd(w, s->outcome) && w->nsample < 6) {
        char b[700]; trimReplay(b, sizeof b, s);
        snprintf(w->sample[w->nsample++], 900, "choices=[%s] points=%u steps=%llu vt=%.3fs outcome=%016llx", b, s->len, (unsigned long long)s->steps, 1e-6 * s->vt, (unsigned long long)s->outcome);
    }
}
static double rtime(void) { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void jstr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}

static int exploreFork(int jobs, double limit, Work *w) {
    Slot *slots = mmap(NULL, sizeof(Slot) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pid_t pid[64] = {0}; Pre *job[64] = {0};
    Pre *p0 = calloc(1, sizeof(Pre)); push(p0);
    double t0 = rtime(); int running = 0, exhaustive = 1;
    for (;;) {
        bool stop = limit > 0 && rtime() - t0 > limit;
        if (stop) exhaustive = 0;
        for (int j = 0; j < jobs && !stop; j++) if (!pid[j]) {
            Pre *p = popp(); if (!p) break;
            job[j] = p; slots[j].status = 0; slots[j].len = 0;
            fflush(stdout); fflush(stderr);
            pid_t c = fork();
            if (c < 0) { perror("fork"); exit(9); }
            if (c == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); S = &slots[j]; prefixLen = (int)p->len; prefixC = fullPrefix; for (uint32_t k = 0; k < p->n; k++) fullPrefix[p->d[k].i] = p->d[k].c; childRun(); }
            pid[j] = c; running++;
        }
        if (!running) break;
        int st; pid_t c = waitpid(-1, &st, 0);
        if (c < 0) break;
        int j; for (j = 0; j < jobs; j++) if (pid[j] == c) break;
        if (j == jobs) continue;
        pid[j] = 0; running--;
        Slot *s = &slots[j]; Pre *p = job[j]; job[j] = NULL;
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 8) { fprintf(stderr, "mc: harness error\n"); exit(9); }
        if (s->status == 0) {
            s->status = 2; snprintf(s->key, sizeof s->key, "died");
            snprintf(s->msg, sizeof s->msg, WIFSIGNALED(st) ? "execution killed by signal %d" : "execution ended by exit(%d)", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        }
        record(w, s);
        // of an execution that fails for a reason that is not listed, only the data choices are varied further
        const bool bad = s->status == 2 && !isKnown(s->key);
        if (bad && (limit <= 0 || limit > rtime() - t0 + SOON)) limit = rtime() - t0 + SOON;
        uint8_t base = p->cost; uint32_t nz = 0; for (uint32_t i = 0; i < p->len; i++) nz += s->log[i].c != 0;
        for (uint32_t i = p->len; i < s->len; i++) {
            int cost = s->log[i].kind != 'D';
            if (base + cost > bound || (bad && cost)) { w->pruned += s->log[i].n - 1; continue; }
            for (int a = 1; a < s->log[i].n; a++) {
                Pre *q = malloc(sizeof(Pre) + 4 * (nz + 1)); q->len = i + 1; q->cost = base + cost; q->n = 0;
                for (uint32_t k = 0; k < p->len; k++) if (s->log[k].c) { q->d[q->n].i = k; q->d[q->n++].c = s->log[k].c; }
                q->d[q->n].i = i; q->d[q->n++].c = a; push(q);
            }
        }
        free(p);
    }
    (void)pendingCount;
    return exhaustive;
}

// In-process depth-first enumeration; work is split over jobs by the first choices.
static void workerLoop(Work *w, Slot *slot, int wi, int jobs, double limit, double t0) {
    S = slot; shardW = wi; shardJ = jobs; shardIdx = 0; inprocess = true;
    uint8_t *pre = malloc(MAXLOG); prefixC = pre; prefixLen = 0;
    signals();
    uint64_t tick = 0;
    for (;;) {
        if (limit > 0 && (++tick & 15) == 0 && rtime() - t0 > limit) { w->done = 2; return; }
        alarm(C->run_seconds);
        if (setjmp(runJmp) == 0) { resetRun(); C->body(); S->status = 1; S->steps = steps; S->vt = now_us - mc_epoch_us; }
        active = false;
        if (S->status != 4) {
            if ((int)S->len < C->shard_depth && shardJ > 1 && wi != 0) ; // short executions belong to job 0
            else record(w, S);
            if (S->status == 2 && !isKnown(S->key) && (limit <= 0 || limit > rtime() - t0 + SOON)) limit = rtime() - t0 + SOON;
        }
        // next: deepest entry that can be advanced
        int cost = 0; for (uint32_t i = 0; i < S->len; i++) cost += S->log[i].kind != 'D' && S->log[i].c;
        int i;
        for (i = (int)S->len - 1; i >= 0; i--) {
            Ent *e = &S->log[i];
            int isC = e->kind != 'D';
            if (e->c + 1 < e->n && cost - (isC && e->c) + isC <= bound) break;
            if (isC && e->c) cost--;
        }
        if (i < 0) { w->done = 1; return; }
        if (i < C->shard_depth) shardIdx++;
        for (int k = 0; k < i; k++) pre[k] = S->log[k].c;
        pre[i] = S->log[i].c + 1; prefixLen = i + 1;
    }
}
static int exploreInproc(int jobs, double limit, Work *w0) {
    Work *ws = mmap(NULL, sizeof(Work) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    Slot *slots = mmap(NULL, sizeof(Slot) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    double t0 = rtime(); pid_t pid[64]; int exhaustive = 1;
    for (int j = 0; j < jobs; j++) {
        fflush(stdout); fflush(stderr);
        pid[j] = fork();
        if (pid[j] == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); workerLoop(&ws[j], &slots[j], j, jobs, limit, t0); _exit(0); }
    }
    for (int j = 0; j < jobs; j++) {
        int st; waitpid(pid[j], &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 8) { fprintf(stderr, "mc: harness error\n"); exit(9); }
        if (ws[j].done == 0) {          // the process died inside an execution
            Slot *s = &slots[j];
            if (s->status != 2) { s->status = 2; snprintf(s->key, sizeof s->key, "died"); snprintf(s->msg, sizeof s->msg, "process ended inside an execution (status 0x%x)", st); }
            record(&ws[j], s); exhaustive = 0;
        } else if (ws[j].done == 2) exhaustive = 0;
        Work *w = &ws[j];
        w0->runs += w->runs; w0->points += w->points; w0->evals += w->evals; w0->skipped += w->skipped; w0->steps += w->steps; w0->pruned += w->pruned;
        if (w->maxdepth > w0->maxdepth) w0->maxdepth = w->maxdepth;
        for (int i = 0; i < (1 << 17); i++) if (w->hset[i]) hadd(w0, w->hset[i]);
        for (int i = 0; i < w->nsample && w0->nsample < 6; i++) memcpy(w0->sample[w0->nsample++], w->sample[i], 900);
        for (int i = 0; i < w->nfail; i++) {
            int k; for (k = 0; k < w0->nfail; k++) if (!strcmp(w0->fail[k].key, w->fail[i].key)) break;
            if (k == w0->nfail) { if (k == MAXKEYS) continue; w0->nfail++; w0->fail[k] = w->fail[i]; } else w0->fail[k].count += w->fail[i].count;
        }
    }
    return exhaustive;
}

int mc_main(int argc, char **argv, mc_config *cfg) {
    prctl(PR_SET_THP_DISABLE, 1, 0, 0, 0);
    if (!cfg->vt_limit_us) cfg->vt_limit_us = 300000000L;
    if (!cfg->step_limit) cfg->step_limit = 2000000;
    if (!cfg->run_seconds) cfg->run_seconds = 30;
    if (!cfg->shard_depth) cfg->shard_depth = 2;
    int jobs = 8; double limit = 0; const char *out = NULL, *replay = NULL;
    bound = cfg->bound;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--bound")) bound = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--time")) limit = atof(argv[++i]);
        else if (!strcmp(argv[i], "--out")) out = argv[++i];
        else if (!strcmp(argv[i], "--known")) { if (nKnown < 32) knownKeys[nKnown++] = argv[++i]; }
        else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
        else if (!strcmp(argv[i], "--param")) { char *a = argv[++i], *e = strchr(a, '='); snprintf(paramName[nparam], 40, "%.*s", (int)(e - a), a); paramVal[nparam++] = atol(e + 1); }
        else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 9; }
    }
    if (bound > 15) bound = 15;
    C = cfg;
    now_us = mc_epoch_us;
    Slot *tmp = mmap(NULL, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    S = tmp;
    Work *w = mmap(NULL, sizeof(Work), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (cfg->setup) cfg->setup();
    if (replay) {
        replaying = true; prefixLen = parseReplay(replay, &prefixC);
        fflush(stdout);
        pid_t c = fork();
        if (c == 0) childRun();
        int st; waitpid(c, &st, 0);
        if (S->status == 0) { S->status = 2; snprintf(S->key, sizeof S->key, "died"); }
        printf("replay: status=%s key=%s msg=%s outcome=%016llx\n", S->status == 1 ? "ok" : S->status == 2 ? "FAIL" : "skip", S->key, S->msg, (unsigned long long)S->outcome);
        return S->status == 2 ? 1 : 0;
    }
    double t0 = rtime();
    int ex = cfg->fork_runs ? exploreFork(jobs, limit, w) : exploreInproc(jobs, limit, w);
    // A failing execution is reported only when it fails the same way twice more
    for (int i = 0; i < w->nfail; i++) {
        for (int r = 0; r < 2; r++) {
            prefixLen = parseReplay(w->fail[i].replay, &prefixC);
            S = tmp; S->status = 0; inprocess = false; fflush(stdout); fflush(stderr);
            pid_t c = fork();
            if (c == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); childRun(); }
            int st; waitpid(c, &st, 0);
            if (S->status == 0) { S->status = 2; snprintf(S->key, sizeof S->key, "died"); }
            if (S->status != 2 || strcmp(S->key, w->fail[i].key)) {
                fprintf(stderr, "mc: failure '%s' (%s) [%s] did not repeat: status %d key '%s'\n", w->fail[i].key, w->fail[i].msg, w->fail[i].replay, S->status, S->key);
                size_t k = strlen(w->fail[i].msg); snprintf(w->fail[i].msg + k, sizeof w->fail[i].msg - k, " [UNSTABLE]");
                break;
            }
        }
    }
    FILE *f = out ? fopen(out, "w") : stdout;
    fprintf(f, "{\"harness\":"); jstr(f, cfg->name);
    fprintf(f, ",\"bound\":%d,\"exhaustive\":%s,\"runs\":%llu,\"evals\":%llu,\"points\":%llu,\"steps\":%llu,\"skipped\":%llu,\"over_bound\":%llu,\"max_depth\":%llu,\"distinct_outcomes\":%llu,\"wall_s\":%.2f,\"samples\":[",
            bound, ex ? "true" : "false", (unsigned long long)w->runs, (unsigned long long)w->evals, (unsigned long long)w->points, (unsigned long long)w->steps,
            (unsigned long long)w->skipped, (unsigned long long)w->pruned, (unsigned long long)w->maxdepth, (unsigned long long)w->hcount, rtime() - t0);
    for (int i = 0; i < w->nsample; i++) { if (i) fputc(',', f); jstr(f, w->sample[i]); }
    fprintf(f, "],\"fails\":[");
    for (int i = 0; i < w->nfail; i++) {
        fprintf(f, "%s{\"key\":", i ? "," : ""); jstr(f, w->fail[i].key); fprintf(f, ",\"count\":%llu,\"msg\":", (unsigned long long)w->fail[i].count); jstr(f, w->fail[i].msg);
        fprintf(f, ",\"replay\":"); jstr(f, w->fail[i].replay); fputc('}', f);
    }
    fprintf(f, "]}\n");
    if (out) fclose(f);
    return w->nfail ? 1 : 0;
}
