// mcrt - a small stateless model checker for code that uses pthreads, POSIX
// semaphores, sleeping and wall-clock time.  The code under test is linked with
// -Wl,--wrap for these calls, so that its threads become coroutines of one
// process that run one at a time under a scheduler which this file controls.
//
// An execution is a sequence of choices.  The explorer enumerates all of them:
//   - data choices   (mc_choose):  every alternative, no cost;
//   - fault choices  (mc_fault):   alternative 0 is "no fault", others cost 1;
//   - scheduling     (internal):   alternative 0 is the default scheduler's pick
//                                  (keep running; round robin when blocked),
//                                  any other costs 1 (delay bounding);
// and explores every execution whose total cost is within the bound.
#ifndef MCRT_H
#define MCRT_H
#include <stdint.h>
#include <stdio.h>
#include <stdbool.h>
#include <stddef.h>

typedef struct {
    const char *name;
    void (*setup)(void);       // once per process, before exploring (not under the scheduler)
    void (*body)(void);        // one execution
    int fork_runs;             // 1: every execution in a child of its own; 0: in process
    int bound;                 // default deviation budget
    int shard_depth;           // in-process mode: data choices used to split work over jobs
    long vt_limit_us;          // virtual time horizon of one execution (default 300 s)
    long step_limit;           // scheduling steps horizon of one execution
    int run_seconds;           // real-time limit of one execution
} mc_config;

int mc_main(int argc, char **argv, mc_config *cfg);

// --- choices
int  mc_choose(int n, const char *label);
int  mc_fault(int n, const char *label);
long mc_param(const char *name, long dflt);       // --param name=value

// --- verdicts
void mc_fail(const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // shown in replays
void mc_outcome(uint64_t v);                      // folded into the execution's outcome
void mc_count(uint64_t n);                        // additional evaluated cases inside one execution
void mc_skip(void) __attribute__((noreturn));     // this execution is outside of the domain
#define mc_assert(c, key, ...) do { if (!(c)) mc_fail(key, __VA_ARGS__); } while (0)

// --- scheduling
void mc_thread_hook(void *(*fn)(void *), void *arg);   // may be defined: called for every thread that is created
void mc_yield(const char *label);                 // a scheduling point
void mc_explore(bool on);                         // deviations are explored only while on
void mc_stalls(int n, const long *us);            // a deviation may also stall the thread this long
void mc_watch(const volatile void *p, size_t len);// accesses by instrumented code are scheduling points
void mc_watch_clear(void);
int  mc_live_threads(void);                       // threads created and not finished (excluding main)
int  mc_self(void);
int64_t mc_now_us(void);                          // virtual time
void mc_advance_us(int64_t us);                   // step the clock without scheduling
void mc_sleep_us(int64_t us);                     // sleep, as a thread of the model
void mc_set_clock_us(int64_t us);
bool mc_is_active(void);
bool mc_replaying(void);
int  mc_mutex_busy(const void *mutex);            // 1 when held
void mc_end_ok(void) __attribute__((noreturn));   // finish this execution successfully now
extern int64_t mc_epoch_us;                       // clock value at the start of each execution
#endif
