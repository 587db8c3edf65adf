// C24: command queues deliver every command once and in order.
// part 0: every sequence of pushes and pops     part 1: schedules of producers and a consumer
#include "rk.h"
#include <pthread.h>
#include <string.h>
#include <stdlib.h>
static uint8_t *ring; static size_t ringSize;
void *__real_memcpy(void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {    // a copy from or to the ring can be interrupted
    const bool in = mc_is_active() && ring && n > 8 && (((uint8_t *)d >= ring && (uint8_t *)d < ring + ringSize) || ((uint8_t *)s >= ring && (uint8_t *)s < ring + ringSize));
    if (!in) return __real_memcpy(d, s, n);
    mc_yield("copy"); __real_memcpy(d, s, n / 2); mc_yield("half"); __real_memcpy((char *)d + n / 2, (const char *)s + n / 2, n - n / 2); return d;
}
static void fill(RKCommand c, int id) { for (int k = 0; k < (int)sizeof(RKCommand); k++) c[k] = (char)(id * 37 + k * (id + 3)); c[0] = (char)id; c[1] = (char)(id >> 8); }
static int ident(const RKCommand c, const char *when) {
    RKCommand e; const int id = (uint8_t)c[0] | (uint8_t)c[1] << 8; fill(e, id);
    if (memcmp(e, c, sizeof e)) { int k = 0; while (e[k] == c[k]) k++; mc_fail("content", "%s: command %d is damaged at byte %d", when, id, k); }
    return id;
}
static void large(int depth) {
    RKCommandQueue *q = RKCommandQueueInit(depth, true); mc_assert(q, "init", "no queue"); RKCommand c; int in = 0, out = 0;
    for (int round = 0; round < 2; round++) {
        while (in - out < depth + 2) { fill(c, in & 0xffff); if (RKCommandQueuePush(q, &c)) break; in++; }
        mc_assert(in - out <= depth && in - out >= depth - 1, "overfull", "queue of %d took %d", depth, in - out);
        for (int n = round ? in : in - depth / 2; out < n; out++) { RKCommand *p = RKCommandQueuePop(q); mc_assert(p, "lost", "no command, expected %d", out); const int id = ident(*p, "popped"); mc_assert(id == (out & 0xffff), "order", "command %d, expected %d", id, out); }
    }
    mc_assert(!RKCommandQueuePop(q), "empty", "an empty queue yielded something"); RKCommandQueueFree(q); mc_count(2 * in);
}
static void sequences(void) {
    static const int large_[] = {0, 255, 256, 257, 32768, 65534, 65535}; const int b = mc_choose(7, "large"); if (b) { large(large_[b]); return; }
    static const int D[] = {1, 2, 3, 4, 8};
    const int depth = D[mc_choose(5, "depth")], blocking = mc_choose(2, "blocking"), N = mc_param("ops", 11);
    const int warm = mc_choose(2, "warm") ? depth * 2 + 1 : 0;   // commands that went through before
    RKCommandQueue *q = RKCommandQueueInit(depth, !blocking); mc_assert(q, "init", "no queue");
    static int model[64]; int head = 0, tail = 0, next = 1, last = -1; RKCommand *held = NULL; RKCommand c; uint32_t ins = 0, outs = 0;
    for (int k = 0; k < N + warm * 2; k++) {
        const int op = k < warm * 2 ? k & 1 : mc_choose(2, "op"), n = tail - head;
        if (op == 0) {
            if (blocking && n >= depth) break;   // would wait
            memset(c, 0, sizeof c); fill(c, next);
            const int r = RKCommandQueuePush(q, &c); mc_count(1);
            mc_assert(ident(c, "the producer's own") == next, "content", "push %d changed", next); memset(c, 0x55, sizeof c);
            if (r == RKResultSuccess) { mc_assert(n < depth, "overfull", "queue of %d took another one when it had %d", depth, n); model[tail++ % 64] = next; ins++; }
            else mc_assert(n >= depth || (depth > 1 && n >= depth - 1), "refused", "queue of %d refused when it had %d", depth, n);
            next++;
        } else {
            if (blocking && n == 0) break;
            if (held) mc_assert(ident(*held, "held") == last, "content", "command %d was overwritten before the next one was taken", last);
            RKCommand *p = RKCommandQueuePop(q); mc_count(1);
            if (n == 0) { mc_assert(p == NULL, "empty", "an empty queue yielded %d", ident(*p, "phantom")); continue; }
            mc_assert(p, "lost", "no command, expected %d", model[head % 64]);
            const int id = ident(*p, "popped"); mc_assert(id == model[head % 64], "order", "command %d, expected %d", id, model[head % 64]);
            head++; held = p; last = id; outs++;
        }
        mc_assert(q->tic == ins && q->toc == outs && q->count == tail - head, "count", "%u in %u out %u held, expected %u %u %d", q->tic, q->toc, q->count, ins, outs, tail - head);
    }
    if (held) mc_assert(ident(*held, "held") == last, "content", "command %d was overwritten before the next one was taken", last);
    RKCommandQueueFree(q);
}
static RKCommandQueue *Q; static int depth, blocking, each[2], np, stamp;
static struct { int begin, end; bool ok; } push[3][8];
static int started, completed; static int popped;
static void *producer(void *in) {
    const int p = (int)(intptr_t)in;
    for (int k = 0; k < each[p]; k++) {
        RKCommand c; fill(c, 1 + p * 100 + k);
        int tries = 0;
        while (true) {
            const int out = popped; push[p][k].begin = stamp++; started++;
            const int r = RKCommandQueuePush(Q, &c);
            push[p][k].end = stamp++;
            if (r == RKResultSuccess) { push[p][k].ok = true; completed++; break; }
            mc_assert(!blocking, "refused", "a waiting queue refused %d", k);
            mc_assert(started - 1 - out >= (depth > 1 ? depth - 1 : 1), "refused", "queue of %d refused with at most %d in it", depth, started - 1 - out);
            started--;
            if (++tries > 1 + p) break;      // dropped by the producer, it was told
            mc_sleep_us(500);
        }
        memset(c, 0x77, sizeof c);
    }
    return NULL;
}
static void concurrent(void) {
    static const struct { int depth, a, b; } K[] = {{1, 2, 1}, {2, 3, 0}, {2, 2, 2}, {3, 2, 2}, {1, 3, 0}, {2, 3, 2}};
    const int k = mc_choose(6, "shape"); depth = K[k].depth; each[0] = K[k].a; each[1] = K[k].b; np = each[1] ? 2 : 1; blocking = mc_choose(2, "blocking");
    memset(push, 0, sizeof push); stamp = started = completed = popped = 0;
    Q = RKCommandQueueInit(depth, !blocking); ring = (uint8_t *)Q->buffer; ringSize = (size_t)(depth + 1) * sizeof(RKCommand); mc_watch(Q, sizeof *Q);
    pthread_t t[2]; mc_explore(true);
    for (int p = 0; p < np; p++) pthread_create(&t[p], NULL, producer, (void *)(intptr_t)p);
    int next[2] = {0, 0}, lastEnd = 0, total = each[0] + each[1], polls = 0; RKCommand *held = NULL; int last = 0; bool over = false;
    while (popped < total) {
        const int sure = completed;
        if (blocking == 0 && mc_live_threads() == 0) over = true;
        if (held) mc_assert(ident(*held, "held") == last, "content", "command %d was overwritten before the next one was taken", last);
        RKCommand *c = RKCommandQueuePop(Q);
        if (!c) { mc_assert(!blocking, "empty", "a waiting queue yielded nothing"); mc_assert(sure <= popped, "lost", "nothing, with %d put and %d taken", sure, popped); if (over) break; if (++polls > 200) mc_fail("stuck", "no end"); mc_sleep_us(700); continue; }
        const int id = ident(*c, "popped"), p = id > 100, n = (id - 1) % 100;
        mc_assert(id >= 1 && p < np && n < each[p] && push[p][n].begin < stamp, "phantom", "command %d was not put", id);
        mc_assert(n >= next[p], "order", "command %d after %d", id, next[p]);
        for (int j = next[p]; j < n; j++) mc_assert(push[p][j].end && !push[p][j].ok, "lost", "command %d after %d was put before %d", j, next[p] - 1, n);
        next[p] = n + 1; popped++; held = c; last = id;
        if (push[p][n].end) mc_assert(push[p][n].end >= lastEnd, "order", "command %d was in before one that came earlier had begun", id);
        if (push[p][n].begin > lastEnd) lastEnd = push[p][n].begin;
        mc_outcome(id);
    }
    for (int p = 0; p < np; p++) pthread_join(t[p], NULL);
    mc_explore(false);
    if (held) mc_assert(ident(*held, "held") == last, "content", "command %d was overwritten", last);
    mc_assert(popped == completed, "lost", "%d put, %d taken", completed, popped);
    mc_assert(Q->tic == (uint32_t)completed && Q->toc == (uint32_t)popped && Q->count == 0, "count", "%u in %u out %u held; %d %d", Q->tic, Q->toc, Q->count, completed, popped);
    mc_watch_clear(); ring = NULL; RKCommandQueueFree(Q); mc_count(popped);
}
static void body(void) { if (mc_param("part", 0)) concurrent(); else sequences(); }
int main(int argc, char **argv) {
    mc_config cfg = {.name = "c24_queue", .setup = rkQuiet, .body = body, .bound = 0, .shard_depth = 6, .run_seconds = 20, .vt_limit_us = 5000000, .step_limit = 4000000};
    return mc_main(argc, argv, &cfg);
}
