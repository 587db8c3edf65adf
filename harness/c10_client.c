// C10: a client hands over exactly the messages that the server sent, however their bytes arrive.
// part 0: two cuts anywhere with gaps     1: cut off at any byte     2: many small pieces     3: announced sizes     4: stopping at any time
#include "rk.h"
#include "simnet.h"
#ifndef VP_FORK
#define VP_FORK 0
#endif
enum { T = 1 };   // seconds the client waits
typedef struct { uint8_t *b; int len, n, at[12], end[12]; } feed;   // a stream of n messages, each from at to end
static feed F[2]; static sn_script S[2]; static RKClient *C; static int got, format; static int first[2]; static bool stopped;
static void message(feed *f, int size, int tag) {
    f->at[f->n] = f->len;
    if (format == RKNetworkMessageFormatHeaderDefinedSize) { RKNetDelimiter d; memset(&d, 0, sizeof d); d.type = 40 + tag; d.size = size; memcpy(f->b + f->len, &d, 16); f->len += 16; }
    for (int k = 0; k < size; k++) f->b[f->len++] = format == RKNetworkMessageFormatNewLine ? (k == size - 1 ? '\n' : 'a' + (tag * 5 + k) % 26) : 1 + (tag * 17 + k) % 250;
    f->end[f->n++] = f->len;
}
static void feeds(int set) {   // message sizes
    static const int H[][5] = {{3, 0, 5, -1}, {1, 1, -1}, {0, 0, 2, -1}}, L[][5] = {{3, 2, 1, 5, -1}, {1, 1, 4, -1}}, K[][5] = {{4, 4, 4, -1}, {4, -1}};
    for (int k = 0; k < 2; k++) {
        F[k].len = F[k].n = 0; const int *z = format == RKNetworkMessageFormatHeaderDefinedSize ? H[k ? 0 : set % 3] : format == RKNetworkMessageFormatNewLine ? L[k ? 0 : set % 2] : K[k ? 0 : set % 2];
        for (int j = 0; z[j] >= 0; j++) message(&F[k], z[j], 1 + k * 6 + j);
        memset(&S[k], 0, offsetof(sn_script, seg)); S[k].in = F[k].b; S[k].end_at = 0; S[k].end = 0;
    }
    S[0].len = F[0].len; S[1].len = F[1].len; sn_seg(&S[1], 2000, F[1].len);
}
static int list[64][2];
static int receive(RKClient *c) {
    mc_assert(!stopped, "after-stop", "a message after the client was stopped");
    const uint8_t *p = c->userPayload; int k = -1, j = -1;
    // which one is this supposed to be: the connection that is open
    k = sn_next - 1; mc_assert(k >= 0 && k < 2, "unexpected", "a message on connection %d", k);
    j = first[k]++; mc_assert(j < F[k].n, "content", "connection %d had %d messages, here is another one", k, F[k].n);
    int from = F[k].at[j], z = F[k].end[j] - from; const uint8_t *w = F[k].b + from;
    if (format == RKNetworkMessageFormatHeaderDefinedSize) { mc_assert(!memcmp(&c->netDelimiter, w, 16), "content", "message %d of connection %d has another header: type %d size %d", j, k, c->netDelimiter.type, c->netDelimiter.size); w += 16; z -= 16; }
    for (int i = 0; i < z; i++) mc_assert(p[i] == w[i], "content", "byte %d of message %d (%d bytes) of connection %d is %d instead of %d", i, j, z, k, p[i], w[i]);
    if (format != RKNetworkMessageFormatConstantSize && z) mc_assert(p[z] == 0, "content", "message %d of connection %d goes on after its %d bytes", j, k, z);
    mc_assert(sn[sn_n - 1].pos >= F[k].end[j], "harness", "early"); if (got < 64) { list[got][0] = k; list[got][1] = j; } got++; mc_count(1); return 0;
}
static int greet(RKClient *c) { return 0; }
static void start(bool nonblock, bool init) {
    sn_reset(); got = 0; first[0] = first[1] = 0; stopped = false; sn_add(&S[0], 0); sn_add(&S[1], 0);
    RKClientDesc d; memset(&d, 0, sizeof d); strcpy(d.name, "c"); strcpy(d.hostname, "h"); d.port = 9; d.timeoutSeconds = T; d.type = RKNetworkSocketTypeTCP; d.format = format; d.blockLength = format == RKNetworkMessageFormatConstantSize ? 4 : 0; d.blocking = !nonblock; d.reconnect = true;
    C = RKClientInitWithDesc(d); mc_assert(C != NULL, "harness", "no client"); RKClientSetReceiveHandler(C, receive); if (init) RKClientSetGreetHandler(C, greet);
}
static void finish(void) {
    RKClientStop(C); stopped = true; mc_assert(mc_live_threads() == 0, "thread", "the client is still there"); mc_assert(sn_left() == 0, "left-open", "%d of %d descriptors are still open", sn_left(), sn_n); RKClientFree(C);
}
// the least number of messages of the first connection, all of the second one when the first came to its end
static void run(bool nonblock, bool init, int least, bool ends) {
    start(nonblock, init); RKClientStart(C, false);
    for (int k = 0; k < 150 && first[1] < F[1].n && (ends || first[0] < F[0].n); k++) mc_sleep_us(200000);
    mc_note("%d of %d messages of the first connection (at least %d), %d of %d of the second, %d connections", first[0], F[0].n, least, first[1], F[1].n, sn_next);
    mc_assert(first[0] >= least, "lost", "only %d messages of the first connection, %d are complete", first[0], least);
    if (ends) mc_assert(first[1] == F[1].n, "lost", "%d of %d messages of the second connection", first[1], F[1].n);
    mc_outcome(first[0]); mc_outcome(sn_next); finish();
}
static int complete(int upto) { int n = 0; while (n < F[0].n && F[0].end[n] <= upto) n++; return n; }
static bool inside(int at) { for (int k = 0; k < F[0].n; k++) if (at > F[0].at[k] && at < F[0].end[k]) return true; return false; }
static const int64_t G[] = {3000, 150000, 850000, 1500000, 3500000};
static void cuts(void) {
    const bool nonblock = mc_choose(2, "non-blocking"), init = mc_choose(2, "greets"); feeds(mc_choose(3, "messages")); const int L = F[0].len, a = mc_choose(L + 1, "cut"), ga = a ? mc_choose(5, "gap") : 0, b = a + mc_choose(L - a + 1, "cut"), gb = b > a && b < L ? mc_choose(5, "gap") : 0; const bool eof = mc_choose(2, "closes");
    int64_t t = 1000; if (a) { sn_seg(&S[0], t, a); t += G[ga]; } sn_seg(&S[0], t, b); if (b < L) { t += b > a ? G[gb] : 0; sn_seg(&S[0], t, L); } S[0].end = eof ? SN_EOF : SN_OPEN; S[0].end_at = t + 50000;
    // a wait of up to the time-out in the middle of a message, twice that between two of them
    int least = F[0].n; bool ends = eof; int64_t w = a ? G[ga] : 0; int at = a;
    for (int k = 0; k < 2; k++, at = b, w = b > a && b < L ? G[gb] : 0) if (w > (inside(at) ? 900000 : 1900000)) { ends = true; if (complete(at) < least) least = complete(at); }
    run(nonblock, init, least, ends || eof);
}
static void truncated(void) {
    const bool nonblock = mc_choose(2, "non-blocking"), init = mc_choose(2, "greets"); feeds(mc_choose(3, "messages")); const int L = F[0].len, n = mc_choose(L, "bytes"), a = mc_choose(n + 1, "cut"), ga = a ? mc_choose(2, "gap") : 0, how = mc_choose(3, "end");
    if (how == SN_OPEN && inside(n) && !nonblock) mc_skip();   // a blocking read waits for as long as the peer is there
    int64_t t = 1000; if (a) { sn_seg(&S[0], t, a); t += G[ga]; } if (n > a) sn_seg(&S[0], t, n); S[0].end = how; S[0].end_at = t + (mc_choose(2, "ends at once") ? 0 : 40000); S[0].len = n;
    run(nonblock, init, how == SN_RST && S[0].end_at == t ? complete(a) : complete(n), true);
}
static void pieces(void) {
    const bool nonblock = mc_choose(2, "non-blocking"), init = false; static const int Z[] = {90, 150, 230, 1000}; feeds(0); F[0].n = F[0].len = 0; const int z = Z[mc_choose(4, "size")];
    if (format == RKNetworkMessageFormatConstantSize) for (int k = 0; k < 12; k++) message(&F[0], 4, k + 1); else { message(&F[0], z, 1); message(&F[0], 5, 2); }
    const int p = 1 + mc_choose(3, "piece"); const int64_t gap = mc_choose(2, "gap") ? 12000 : 1000; int64_t t = 1000; S[0].nseg = 0; for (int k = p; k < F[0].len + p; k += p, t += gap) sn_seg(&S[0], t, k < F[0].len ? k : F[0].len);
    run(nonblock, init, F[0].n, false);
}
static void sizes(void) {
    if (format != RKNetworkMessageFormatHeaderDefinedSize) mc_skip();
    static const uint32_t Z[] = {RKMaximumPacketSize, RKMaximumPacketSize - 1, RKMaximumPacketSize + 1, 0x7fffffff, 0x80000000, 0xffffffff}; const bool nonblock = mc_choose(2, "non-blocking"); const int s = mc_choose(6, "size"); feeds(0);
    RKNetDelimiter d; memcpy(&d, F[0].b, 16); d.size = Z[s]; memcpy(F[0].b, &d, 16); F[0].n = 1; F[0].at[0] = 0; int least = 0;
    if (s < 2) { F[0].len = F[0].end[0] = 16 + Z[s]; for (uint32_t k = 0; k < Z[s]; k++) F[0].b[16 + k] = 1 + k % 250; least = 1; } else { F[0].len = RKMaximumPacketSize + 4096; memset(F[0].b + 16, 5, F[0].len - 16); F[0].n = 0; }
    S[0].len = F[0].len; const int a = mc_choose(3, "cut"); if (a) sn_seg(&S[0], 1000, a == 1 ? 16 : F[0].len / 2); sn_seg(&S[0], 4000, F[0].len); S[0].end = SN_OPEN;
    run(nonblock, false, least, true);
}
static void stop(void) {
    const bool nonblock = mc_choose(2, "non-blocking"), init = mc_choose(2, "greets"), wait = mc_choose(2, "waits"); const int end = mc_choose(3, "end"); static const int64_t W[] = {0, 1000, 60000, 450000, 2000000, 3600000, 6000000}; const int64_t w = W[mc_choose(7, "stops after")]; feeds(0); sn_seg(&S[0], 1000, F[0].end[0]); sn_seg(&S[0], 400000, F[0].len); S[0].end = end; S[0].end_at = 800000;
    start(nonblock, init); sn_refuse = mc_choose(2, "refused"); mc_watch(&C->state, sizeof C->state); mc_explore(true); RKClientStart(C, wait); if (w) mc_sleep_us(w); else mc_yield("stop");
    const int64_t t = mc_now_us(); finish(); mc_explore(false); mc_watch_clear(); mc_assert(mc_now_us() - t < 2000000, "late", "stopping took %.1f s", (mc_now_us() - t) * 1e-6); mc_outcome(sn_n);
}
static void setup(void) { rkQuiet(); F[0].b = malloc(RKMaximumPacketSize + 8192); F[1].b = malloc(4096); }
static void body(void) {
    static bool q; if (!q) { q = true; if (mc_param("quiet", 1) && !mc_replaying() && !freopen("/dev/null", "w", stderr)) {} }
    const int part = mc_param("part", 0); static const int FM[] = {RKNetworkMessageFormatHeaderDefinedSize, RKNetworkMessageFormatNewLine, RKNetworkMessageFormatConstantSize}; format = FM[part == 3 ? 0 : mc_choose(3, "format")];
    switch (part) { case 0: cuts(); break; case 1: truncated(); break; case 2: pieces(); break; case 3: sizes(); break; default: stop(); }
}
int main(int argc, char **argv) {
    mc_config cfg = {.name = "c10_client", .setup = setup, .body = body, .fork_runs = VP_FORK, .bound = 0, .shard_depth = 4, .run_seconds = 30, .vt_limit_us = 120000000, .step_limit = 4000000};
    return mc_main(argc, argv, &cfg);
}
