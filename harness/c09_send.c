// C09: messages go out complete and in order, however the socket behaves.
// part 0: every sequence of results of the socket, up to a number of deviations     part 1: threads that send to the same peer
#include "rk.h"
#include <sys/socket.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
enum { FD = 77, MAX = 512 };
static uint8_t wire[MAX]; static int out, calls, odd, dead; static bool faulty; static const uint8_t *want; static int wanted;
static int forever;   // what the socket does from some call on, 0: nothing in particular
ssize_t __wrap_send(int fd, const void *b, size_t z, int fl) {
    mc_assert(fd == FD, "peer", "bytes to %d", fd); mc_assert(++calls < 4000, "endless", "%d calls", calls);
    if (z == 0) return 0;
    if (dead) { errno = EPIPE; return -1; }
    mc_yield("send");
    int r = 0;
    if (forever) r = forever;
    else if (faulty) {   // 0: takes everything, 1..4: once, 5..8: from now on
        r = mc_fault(9 + (z > 2 ? (int)z - 2 : 0), "send"); if (r) odd++;
        if (r >= 9) { z = r - 8; r = 0; }   // 1..z-1 bytes, see below
        else if (r >= 6) forever = r - 5;
        if (r >= 6) r -= 5;
    }
    switch (r) {
        case 1: errno = EAGAIN; return -1;
        case 2: if (z > 1) z--; break;       // all but one byte
        case 3: z = 1; break;                // one byte
        case 4: errno = EINTR; return -1;
        case 5: dead = 1; errno = ECONNRESET; return -1;
    }
    mc_assert(out + (int)z <= MAX, "endless", "%d bytes", out + (int)z); memcpy(wire + out, b, z); out += z;
    if (want) mc_assert(out <= wanted && !memcmp(wire, want, out), "content", "after %d calls the peer has %d bytes that are not the first ones of the %d it is to have", calls, out, wanted);
    return z;
}
static RKOperator *op; static RKServer server;
static void fresh(void) { out = calls = odd = dead = forever = 0; want = NULL; op = calloc(1, sizeof *op); op->M = &server; op->sid = FD; op->timeoutSeconds = 5; strcpy(op->name, "op"); pthread_mutex_init(&op->lock, NULL); op->delimTx.type = RKNetworkPacketTypeBytes; op->beacon.type = RKNetworkPacketTypeBeacon; memset(op->delimString.bytes + 9, ' ', 6); }
static void sequences(void) {
    static const int S[][3] = {{1}, {2}, {5}, {40}, {1, 1}, {3, 2}, {2, 4}, {4, 0}, {16, 20}, {1, 2, 1}, {3, 1, 2}, {2, 2, 3}, {16, 9, 17}}; static uint8_t data[3][64], all[128];
    const int which = mc_choose(5, "function"), s = mc_choose(13, "sizes"), *z = S[s]; const int n = z[2] ? 3 : z[1] || s == 7 ? 2 : 1; fresh(); wanted = 0;
    if (which >= 2 && s != 3) mc_skip();
    for (int k = 0; k < n; k++) for (int j = 0; j < z[k]; j++) data[k][j] = all[wanted++] = 1 + k * 80 + j;
    char text[41]; RKNetDelimiter d; memset(&d, 0, sizeof d);
    if (which >= 2) { for (int j = 0; j < 40; j++) text[j] = 'a' + j % 26; text[40] = 0; wanted = 0; if (which < 4) { d = op->delimString; d.type = which == 2 ? RKNetworkPacketTypePlainText : RKNetworkPacketTypeCommandResponse; d.size = 40; memcpy(all, &d, 16); memcpy(all + 16, text, 40); wanted = 56; } else { d.type = RKNetworkPacketTypeBeacon; memcpy(all, &d, 16); wanted = 16; } }
    want = all; faulty = true; const int64_t t0 = mc_now_us(); ssize_t r;
    switch (which) {
        case 0: r = n == 1 ? RKOperatorSendPackets(op, data[0], (ssize_t)z[0], NULL) : n == 2 ? RKOperatorSendPackets(op, data[0], (ssize_t)z[0], data[1], (ssize_t)z[1], NULL) : RKOperatorSendPackets(op, data[0], (ssize_t)z[0], data[1], (ssize_t)z[1], data[2], (ssize_t)z[2], NULL); break;
        case 1: r = n == 1 ? RKNetworkSendPackets(FD, data[0], (ssize_t)z[0], NULL) : n == 2 ? RKNetworkSendPackets(FD, data[0], (ssize_t)z[0], data[1], (ssize_t)z[1], NULL) : RKNetworkSendPackets(FD, data[0], (ssize_t)z[0], data[1], (ssize_t)z[1], data[2], (ssize_t)z[2], NULL); break;
        case 2: r = RKOperatorSendDelimitedString(op, text); break;
        case 3: r = RKOperatorSendCommandResponse(op, text); break;
        default: r = RKOperatorSendBeacon(op);
    }
    faulty = false; const double t = (mc_now_us() - t0) * 1e-6; mc_note("result %ld, %d of %d bytes, %d calls, %.3f s", (long)r, out, wanted, calls, t);
    mc_assert(t <= 20.0, "late", "%.1f s", t);
    if (out == wanted) mc_assert(r == wanted, "result", "everything went out, the result is %ld instead of %d", (long)r, wanted);
    else {
        mc_assert(r < 0, "result", "only %d of %d bytes went out, the result is %ld", out, wanted, (long)r);
        mc_assert(dead || forever, "gave-up", "gave up after %d refusals, %d of %d bytes went out", odd, out, wanted);
    }
    mc_assert(!mc_mutex_busy(&op->lock), "locked", "the lock is still held");
    if (which != 1 && !dead) {   // the next one goes as well
        forever = 0; want = NULL; out = 0; mc_assert(RKOperatorSendPackets(op, data[0], (ssize_t)1, NULL) == 1 && out == 1, "next", "the next one did not go out");
    }
    pthread_mutex_destroy(&op->lock); free(op); mc_outcome(r); mc_outcome(calls); mc_count(1);
}
// --- every thread sends whole messages
static int count[3], kind[3];
static void *sender(void *in) {
    const int p = (int)(intptr_t)in;
    for (int k = 0; k < count[p]; k++) {
        ssize_t r; const int z = 3 + p * 7 + k; char text[64]; for (int j = 0; j < z; j++) text[j] = 'a' + p * 8 + k; text[z] = 0;
        switch (kind[p]) {
            case 0: r = RKOperatorSendDelimitedString(op, text); break;
            case 1: r = RKOperatorSendCommandResponse(op, text); break;
            case 2: { RKNetDelimiter d; memset(&d, 0, sizeof d); d.type = RKNetworkPacketTypeRayDisplay; d.size = z + 1; r = RKOperatorSendPackets(op, &d, sizeof d, text, (ssize_t)z - 1, text + z - 1, (ssize_t)2, NULL); break; }
            default: op->beacon.type = RKNetworkPacketTypeBeacon; r = RKOperatorSendBeacon(op);
        }
        if (forever || dead) return NULL;   // part 0 looks at these
        mc_assert(r == 16 + (kind[p] == 3 ? 0 : kind[p] == 2 ? z + 1 : z), "result", "thread %d message %d: %ld", p, k, (long)r);
    }
    return NULL;
}
static void threads(void) {
    fresh(); const int np = 2 + mc_choose(2, "threads"); for (int p = 0; p < np; p++) { kind[p] = mc_choose(4, "kind"); count[p] = np == 2 ? 2 : 1; if (p && kind[p] < kind[p - 1]) mc_skip(); }
    mc_watch(&op->delimString, sizeof op->delimString); mc_watch(&op->beacon, sizeof op->beacon); pthread_t t[3]; faulty = true; mc_explore(true);
    for (int p = 0; p < np; p++) pthread_create(&t[p], NULL, sender, (void *)(intptr_t)p);
    for (int p = 0; p < np; p++) pthread_join(t[p], NULL);
    mc_explore(false); faulty = false; mc_watch_clear();
    if (forever || dead) mc_skip();
    int seen[3] = {0}, at = 0; uint64_t h = 0;
    while (at < out) {
        mc_assert(out - at >= 16, "content", "%d bytes are left", out - at); RKNetDelimiter d; memcpy(&d, wire + at, 16); at += 16;
        mc_assert(d.size <= (unsigned)(out - at), "content", "a message of %u bytes with %d left", d.size, out - at);
        const int k = d.type == RKNetworkPacketTypePlainText ? 0 : d.type == RKNetworkPacketTypeCommandResponse ? 1 : d.type == RKNetworkPacketTypeRayDisplay ? 2 : d.type == RKNetworkPacketTypeBeacon ? 3 : -1;
        mc_assert(k >= 0, "content", "a message of type %d", d.type); int p;
        if (k == 3) { mc_assert(d.size == 0, "content", "a beacon with %u bytes", d.size); for (p = 0; p < np && !(kind[p] == 3 && seen[p] < count[p]); p++) {} mc_assert(p < np, "content", "one beacon too many"); }
        else { p = (wire[at] - 'a') / 8; mc_assert(p >= 0 && p < np && kind[p] == k, "content", "text '%.*s' has type %d", (int)d.size, wire + at, d.type); const int j = (wire[at] - 'a') % 8; mc_assert(j == seen[p], "order", "thread %d message %d, expected %d", p, j, seen[p]); const unsigned z = 3 + p * 7 + j; mc_assert(d.size == z + (k == 2), "content", "message %d of thread %d says %u bytes, it has %u", j, p, d.size, z); for (unsigned i = 0; i < z; i++) mc_assert(wire[at + i] == wire[at], "content", "message %d of thread %d is mixed at %u", j, p, i); if (k == 2) mc_assert(wire[at + z] == 0, "content", "end"); }
        seen[p]++; at += d.size; h = h * 4 + p; mc_count(1);
    }
    for (int p = 0; p < np; p++) mc_assert(seen[p] == count[p], "lost", "%d of %d messages of thread %d", seen[p], count[p], p);
    mc_outcome(h); pthread_mutex_destroy(&op->lock); free(op);
}
static void setup(void) { rkQuiet(); strcpy(server.name, "server"); }
static void body(void) { static bool q; if (!q) { q = true; if (!mc_replaying() && !freopen("/dev/null", "w", stderr)) {} } faulty = false; if (mc_param("part", 0) == 0) sequences(); else threads(); }
int main(int argc, char **argv) {
    mc_config cfg = {.name = "c09_send", .setup = setup, .body = body, .bound = 2, .shard_depth = 2, .run_seconds = 20, .vt_limit_us = 120000000, .step_limit = 4000000};
    return mc_main(argc, argv, &cfg);
}
