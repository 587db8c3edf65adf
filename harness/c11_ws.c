// C11: messages to and from the hub are exchanged exactly once, in order, in valid frames.
// part 0: outgoing sizes    1: two cuts anywhere    2: cuts of large frames    3: sends and pings between pieces    4: ends and new connections    5: stopping    6: responses, addresses, secrets    7: schedules    8: descriptions    9: queue
#include "rk.h"
#include "simnet.h"
#ifndef VP_FORK
#define VP_FORK 0
#endif
#define SECRET "RadarHub123456789abcde"
#define DIGEST "O9QKgAZPEwFaLSqyFPYMHcGBp5g="
static const char *OK101 = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " DIGEST "\r\n\r\n";
enum { CONN = 4, FR = 40, WIRE = 5 << 20 };
typedef struct { int op, size, at, end; bool ping; } frame;
typedef struct { uint8_t *b; int len, n, head; frame f[FR]; sn_script s; } feed;   // what the hub sends on a connection
static feed F[CONN]; static RKWebSocket *W; static uint8_t *wire[CONN]; static int wlen[CONN], parsed[CONN], frames_out[CONN];
static int delivered[CONN], ponged[CONN], opens, closes, wplan, wfail, wcount, nwritten; static bool stopped, echo;
static struct { uint8_t *b; int size; int conn; } out[1200]; static int nout, sent[CONN], first[CONN]; static int pings; static int64_t lastping; static bool secure; static uint8_t *pool; static int pooled;
// --- the hub
static void respond(feed *f, const char *r) { f->len = strlen(r); memcpy(f->b, r, f->len); f->head = f->len; f->n = 0; memset(&f->s, 0, offsetof(sn_script, seg)); f->s.in = f->b; f->s.end = SN_OPEN; f->s.end_at = 0; }
static uint8_t content(int op, int size, int tag, int k) { return op == 1 ? 'a' + (tag * 5 + k) % 26 : (tag * 31 + k * 7 + (k >> 8)) & 255; }
static void add(feed *f, int op, int size) {
    frame *q = &f->f[f->n]; const int tag = f->n++; q->op = op; q->size = size; q->at = f->len; uint8_t *b = f->b;
    b[f->len++] = 0x80 | op; if (size < 126) b[f->len++] = size; else if (size < 65536) { b[f->len++] = 126; b[f->len++] = size >> 8; b[f->len++] = size; } else { b[f->len++] = 127; for (int k = 7; k >= 0; k--) b[f->len++] = k > 3 ? 0 : size >> (8 * k); }
    for (int k = 0; k < size; k++) b[f->len++] = content(op, size, tag, k);
    q->end = f->len; f->s.len = f->len;
}
static int conn(void) { return sn_next - 1; }
// --- what the client sends
static void parse(int c) {
    while (1) {
        uint8_t *b = wire[c] + parsed[c]; const int n = wlen[c] - parsed[c];
        if (parsed[c] == 0) {
            char *e = NULL; if (n > 3) { wire[c][wlen[c]] = 0; e = strstr((char *)b, "\r\n\r\n"); } if (!e) return;
            mc_assert(!strncmp((char *)b, "GET /ws/radar/x/ HTTP/1.1\r\n", 27) && strstr((char *)b, "\r\nHost: hub\r\n") && strstr((char *)b, "\r\nUpgrade: websocket\r\n") && strstr((char *)b, "\r\nConnection: Upgrade\r\n") && strstr((char *)b, "\r\nSec-WebSocket-Version: 13\r\n"), "request", "%.200s", b);
            parsed[c] = e + 4 - (char *)b; continue;
        }
        if (n < 2) return;
        const int op = b[0] & 15; uint64_t z = b[1] & 127; int h = 2; mc_assert((b[0] & 0xf0) == 0x80, "frame", "first byte %02x of frame %d", b[0], frames_out[c]); mc_assert(b[1] & 128, "mask", "frame %d is not masked", frames_out[c]); mc_assert(op == 2 || op == 9 || op == 10, "frame", "opcode %x", op);
        if (z == 126) { if (n < 4) return; z = b[2] << 8 | b[3]; h = 4; mc_assert(z > 125, "frame", "length %d in two bytes", (int)z); } else if (z == 127) { if (n < 10) return; z = 0; for (int k = 0; k < 8; k++) z = z << 8 | b[2 + k]; h = 10; mc_assert(z > 65535 && z <= RKWebSocketFrameSize, "frame", "length %lld in eight bytes", (long long)z); }
        if ((uint64_t)n < h + 4 + z) return;
        const uint8_t *key = b + h, *p = key + 4; frames_out[c]++;
        if (op == 2) {
            const int k = sent[c]; mc_assert(k < nout && out[k].conn == c, "content", "message %d is sent on connection %d, %d are queued", k, c, nout); mc_assert((int)z == out[k].size, "content", "message %d of %d bytes is sent as %d bytes", k, out[k].size, (int)z);
            for (int i = 0; i < (int)z; i++) mc_assert((p[i] ^ key[i & 3]) == out[k].b[i], "content", "byte %d of message %d of %d bytes", i, k, (int)z); sent[c]++; mc_count(1);
        } else if (op == 10) {
            int k = -1, j = 0; for (int i = 0; i < F[c].n; i++) if (F[c].f[i].op == 9 && j++ == ponged[c]) { k = i; break; }
            mc_assert(k >= 0 && F[c].f[k].end <= sn[sn_n - 1].pos, "pong", "without a ping"); mc_assert((int)z == F[c].f[k].size, "pong", "of %d bytes for a ping of %d", (int)z, F[c].f[k].size); for (int i = 0; i < (int)z; i++) mc_assert((p[i] ^ key[i & 3]) == content(9, z, k, i), "pong", "byte %d", i); ponged[c]++; mc_count(1);
        } else { mc_assert(z == 4, "ping", "of %d bytes", (int)z); pings++; lastping = mc_now_us(); }
        parsed[c] += h + 4 + z;
    }
}
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t z) {
    if (!sn_is(fd)) return __real_write(fd, b, z);
    sn_fd *f = sn_of(fd); mc_yield("write"); mc_assert(f->open, "closed-used", "descriptor %d is written after it was closed", fd); const int c = conn();
    if ((f->s && f->s->end == SN_RST && sn_ended(f)) || (wfail >= 0 && wcount == wfail)) { wcount++; errno = EPIPE; return -1; }
    wcount++; if (wplan == 1 && z > 1 && wcount % 2) z = 1; else if (wplan == 2) z = (z + 1) / 2; else if (wplan == 3 && z > 3) z = 3;
    mc_assert(wlen[c] + (int)z < WIRE, "harness", "wire"); memcpy(wire[c] + wlen[c], b, z); wlen[c] += z; nwritten++; parse(c); errno = EAGAIN; return z;
}
struct hostent *__wrap_gethostbyname(const char *n) { mc_assert(!strcmp(n, "hub"), "address", "host '%s'", n); return __wrap_gethostbyname2(n, AF_INET); }
static const char *secretfile; FILE *__real_fopen(const char *, const char *); FILE *__wrap_fopen(const char *n, const char *m) { if (strcmp(n, "radarkit-radarhub-secret")) return __real_fopen(n, m); if (!secretfile) { errno = ENOENT; return NULL; } return fmemopen((void *)secretfile, strlen(secretfile), "r"); }
// --- SSL: a handshake is done once for each cleared object (a second SSL_connect() does nothing: validated against OpenSSL)
static struct { int fd; bool used, stale; } tls;
int __wrap_SSL_set_fd(SSL *s, int fd) { tls.fd = fd; return 1; }
int __wrap_SSL_clear(SSL *s) { tls.used = false; return 1; }
SSL *__real_SSL_new(SSL_CTX *); SSL *__wrap_SSL_new(SSL_CTX *c) { tls.used = tls.stale = false; return __real_SSL_new(c); }
int __wrap_SSL_connect(SSL *s) { tls.stale = tls.used; tls.used = true; return 1; }
int __wrap_SSL_read(SSL *s, void *b, int z) { mc_assert(tls.fd, "ssl", "no descriptor"); if (tls.stale) return -1; return __wrap_read(tls.fd, b, z); }
int __wrap_SSL_write(SSL *s, const void *b, int z) { if (tls.stale) return -1; return __wrap_write(tls.fd, b, z); }
// --- the user
static void send1(int size) {
    uint8_t *b = pool + pooled; pooled += size; mc_assert(pooled <= WIRE, "harness", "pool"); for (int k = 0; k < size; k++) b[k] = (nout * 13 + k * 3 + (k >> 9)) & 255; b[0] |= 1;
    out[nout].b = b; out[nout].size = size; out[nout].conn = conn(); nout++; mc_assert(RKWebSocketSend(W, b, size) == 0, "refused", "message %d", nout - 1);
}
static int opening;
static void onopen(RKWebSocket *w) { const int c = conn(); mc_assert(!stopped, "after-stop", "opened"); opens++; first[c] = nout; for (int k = 0; k < CONN; k++) if (k != c && k > c) {} sent[c] = nout; for (int k = 0; k < opening; k++) send1(3 + k); }
static void onclose(RKWebSocket *w) { closes++; }
static void onmessage(RKWebSocket *w, void *p, size_t z) {
    mc_assert(!stopped, "after-stop", "a message"); const int c = conn(); mc_assert(c >= 0 && c < CONN, "content", "a message on connection %d", c); int k = -1, j = 0; for (int i = 0; i < F[c].n; i++) if (F[c].f[i].op < 8 && j++ == delivered[c]) { k = i; break; }
    mc_assert(k >= 0, "content", "connection %d had %d messages, here is another one of %zu bytes", c, j, z); const frame *f = &F[c].f[k]; mc_assert((int)z == f->size, "content", "message %d of connection %d has %d bytes, %zu are delivered", delivered[c], c, f->size, z);
    mc_assert(sn[sn_n - 1].pos >= f->end, "early", "message %d", k); for (int i = 0; i < (int)z; i++) mc_assert(((uint8_t *)p)[i] == content(f->op, z, k, i), "content", "byte %d of message %d of connection %d", i, delivered[c], c);
    mc_assert(((char *)p)[z] == 0, "content", "message %d of connection %d goes on after its %zu bytes", delivered[c], c, z); delivered[c]++; mc_count(1); if (echo) send1(5);
}
static void prepare(void) {
    secretfile = NULL;    sn_reset(); for (int k = 0; k < CONN; k++) wlen[k] = parsed[k] = frames_out[k] = delivered[k] = ponged[k] = sent[k] = first[k] = 0;
    opens = closes = wcount = nwritten = nout = pings = pooled = opening = 0; lastping = 0; wplan = 0; wfail = -1; stopped = echo = secure = false; for (int k = 0; k < CONN; k++) respond(&F[k], OK101);
}
static void begin(const char *address) {
    for (int k = 0; k < CONN; k++) { if (!F[k].s.nseg) sn_seg(&F[k].s, 1000, F[k].len); sn_add(&F[k].s, 0); }
    W = RKWebSocketInit(address ? address : secure ? "https://hub:443" : "hub:80", "/ws/radar/x/"); mc_assert(W != NULL, "harness", "no socket");
    RKWebSocketSetOpenHandler(W, onopen); RKWebSocketSetCloseHandler(W, onclose); RKWebSocketSetMessageHandler(W, onmessage); RKWebSocketSetVerbose(W, 0);
}
static void finish(void) {
    const int64_t t = mc_now_us(); RKWebSocketStop(W); stopped = true; mc_assert(mc_now_us() - t < 600000, "late", "stopping takes %.1f s", (mc_now_us() - t) * 1e-6); mc_assert(mc_live_threads() == 0, "thread", "the socket is still there"); mc_assert(sn_left() == 0, "left-open", "%d descriptors are still open", sn_left()); RKWebSocketFree(W); W = NULL;
}
static int upto(int c, int at, bool pong) { int n = 0; for (int k = 0; k < F[c].n && F[c].f[k].end <= at; k++) { if (F[c].f[k].op == 8) break; n += pong ? F[c].f[k].op == 9 : F[c].f[k].op < 8; } return n; }
static void all_in(int c) { mc_assert(delivered[c] == upto(c, F[c].len, false), "lost", "%d of %d messages of connection %d are delivered", delivered[c], upto(c, F[c].len, false), c); mc_assert(ponged[c] == upto(c, F[c].len, true), "lost", "%d of %d pings of connection %d are answered", ponged[c], upto(c, F[c].len, true), c); }
static void all_out(int c) { mc_assert(sent[c] == nout, "lost", "%d of %d messages are sent on connection %d", sent[c] - first[c], nout - first[c], c); mc_assert(parsed[c] == wlen[c], "frame", "%d bytes are left over on connection %d", wlen[c] - parsed[c], c); }
static void wait_open(int n) { for (int k = 0; k < 4000 && !(opens == n && W->connected); k++) mc_sleep_us(5000); mc_assert(opens == n && W->connected, "not-open", "connection %d of %d", opens, n); }
// --- parts
static void sizes(void) {
    static const int Z[] = {1, 2, 3, 4, 5, 124, 125, 126, 127, 128, 255, 256, 65534, 65535, 65536, 65537, RKWebSocketFrameSize - 16, RKWebSocketFrameSize - 15, RKWebSocketFrameSize - 14, RKWebSocketFrameSize + 20};
    prepare(); const int a = mc_choose(20, "size"), b = mc_choose(20, "size"); const int plan = mc_choose(4, "takes"); secure = mc_choose(2, "secure"); if (plan == 3 && Z[a] + Z[b] > 2000) mc_skip(); wplan = plan; begin(NULL); RKWebSocketStart(W); wait_open(1);
    send1(Z[a]); send1(Z[b]); for (int k = 0; k < 2; k++) if (out[k].size > RKWebSocketFrameSize - 15) out[k].size = RKWebSocketFrameSize - 15;   // the limit, which the code mentions
    mc_sleep_us(100000); send1(1); mc_sleep_us(100000); all_out(0); mc_outcome(nout); finish();
}
static const int G[] = {0, 4000, 30000};
static const int SETS[][12] = {{1, 3, 9, 2, 2, 0, -1}, {2, 5, 10, 0, 9, 0, -1}, {9, 1, 9, 4, 1, 1, 10, 2, -1}, {1, 0, 2, 1, -1}, {2, 2, 9, 3, 8, 2, 1, 3, -1}, {1, 1, 8, 0, 2, 2, -1}, {2, 130, 9, 1, -1}};
static void fill(feed *f, int set) { for (int k = 0; SETS[set][k] >= 0; k += 2) add(f, SETS[set][k], SETS[set][k + 1]); }
static bool closing(int set) { return set == 4 || set == 5; }
static int pick(int n) { if (n <= 200) return mc_choose(n, "cut"); const int h = 100 * mc_choose((n + 99) / 100, "cut"); return h + mc_choose(n - h < 100 ? n - h : 100, "cut"); }
static void cut(feed *f, int from) {
    const int L = f->len, a = from + pick(L - from + 1), ga = a < L ? mc_choose(3, "gap") : 0, b = a + pick(L - a + 1), gb = b > a && b < L ? mc_choose(3, "gap") : 0; int64_t t = 1000;
    if (a) sn_seg(&f->s, t, a); t += G[ga]; if (b > a) { sn_seg(&f->s, t, b); t += G[gb]; } if (b < L) sn_seg(&f->s, t, L);
}
static void check(int set) {
    mc_sleep_us(150000); all_in(0); if (!closing(set)) all_out(0);
    if (closing(set)) { mc_assert(!W->connected || opens > 1, "close", "the connection goes on after it was closed"); wait_open(2); mc_sleep_us(60000); all_in(1); } else mc_assert(W->connected && opens == 1, "not-open", "the connection has ended");
    mc_outcome(opens); finish();
}
static void cuts(void) { prepare(); const int set = mc_choose(mc_param("sets", 7), "frames"); fill(&F[0], set); fill(&F[1], 0); secure = mc_choose(2, "secure"); echo = mc_choose(2, "answers"); opening = 1; cut(&F[0], mc_param("whole", 0) ? 0 : F[0].head - 2); begin(NULL); RKWebSocketStart(W); mc_sleep_us(80000); check(set); }
static void large(void) {
    static const int Z[] = {125, 126, 127, 65535, 65536, 70000, RKWebSocketFrameSize - 11, RKWebSocketFrameSize - 10, RKWebSocketFrameSize, RKWebSocketFrameSize + 1000}; prepare(); const int z = mc_choose(10, "size"), op = 1 + mc_choose(2, "opcode"), before = mc_choose(2, "before"), after = mc_choose(3, "after");
    if (before) add(&F[0], 1, 2); const int at = F[0].len; add(&F[0], op, Z[z]); const int end = F[0].len; if (after) { add(&F[0], 9, 3); add(&F[0], 2, after == 2 ? Z[z] : 4); } fill(&F[1], 0);
    const int P[] = {0, 1, 2, 3, 4, 9, 10, 11, 12, Z[z] / 2, end - at - 2, end - at - 1, end - at, end - at + 1, end - at + 2}; const int a = mc_choose(15, "cut"), b = mc_choose(15, "cut"); int x = at + P[a], y = at + P[b]; if (x > y) mc_skip(); if (x > F[0].len) x = F[0].len; if (y > F[0].len) y = F[0].len; const int g = mc_choose(2, "gap"), gg = g ? 30000 : 4000;
    sn_seg(&F[0].s, 1000, x); sn_seg(&F[0].s, 1000 + gg, y); sn_seg(&F[0].s, 1000 + 2 * gg, F[0].len); const bool toolarge = F[0].f[before].end - F[0].f[before].at > RKWebSocketFrameSize - 1; if (toolarge) { F[0].n = before; }
    begin(NULL); RKWebSocketStart(W); mc_sleep_us(250000); all_in(0); if (toolarge) { wait_open(2); mc_sleep_us(60000); all_in(1); } else mc_assert(W->connected && opens == 1, "not-open", "the connection has ended"); mc_outcome(opens); finish();
}
static void between(void) {   // sends, and pings for idleness, while frames arrive in pieces
    prepare(); const int set = mc_choose(4, "frames"); fill(&F[0], set); const int L = F[0].len, h = F[0].head, a = h + 1 + mc_choose(L - h - 1, "cut"); static const int64_t WH[] = {0, 15000, 35000, 200000, 1050000, 3000000}; const int64_t gap = WH[2 + mc_choose(4, "gap")], at = WH[mc_choose(4, "sends at")]; const int n = mc_choose(4, "sends"); wplan = mc_choose(3, "takes"); secure = mc_choose(2, "secure");
    sn_seg(&F[0].s, 1000, h); sn_seg(&F[0].s, 20000, a); sn_seg(&F[0].s, 20000 + gap, L); begin(NULL); const float period = 1.0f; RKWebSocketSetPingInterval(W, period); if (mc_choose(2, "stalls")) sn_stall = mc_now_us() + 300000;
    RKWebSocketStart(W); wait_open(1); mc_sleep_us(at); for (int k = 0; k < n; k++) { send1(1 + 125 * k); if (k == 1) mc_sleep_us(12000); }
    const int64_t t = mc_now_us(); mc_sleep_us(4500000); all_in(0); all_out(0); mc_assert(opens == 1, "not-open", "the connection has ended");
    mc_assert(pings >= 1 && pings <= 6, "ping", "%d pings in %.1f s", pings, (mc_now_us() - t) * 1e-6); mc_assert(mc_now_us() - lastping < 1300000, "ping", "the last one was %.1f s ago", (mc_now_us() - lastping) * 1e-6); mc_outcome(pings); finish();
}
static void ends(void) {   // a connection may end at any byte, by any side, in any way
    prepare(); const int set = mc_choose(4, "frames"); fill(&F[0], set); fill(&F[1], 1); fill(&F[2], 2); const int L = F[0].len, h = F[0].head; const int how = mc_choose(7, "end"); secure = mc_choose(2, "secure"); const bool during = mc_choose(2, "sends"); opening = 2; int n = L;
    if (how < 3) { n = h - 3 + mc_choose(L - h + 4, "bytes"); if (how == 2) sn_seg(&F[0].s, 1000, n); else { sn_seg(&F[0].s, 1000, h - 5); sn_seg(&F[0].s, 3000, n); } F[0].s.end = how == 0 ? SN_EOF : how == 1 ? SN_RST : SN_EOF; F[0].s.end_at = mc_choose(2, "ends at once") ? 3000 : 60000; }
    else { sn_seg(&F[0].s, 1000, L); if (how == 3) wfail = 1 + mc_choose(5, "write"); }
    wplan = mc_choose(2, "takes"); begin(NULL); if (how >= 4 && how <= 6) { const int k = 1 + mc_choose(how == 4 ? 16 : 12, "call"); if (how == 4) sn_select_err = k; else sn_select_exc = how == 5 ? k : 2 * k; }
    const bool refuse = mc_choose(2, "refuses"); RKWebSocketStart(W); if (refuse) { mc_sleep_us(2000); sn_refuse = 1; }
    mc_sleep_us(20000); if (during) { if (opens) { send1(7); } mc_sleep_us(20000); if (opens) send1(9); }
    for (int k = 0; k < 5000 && !(sn_next >= 2 && W->connected); k++) mc_sleep_us(5000);
    if (how >= 3 && sn_next < 2) { mc_outcome(99); all_in(0); finish(); return; }   // the fault did not come to pass
    const int c = conn(); mc_assert(sn_next >= 2 && W->connected, "not-open", "no new connection"); mc_assert(opens <= 2, "harness", "opens"); if (how == 0 || how == 2) { const int least = n < h ? 0 : upto(0, n, false); mc_assert(delivered[0] >= least || n < h, "lost", "%d messages of the first connection, %d are complete", delivered[0], least); }
    mc_sleep_us(60000); send1(11); send1(12); mc_sleep_us(60000); all_in(c); all_out(c); mc_assert(nout - first[c] == 4, "lost", "%d messages on connection %d", nout - first[c], c); mc_outcome(opens * 10 + c); finish();
}
static void stop(void) {
    prepare(); static const int64_t T[] = {0, 500, 2000, 15000, 60000, 1000000, 6000000, 11000000}; const int how = mc_choose(6, "hub"); const int64_t t = T[mc_choose(8, "stops after")]; secure = mc_choose(2, "secure"); fill(&F[0], 0); const int h = F[0].head;
    if (how == 0) sn_seg(&F[0].s, 1000, F[0].len); else if (how == 1) { sn_seg(&F[0].s, 1000, h - 4); F[0].s.len = h - 4; } else if (how == 2) { sn_seg(&F[0].s, 1000, F[0].len - 1); } else if (how == 3) { sn_seg(&F[0].s, 1000, F[0].len); F[0].s.end = SN_EOF; F[0].s.end_at = 12000; } else if (how == 4) { sn_seg(&F[0].s, 1000, h - 4); F[0].s.end = SN_EOF; F[0].s.end_at = 12000; } else { sn_seg(&F[0].s, 1 << 30, 1); }
    const bool refuse = mc_choose(2, "refuses"); begin(NULL); if (refuse) sn_refuse = 1; if (mc_choose(2, "stopped before")) { RKWebSocketStop(W); mc_assert(sn_n == 0, "thread", "started"); }
    mc_explore(true); RKWebSocketStart(W); if (t) mc_sleep_us(t); if (mc_choose(2, "sends")) { if (conn() >= 0) send1(4); } const int64_t now = mc_now_us(); RKWebSocketStop(W); mc_explore(false); mc_assert(mc_now_us() - now < 600000, "late", "stopping takes %.1f s", (mc_now_us() - now) * 1e-6); mc_assert(mc_live_threads() == 0, "thread", "the socket is still there"); mc_assert(sn_left() == 0, "left-open", "%d descriptors are still open", sn_left()); RKWebSocketStop(W);
    stopped = true; mc_sleep_us(100000); stopped = false; const int was = opens, c = sn_next; sn_refuse = 0; nout = 0; if (c < CONN) { respond(&F[c], OK101); fill(&F[c], 1); sn_seg(&F[c].s, 1000, F[c].len); } else mc_skip();
    RKWebSocketStart(W); wait_open(was + 1); mc_sleep_us(60000); send1(6); mc_sleep_us(60000); all_in(c); all_out(c); mc_outcome(was * 10 + c); finish();
}
static void responses(void) {
    static const struct { const char *r; int ok; } R[] = {
        {"HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Accept: " DIGEST "\r\n\r\n", 1}, {"HTTP/1.1 101 Switching Protocols\r\nSec-WebSocket-Accept: " DIGEST "\r\nconnection: upgrade\r\nupgrade: WebSocket\r\n\r\n", 1}, {"HTTP/1.1 101 X\r\nServer: a Upgrade b\r\nDate: Connection: keep\r\nUPGRADE:websocket\r\nCONNECTION:   Upgrade\r\nsec-websocket-accept: " DIGEST "\r\nX: y\r\n\r\n", 1},
        {"HTTP/1.1 101 X\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\r\n", 0}, {"HTTP/1.1 101 X\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: O9QKgAZPEwFaLSqyFPYMHcGBp5h=\r\n\r\n", 0}, {"HTTP/1.1 404 Not found\r\nContent-Length: 0\r\n\r\n", 0}, {"HTTP/1.1 101 X\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " DIGEST "\r\n\r\n", 0}, {"HTTP/1.1 101 X\r\nUpgrade: h2c\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " DIGEST "\r\n\r\n", 0}, {"HTTP/1.1 101 X\r\nUpgrade: websocket\r\nConnection: close\r\nSec-WebSocket-Accept: " DIGEST "\r\n\r\n", 0},
        {"HTTP/1.1 101 X\r\nUpgrade: websocketwebsocketwebsocketwebsocketwebsocketwebsocketwebsocketwebsocketwebsocketwebsocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " DIGEST "\r\n\r\n", 0}, {"HTTP/1.1 101 X\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " DIGEST DIGEST DIGEST DIGEST "\r\n\r\n", 0}, {"\r\n\r\n", 0}, {"Upgrade\r\n\r\n", 0}, {"HTTP/1.1 101 X\r\nUpgrade:\r\nConnection:\r\nSec-WebSocket-Accept:\r\n\r\n", 0}, {NULL, 0}, {NULL, 0},
    };
    static const struct { const char *a; int port; bool ssl; } A[] = {{"hub:80", 80, false}, {"hub:8000", 8000, false}, {"http://hub:8000", 8000, false}, {"https://hub:8443", 8443, true}, {"hub:443", 443, true}, {"hub", 80, false}, {"http://hub", 80, false}, {"https://hub", 443, true}, {"https://hub:443", 443, true}};
    static const char *S[] = {NULL, "abcdefghijklmnopqrstuv\n", "short", "ABCDEFGHIJKLMNOPQRSTUV"};
    prepare(); static char big[1 << 17]; if (!big[0]) { memset(big, 'x', sizeof big - 1); memcpy(big, "HTTP/1.1 101 X\r\nX: ", 19); strcpy(big + (1 << 16), "\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " DIGEST "\r\n\r\n"); }
    static char endless[RKWebSocketFrameSize + 4000]; if (!endless[0]) memset(endless, 'y', sizeof endless - 1);
    const int k = mc_choose(16, "response"), a = mc_choose(9, "address"), s = mc_choose(4, "secret"), piece = mc_choose(3, "pieces"); const char *r = k == 14 ? big : k == 15 ? endless : R[k].r; bool ok = k == 14 ? true : R[k].ok; if (k == 15 && piece == 1) mc_skip(); if (s && s != 2 && (k == 3 || k == 4 || k == 10)) mc_skip();   // the digest is only checked for the default secret
    respond(&F[0], r); add(&F[0], 2, 3); secretfile = S[s];
    if (k < 14 && piece == 1) { int64_t t = 1000; for (int j = 1; j <= F[0].len; j++, t += j % 3 ? 0 : 2000) sn_seg(&F[0].s, t, j); } else if (piece == 2) { sn_seg(&F[0].s, 1000, F[0].len / 2); sn_seg(&F[0].s, 30000, F[0].len); }
    if (!ok) { F[0].n = 0; fill(&F[1], 0); } secure = A[a].ssl; begin(A[a].a); RKWebSocketStart(W); mc_sleep_us(500000);
    mc_assert(W->port == A[a].port && !strcmp(W->host, "hub") && W->useSSL == A[a].ssl, "address", "'%s' is %s:%d", A[a].a, W->host, W->port);
    char key[80]; snprintf(key, sizeof key, "\r\nSec-WebSocket-Key: %.22s==\r\n", s == 0 || s == 2 ? SECRET : S[s]); mc_assert(strstr((char *)wire[0], key), "request", "%.300s", wire[0]);
    if (ok) { mc_assert(opens == 1 && W->connected, "not-open", "for the response\n%.400s", r); all_in(0); } else { mc_assert(opens == 0 && !W->connected, "open", "for the response\n%.400s", r); wait_open(1); mc_sleep_us(60000); mc_assert(conn() == 1, "harness", "connection"); all_in(1); }
    mc_outcome(ok); finish(); secretfile = NULL;
}
static volatile int done; static void *sender(void *in) { for (int k = 0; k < 2; k++) { send1(2 + k); } done++; return NULL; }
static void schedules(void) {
    prepare(); const int set = mc_choose(3, "frames"), end = mc_choose(3, "end"); fill(&F[0], set); fill(&F[1], 0); sn_seg(&F[0].s, 1000, F[0].head + 3); sn_seg(&F[0].s, 2000, F[0].len); if (end == 1) { F[0].s.end = SN_EOF; F[0].s.end_at = 30000; } echo = end == 2; begin(NULL); done = 0; pthread_t t; RKWebSocketStart(W); wait_open(1);
    mc_watch(&W->payloadHead, 4); mc_explore(true); pthread_create(&t, NULL, sender, NULL); if (end == 1) mc_sleep_us(24000); else mc_sleep_us(12000); mc_explore(false); mc_watch_clear(); pthread_join(t, NULL); mc_sleep_us(100000);
    if (end != 1) { all_in(0); all_out(0); } else { wait_open(2); mc_sleep_us(50000); all_in(1); send1(8); mc_sleep_us(50000); mc_assert(sent[1] == nout, "lost", "on the second connection"); }
    mc_outcome(sent[0]); finish();
}
static void describe(void) {
    static const int Z[] = {0, 1, 3, 4, 5, 31, 32, 33, 63, 64, 100, 125, 126, 127, 128, 200, 255, 256, 300, 600, 70000}; prepare(); const int v = mc_choose(4, "verbose"), op = mc_choose(4, "opcode"), z = mc_choose(21, "size"); static const int OP[] = {1, 2, 9, 10}; if (OP[op] > 8 && Z[z] > 125) mc_skip();
    add(&F[0], OP[op], Z[z]); add(&F[0], 2, 3); begin(NULL); RKWebSocketSetVerbose(W, v); RKWebSocketSetPingInterval(W, 0.5f); RKWebSocketStart(W); wait_open(1); if (Z[z]) send1(Z[z]); mc_sleep_us(1200000); all_in(0); all_out(0); mc_assert(pings > 0, "ping", "none"); mc_outcome(pings); finish();
}
static void queue(void) {   // as many messages as the queue takes, and more
    prepare(); static const int N[] = {1, 2, 500, 997, 998, 999, 1000, 1001, 1100}; static uint8_t b[4]; const int n = N[mc_choose(9, "messages")], before = N[mc_choose(4, "before")]; begin(NULL); RKWebSocketStart(W); wait_open(1); for (int k = 0; k < before; k++) { send1(1); if (k % 300 == 0) mc_sleep_us(50000); } mc_sleep_us(200000); all_out(0);
    if (before + n > 1190) mc_skip(); int taken = 0; sn_stall = mc_now_us() + 500000; mc_sleep_us(15000); for (int k = 0; k < n; k++) { uint8_t *p = pool + pooled++; *p = 1 + nout % 250; out[nout].b = p; out[nout].size = 1; out[nout].conn = 0; if (RKWebSocketSend(W, p, 1) == 0) { nout++; taken++; } }
    mc_assert(taken >= (n < RKWebSocketPayloadDepth - 2 ? n : RKWebSocketPayloadDepth - 2), "refused", "only %d of %d messages are taken", taken, n); mc_sleep_us(700000); all_out(0); send1(2); mc_sleep_us(50000); all_out(0); mc_outcome(taken); (void)b; finish();
}
static void setup(void) { rkQuiet(); signal(SIGPIPE, SIG_IGN); for (int k = 0; k < CONN; k++) { F[k].b = malloc((4 << 20) + 4096); wire[k] = malloc(WIRE + 1); } pool = malloc(WIRE); }
static void body(void) {
    static bool q; if (!q) { q = true; if (mc_param("quiet", 1) && !mc_replaying()) { if (!freopen("/dev/null", "w", stderr)) {} if (!freopen("/dev/null", "w", stdout)) {} } }
    switch (mc_param("part", 0)) { case 0: sizes(); break; case 1: cuts(); break; case 2: large(); break; case 3: between(); break; case 4: ends(); break; case 5: stop(); break; case 6: responses(); break; case 7: schedules(); break; case 8: describe(); break; default: queue(); }
}
int main(int argc, char **argv) {
    mc_config cfg = {.name = "c11_ws", .setup = setup, .body = body, .fork_runs = VP_FORK, .bound = 0, .shard_depth = 4, .run_seconds = 30, .vt_limit_us = 120000000, .step_limit = 4000000};
    return mc_main(argc, argv, &cfg);
}
