// C10: a server hands over exactly the command lines that each peer sent, however their bytes arrive, and its payload reader exactly the payload.
// part 0: two cuts anywhere with gaps     1: many lines, slow handlers     2: peers that come and go, stopping and starting     3: payloads
#include "rk.h"
#include "simnet.h"
#ifndef VP_FORK
#define VP_FORK 0
#endif
enum { PEERS = 3, LINES = 24 };
static RKServer *M; static sn_script S[PEERS]; static char text[PEERS][600]; static int nl[PEERS], complete[PEERS], got[PEERS]; static char lines[PEERS][LINES][24]; static int64_t busy_us; static bool stopped; static int inside[PEERS];
static int who(RKOperator *O) { const sn_fd *f = sn_of(O->sid); for (int p = 0; p < PEERS; p++) if (f->s == &S[p]) return p; mc_fail("harness", "peer"); }
static void fresh(void) { memset(nl, 0, sizeof nl); memset(got, 0, sizeof got); memset(complete, 0, sizeof complete); memset(inside, 0, sizeof inside); for (int p = 0; p < PEERS; p++) { memset(&S[p], 0, offsetof(sn_script, seg)); S[p].in = (uint8_t *)text[p]; text[p][0] = 0; } busy_us = 0; stopped = false; sn_reset(); }
static void line(int p, const char *l, const char *eol) { if (*l) strcpy(lines[p][nl[p]++], l); strcat(text[p], l); strcat(text[p], eol); S[p].len = strlen(text[p]); complete[p] = nl[p]; }
static void rest(int p, const char *l) { strcpy(lines[p][nl[p]++], l); strcat(text[p], l); S[p].len = strlen(text[p]); }   // without an end: handed over or not
static void (*extra)(RKOperator *);
static int command(RKOperator *O) {
    mc_assert(!stopped, "after-stop", "a command after the server was freed"); const int p = who(O); char c[RKMaximumCommandLength]; strncpy(c, O->cmd, sizeof c - 1); c[sizeof c - 1] = 0; mc_assert(!inside[p], "order", "two commands of one peer at a time");
    if (!c[0] || !strcmp(c, "\n") || !strcmp(c, "\r")) return 0;   // an empty line
    const int k = got[p]++; mc_count(1); mc_assert(k < nl[p], "content", "'%s' is one command too many", c);
    mc_assert(!strcmp(c, lines[p][k]), "content", "command %d of peer %d is '%s' instead of '%s'", k, p, c, lines[p][k]);
    inside[p] = 1; if (busy_us) mc_sleep_us(busy_us); else mc_yield("command"); inside[p] = 0;
    mc_assert(!strcmp(O->cmd, lines[p][k]), "overwritten", "command %d '%s' became '%s' while it is being executed", k, lines[p][k], O->cmd);
    if (extra) extra(O); return 0;
}
static int streamed; static int stream(RKOperator *O) { streamed++; return 0; }
static void start(bool s) { M = RKServerInit(); strcpy(M->name, "s"); RKServerSetPort(M, 10); RKServerSetCommandHandler(M, command); if (s) RKServerSetStreamHandler(M, stream); RKServerStart(M); mc_assert(M->state == RKServerStateActive, "start", "the server did not start"); }
static void finish(void) { RKServerStop(M); RKServerFree(M); stopped = true; mc_sleep_us(1000); mc_assert(mc_live_threads() == 0, "thread", "%d threads are still there", mc_live_threads()); mc_assert(sn_left() == 0, "left-open", "%d of %d descriptors are still open", sn_left(), sn_n); }
static void await(int peers, int64_t more) { for (int p = 0; p < peers; p++) for (int64_t t = 0; got[p] < complete[p] && t < more; t += 50000) mc_sleep_us(50000); mc_sleep_us(60000); for (int p = 0; p < peers; p++) mc_assert(got[p] >= complete[p], "lost", "%d of %d commands of peer %d", got[p], complete[p], p); }
static void cuts(void) {
    static const char *const E[] = {"\r\n", "\n"}; static const int64_t G[] = {3000, 90000, 700000}; fresh(); const bool s = mc_choose(2, "streams"); const char *e = E[mc_choose(2, "line end")]; const int set = mc_choose(3, "lines");
    switch (set) { case 0: line(0, "ab", e); line(0, "c", e); line(0, "d efg", e); break; case 1: line(0, "abc", e); line(0, "", e); line(0, "d", e); line(0, "e", e); break; default: line(0, "ab", e); rest(0, "cd"); }
    const int L = S[0].len, a = mc_choose(L + 1, "cut"), ga = a ? mc_choose(3, "gap") : 0, b = a + mc_choose(L - a + 1, "cut"), gb = b > a && b < L ? mc_choose(3, "gap") : 0; const int end = mc_choose(4, "end"); busy_us = mc_choose(2, "slow handler") ? 120000 : 0;
    int64_t t = 1000; if (a) { sn_seg(&S[0], t, a); t += G[ga]; } if (b > a) { sn_seg(&S[0], t, b); if (b < L) t += G[gb]; } if (b < L) sn_seg(&S[0], t, L);
    S[0].end = end == 0 ? SN_OPEN : end == 3 ? SN_RST : SN_EOF; S[0].end_at = t + (end == 1 ? 0 : 500000); sn_add(&S[0], 5000); start(s); mc_sleep_us(t + 20000); await(1, 2000000); mc_outcome(got[0]); finish();
}
static void many(void) {
    static const int64_t W[] = {0, 4000, 35000, 400000}; fresh(); const int n = 1 + mc_choose(20, "lines"), per = 1 + mc_choose(3, "at a time") * 5; const int64_t gap = mc_choose(2, "gap") ? 15000 : 0; busy_us = W[mc_choose(4, "handler")]; const int end = mc_choose(3, "end"); const bool s = mc_choose(2, "streams"); int64_t t = 1000;
    for (int k = 0; k < n; k++) { char l[24]; sprintf(l, "%c%d%.*s", 'a' + k % 26, k, k % 7, "xyzuvwt"); line(0, l, "\r\n"); if (k % per == per - 1 || k == n - 1) { sn_seg(&S[0], t, S[0].len); t += gap; } }
    S[0].end = end ? SN_EOF : SN_OPEN; S[0].end_at = t + (end == 1 ? 0 : 300000); sn_add(&S[0], 5000); start(s); mc_sleep_us(t); await(1, n * (busy_us + 20000) + 1000000); mc_outcome(got[0]); finish();
}
static void peers(void) {   // two or three, the server is stopped at any time and started again
    fresh(); const int n = 1 + mc_choose(3, "peers"); const bool s = mc_choose(2, "streams"); const int end = mc_choose(3, "end"); static const int64_t W[] = {0, 3000, 30000, 130000, 900000}; const int64_t w = W[mc_choose(5, "stops after")]; const int limit = mc_choose(2, "limit") ? 1 : RKServerMaximumOperators; if (limit == 1 && n != 2) mc_skip(); busy_us = mc_choose(2, "slow handler") ? 50000 : 0; const bool again = mc_choose(2, "again");
    for (int p = 0; p < n; p++) { char l[24]; sprintf(l, "p%d", p); line(p, l, "\n"); sn_seg(&S[p], 1000, S[p].len); sprintf(l, "q%d", p); line(p, l, "\n"); sn_seg(&S[p], 20000, p == 1 ? S[p].len - 1 : S[p].len); if (p == 1) complete[p]--; S[p].end = end == 2 ? SN_RST : end; S[p].end_at = 60000; sn_add(&S[p], limit == 1 ? p * 400000 : p * 7000); }
    mc_explore(w <= (s ? 3000 : 30000)); M = RKServerInit(); strcpy(M->name, "s"); RKServerSetPort(M, 10); RKServerSetCommandHandler(M, command); if (s) RKServerSetStreamHandler(M, stream); M->maxClient = limit; RKServerStart(M);
    if (w) mc_sleep_us(w); else mc_yield("stop");
    if (w == 900000) for (int p = 0; p < n; p++) { const bool served = limit > 1 || p == 0 || (end && n == 2); if (end != 2 && served) mc_assert(got[p] >= complete[p], "lost", "%d of %d commands of peer %d", got[p], complete[p], p); if (limit == 1 && p && !end) mc_assert(got[p] == 0, "content", "a peer beyond the limit is served"); }
    mc_explore(true); finish(); mc_explore(false); mc_outcome(sn_n); mc_outcome(got[0] * 10 + got[1]);
    if (again) { fresh(); line(0, "more", "\n"); sn_seg(&S[0], 1000, S[0].len); sn_add(&S[0], 0); start(s); await(1, 1000000); finish(); }
}
static int psize, presult, plen; static bool pwant, pdone; static uint8_t *ref, *into; static int pformat;
static int reader(RKOperator *O) { if (!pwant || pdone) return 0; mc_sleep_us(0); presult = RKServerReceiveUserPayload(O, into, pformat); pdone = true; pwant = false; return 0; }
static void request(RKOperator *O) { pwant = true; }
static void payload(void) {   // "g", then, while the reader waits, a payload; then another command
    static const int Z[] = {0, 1, 5, 40, 700, 2000}; fresh(); const int z = Z[mc_choose(6, "size")], how = mc_choose(4, "how"), piece = 1 + mc_choose(3, "piece") * 16; const int64_t gap = mc_choose(2, "gap") ? 12000 : 1000; pwant = pdone = false; presult = -100; pformat = mc_choose(2, "format") ? RKNetworkMessageFormatConstantSize : RKNetworkMessageFormatHeaderDefinedSize; const bool fixed = pformat == RKNetworkMessageFormatConstantSize; if (fixed && (z || how == 2)) mc_skip();
    memset(into, 0xee, 4096); int n = 0; memcpy(ref, "g\r\n", 3); n = 3; RKNetDelimiter d; memset(&d, 0, sizeof d); d.type = 3; d.size = how == 2 ? RKMaximumPacketSize + 1 + mc_choose(2, "far") * 0x7fffffff : z;
    int want = fixed ? 4 : z; if (!fixed) { memcpy(ref + n, &d, 16); n += 16; } const int pstart = n; for (int k = 0; k < want && how != 2; k++) ref[n++] = 1 + k % 250;
    strcpy(lines[0][0], "g"); strcpy(lines[0][1], "next"); nl[0] = 2; complete[0] = 1; int all = n; if (how == 0) { memcpy(ref + n, "next\n", 5); all += 5; complete[0] = 2; }
    if (how == 1) { if (n == 3) mc_skip(); const int cutat = mc_choose(3, "cut off"); n = all = cutat == 0 ? n - 1 : cutat == 1 ? pstart : 3 + (n - 3) / 2; if (!fixed && z == 0 && n == pstart) mc_skip(); if (fixed && n < 3) mc_skip(); }
    S[0].in = ref; S[0].len = all; sn_seg(&S[0], 1000, 3); int64_t t = 150000; for (int k = 3; k < n; t += gap) { k = k + piece < n ? k + piece : n; sn_seg(&S[0], t, k); } if (all > n) sn_seg(&S[0], t + 100000, all);
    S[0].end = how == 1 ? SN_EOF : SN_OPEN; S[0].end_at = t + 1000;
    sn_add(&S[0], 0); extra = request; M = RKServerInit(); strcpy(M->name, "s"); RKServerSetPort(M, 10); RKServerSetCommandHandler(M, command); RKServerSetStreamHandler(M, reader); RKServerStart(M); mc_sleep_us(t + 200000);
    for (int k = 0; k < 400 && !pdone; k++) mc_sleep_us(100000);
    mc_assert(pdone, "lost", "the reader did not return"); mc_note("result %d", presult);
    if (how == 1 || how == 2) mc_assert(presult < 0, "content", "a payload that is not there: result %d", presult);
    else { mc_assert(presult == want, "content", "a payload of %d bytes: result %d", want, presult); for (int k = 0; k < want; k++) mc_assert(into[k] == ref[pstart + k], "content", "byte %d is %d", k, into[k]); for (int k = want + 1; k < 4096; k++) mc_assert(into[k] == 0xee, "content", "byte %d was written", k); }
    if (how == 0) await(1, 1000000);
    extra = NULL; finish(); mc_count(1); mc_outcome(presult);
}
static void setup(void) { rkQuiet(); ref = malloc(8192); into = malloc(4096); }
static void body(void) {
    static bool q; if (!q) { q = true; if (mc_param("quiet", 1) && !mc_replaying() && !freopen("/dev/null", "w", stderr)) {} }
    extra = NULL; switch (mc_param("part", 0)) { case 0: cuts(); break; case 1: many(); break; case 2: peers(); break; default: payload(); }
}
int main(int argc, char **argv) {
    mc_config cfg = {.name = "c10_server", .setup = setup, .body = body, .fork_runs = VP_FORK, .bound = 0, .shard_depth = 4, .run_seconds = 30, .vt_limit_us = 120000000, .step_limit = 4000000};
    return mc_main(argc, argv, &cfg);
}
