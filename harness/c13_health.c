// C13: consolidated health reflects the latest fresh report of every node.
// part 0: histories of reports and silences    part 1: GPS readings    part 2: sizes    part 3: schedules
#include "rk.h"
#include <string.h>
#include <stdlib.h>
enum { DEPTH = 10, NODES = 3, MAXQ = 64, SHAPES = 8 };   // nodes: the radar's own, two others
static RKRadar *radar; static RKHealth *healths; static RKHealth *own[NODES]; static RKHealthEngine *eng;
static struct { int shape; int64_t t; } rep[NODES][MAXQ]; static int newest[NODES], floor_[NODES]; static int64_t pending[NODES];
static int64_t now(void) { return mc_now_us(); }
static double lat[2] = {35.18125, 35.25}, lon[2] = {-97.4365, -97.5}, hdg[2] = {10.5, 123.25}; static int shapeSize;
// what node j says the q-th time
static int text(char *s, int j, int q, int e) {
    const int shape = rep[j][q].shape; int i = sprintf(s, "{\"N%d\":{\"Value\":%d,\"Enum\":%d}", j, q, e);
    switch (shape) {
        case 0: i += sprintf(s + i, ", \"State %d\":{\"Value\":\"True\",\"Enum\":%d}, \"Text %d\":\"a, b}{ \\\" :\"}", j, e ? e : 1, j); break;
        case 1: case 2: case 3: case 5: { const int k = shape == 2, f = e ? e : shape == 3 ? 2 : 0; if (shape == 2) i += sprintf(s + i, ",\"GPS Latitude\":{\"Value\":\"%.5f\",\"Enum\":%d},\"GPS Longitude\":{\"Value\":\"%.5f\",\"Enum\":%d},\"GPS Heading\":{\"Value\":\"%.2f\",\"Enum\":%d}}", lat[k], f, lon[k], f, hdg[k], f); else if (shape == 5) i += sprintf(s + i, ", \"GPS Heading\": {\"Value\": %.2f, \"Enum\": %d}, \"Pedestal Latitude\": {\"Value\": 1, \"Enum\": %d}}", hdg[1], f, e ? e : 1); else i += sprintf(s + i, ", \"GPS Latitude\":{\"Value\":%.5f,\"Enum\":%d}, \"GPS Longitude\":{\"Value\":%.5f,\"Enum\":%d}, \"GPS Heading\":{\"Value\":%.2f,\"Enum\":%d}}", lat[k], f, lon[k], f, hdg[k], f); break; }
        case 4: i = sprintf(s, "{}"); break;
        case 6: i += sprintf(s + i, "}  \r\n"); break;
        case 7: i += sprintf(s + i, ",\"Long %d\":\"", j); for (int k = i + (e < 0 ? -1 : 0); k < shapeSize - 2; k++) s[i++] = 'a' + k % 26; strcpy(s + i, "\"}"); i += 2; break;
    }
    return i;
}
static void strip(char *s) { char *d = s; bool in = false; for (; *s; s++) { if (*s == '"' && (s[-1] != '\\' )) in = !in; if (in || (*s != ' ' && *s != '\r' && *s != '\n')) *d++ = *s; } *d = 0; }
static char *mod(char *s, const char *name) {   // the enum of the first object whose name has this
    char *p = s; while ((p = strstr(p, "\":{"))) { char *b = p; while (b[-1] != '"') b--; char key[64]; snprintf(key, sizeof key, "%.*s", (int)(p - b), b); if (strcasestr(key, name)) { char *e = strstr(p, "\"Enum\":") + 7; int l = (*e == '-') + 1; memmove(e + 1, e + l, strlen(e + l) + 1); *e = '3'; break; } p += 2; } return s;
}
static int changes[2]; static double at[3]; static bool shownOld[NODES]; static int shown[NODES], seen; static uint32_t taken;
static void record(const RKHealth *h) {
    const int64_t T = now(); static char s[RKMaximumStringLength + 8], e[4 * RKMaximumStringLength], one[2 * RKMaximumStringLength]; mc_assert(memchr(h->string, 0, sizeof h->string), "overflow", "a record without an end"); strcpy(s, h->string); char raw[200]; snprintf(raw, sizeof raw, "%s", s); strip(s); int i = sprintf(e, "{"); const RKRadarDesc *d = &radar->desc; bool gps = false; double la = NAN, lo = NAN, he = NAN; int total = 0;
    for (int j = 0; j < NODES; j++) if (radar->healthNodes[j].active) {
        char k[16]; snprintf(k, sizeof k, "\"N%d\":{", j); char *p = strstr(s, k); int q = -1, f = 0;
        if (!p) { bool may = newest[j] < 0 || floor_[j] < 0; for (int r = floor_[j] < 0 ? 0 : floor_[j]; r <= newest[j]; r++) { may |= rep[j][r].shape == 4; if (rep[j][r].shape == 7) may |= total + shapeSize > RKMaximumStringLength - 1024; } mc_assert(may, "missing", "node %d is not in %s", j, raw); shown[j] = -1; if (rep[j][newest[j]].shape == 7) pending[j] = 0; continue; }
        mc_assert(sscanf(p, "\"N%*d\":{\"Value\":%d,\"Enum\":%d", &q, &f) == 2 && (f == 0 || f == RKStatusEnumOld), "content", "node %d in %s", j, raw);
        mc_assert(q <= newest[j] && q >= 0, "content", "node %d says %d, of %d", j, q, newest[j]); mc_assert(q >= floor_[j], "stale", "node %d says %d although it had said %d before the last record", j, q, floor_[j]);
        const int64_t age = T - rep[j][q].t;
        if (f == 0) mc_assert(age <= 1600000, "stale", "node %d says %d, %.1f s ago, as if it was fresh", j, q, age * 1e-6);
        else for (int r = 0; r <= newest[j]; r++) mc_assert(rep[j][r].t <= T - 900000 || rep[j][r].t >= T - 200000, "fresh", "node %d is marked as old although it reported %.1f s ago", j, (T - rep[j][r].t) * 1e-6);
        shown[j] = q; shownOld[j] = f != 0; int z = text(one, j, q, f); total += z; strip(one); i += sprintf(e + i, "%.*s,", (int)strlen(one + 1) - 1, one + 1);
        const int sh = rep[j][q].shape; if (sh == 1 || sh == 2 || sh == 3 || sh == 5) { const bool ok = f == 0 && sh != 3; if (sh != 5 && isnan(la) && !gps) { if (ok) { la = lat[sh == 2]; lo = lon[sh == 2]; } } if (isnan(he) && !(gps)) { if (ok) he = hdg[sh == 2 || sh == 5]; } if (sh != 5) gps = true; }
    }
    if (isnan(he) || d->initFlags & (RKInitFlagIgnoreHeading | RKInitFlagIgnoreGPS)) { mod(e, "heading"); i = strlen(e); i += sprintf(e + i, "\"Heading Override\":{\"Value\":true,\"Enum\":0},\"Sys Heading\":{\"Value\":\"%.2f deg\",\"Enum\":0},", at[2]); }
    else if (fabs(at[2] - he) > 1) { if (changes[0]++ > 3) { at[2] = (float)he; changes[0] = 0; } } else changes[0] = 0;
    if (isnan(la) || d->initFlags & RKInitFlagIgnoreGPS) { mod(e, "latitude"); mod(e, "longitude"); i = strlen(e); i += sprintf(e + i, "\"GPS Override\":{\"Value\":true,\"Enum\":0},\"Sys Latitude\":{\"Value\":\"%.7f\",\"Enum\":0},\"Sys Longitude\":{\"Value\":\"%.7f\",\"Enum\":0},\"LocationFromDescriptor\":true,", at[0], at[1]); }
    else if (fabs(at[0] - la) > 3.5e-5 || fabs(at[1] - lo) > 3.5e-5) { if (changes[1]++ > 3) { at[0] = la; at[1] = lo; changes[1] = 0; } } else changes[1] = 0;
    char *l = strstr(s, "\"Log Time\":"); mc_assert(l, "content", "no time in %s", raw); const long t = atol(l + 11); mc_assert(t <= T / 1000000 && t >= (T - 2500000) / 1000000, "time", "%ld at %.3f", t, T * 1e-6); sprintf(e + i, "\"Log Time\":%ld}", t);
    for (char *c; (c = strstr(e, "\"True\""));) { memcpy(c, "true", 4); memmove(c + 4, c + 6, strlen(c + 6) + 1); }
    if (strcmp(s, e)) { int k = 0; while (s[k] == e[k]) k++; mc_fail("content", "record is '%.300s', expected '%.300s' (at %d of %zu)", s + (k > 60 ? k - 60 : 0), e + (k > 60 ? k - 60 : 0), k, strlen(s)); }
    mc_assert(d->latitude == at[0] && d->longitude == at[1] && d->heading == (float)at[2], "location", "%.5f %.5f %.2f, expected %.5f %.5f %.2f", d->latitude, d->longitude, d->heading, at[0], at[1], at[2]);
    mc_count(1); seen++; mc_outcome((int64_t)(d->latitude * 1e5) + (int64_t)(d->heading * 10));
    for (int j = 0; j < NODES; j++) { floor_[j] = newest[j]; if (pending[j] && shown[j] >= 0) { for (int r = 0; r <= shown[j]; r++) if (rep[j][r].t >= pending[j]) { pending[j] = 0; break; } } if (pending[j] && rep[j][newest[j]].shape == 4) pending[j] = 0; mc_outcome(shown[j] * 2 + shownOld[j]); }
}
static void intact(void) { static char s[2 * RKMaximumStringLength]; for (int j = 0; j < NODES; j++) for (int q = newest[j] - 3; q <= newest[j]; q++) if (q >= 0) { text(s, j, q, 0); mc_assert(!strcmp(s, own[j][q % DEPTH].string), "altered", "report %d of node %d is '%.200s'", q, j, own[j][q % DEPTH].string); } }
static void look(void) {
    while (taken != radar->healthIndex) { const uint32_t n = (radar->healthIndex + DEPTH - taken) % DEPTH; mc_assert(n == 1, "harness", "%u records at once", n); mc_assert(healths[taken].flag & RKHealthFlagReady, "ready", "record %u is not ready", taken); taken = (taken + 1) % DEPTH; record(&healths[(taken + DEPTH - 1) % DEPTH]); }
    for (int k = 0; k < DEPTH; k++) mc_assert(healths[k].i == 0x1122334455667788ull + k, "overflow", "record %d was written beyond", k);
    for (int j = 0; j < NODES; j++) mc_assert(!pending[j] || now() - pending[j] < 2600000, "lost", "what node %d said is in no record for %.1f s", j, (now() - pending[j]) * 1e-6);
}
static RKHealth *slot;
static void say(int j, int shape) {
    look(); RKHealth *h = slot ? slot : RKGetVacantHealth(radar, j); slot = NULL; const int q = newest[j] + 1; mc_assert(q < MAXQ && h == &own[j][q % DEPTH], "slot", "report %d of node %d goes to slot %ld", q, j, (long)(h - own[j])); rep[j][q].shape = shape; text(h->string, j, q, 0); RKSetHealthReady(radar, h); rep[j][q].t = now(); newest[j] = q; if (!pending[j]) pending[j] = now();
}
static int64_t beat;
static void pass(int64_t us) { const int64_t end = now() + us; while (now() < end) { if (now() >= beat) { say(0, 0); beat = now() + 300000; if (beat < now()) beat = now(); } look(); mc_sleep_us(10000); } look(); intact(); }
static void wired(int flags) {
    for (int j = 0; j < NODES; j++) { memset(own[j], 0, DEPTH * sizeof(RKHealth)); newest[j] = floor_[j] = shown[j] = -1; pending[j] = 0; shownOld[j] = false; radar->healthNodes[j] = (RKNodalHealth){.healths = own[j]}; }
    memset(healths, 0, DEPTH * sizeof(RKHealth)); for (int k = 0; k < DEPTH; k++) healths[k].i = 0x1122334455667788ull + k; memset(rep, 0, sizeof rep); changes[0] = changes[1] = 0; taken = seen = 0; beat = 0; slot = NULL;
    memset(&radar->desc, 0, sizeof radar->desc); radar->desc.healthNodeCount = NODES; radar->desc.healthBufferDepth = DEPTH; radar->desc.initFlags = flags; radar->desc.latitude = at[0] = 35.18125; radar->desc.longitude = at[1] = -97.4365; radar->desc.heading = at[2] = 10; radar->healthIndex = 0; radar->healths = healths; radar->state = RKRadarStateLive;
    eng = radar->healthEngine = RKHealthEngineInit(); RKHealthEngineSetEssentials(eng, &radar->desc, radar->healthNodes, healths, &radar->healthIndex); mc_assert(RKHealthEngineStart(eng) == RKResultSuccess, "start", "start failed");
}
static void done(void) { pass(1500000); mc_assert(seen > 2, "none", "%d records", seen); mc_assert(RKHealthEngineStop(eng) == RKResultSuccess, "stop", "stop failed"); RKHealthEngineFree(eng); radar->healthEngine = NULL; }
static void histories(void) {
    wired(0); RKHealthEngineSetVerbose(eng, 0); pass(700000); const int N = mc_param("events", 4);
    for (int e = 0; e < N; e++) switch (mc_choose(9, "event")) {
        case 0: say(1, 0); break;
        case 1: say(1, 3); break;
        case 2: say(2, 6); break;
        case 3: say(2, 5); pass(50000); break;
        case 4: say(1, 4); pass(150000); break;
        case 5: pass(150000); break;
        case 6: pass(450000); break;
        case 7: pass(1700000); break;
        case 8: say(1, 1); pass(150000); say(2, 7); break;
    }
    done();
}
static void gps(void) {
    static const int F[] = {0, RKInitFlagIgnoreGPS, RKInitFlagIgnoreHeading}; wired(F[mc_choose(3, "flags")]); pass(300000); const int N = mc_param("events", 7); const bool both = mc_choose(2, "both");
    for (int e = 0; e < N; e++) { const int k = mc_choose(4, "reading"); say(1, k == 0 ? 2 : k == 1 ? 1 : k == 2 ? 3 : 5); if (both) say(2, 2 - (e & 1)); pass(330000); }
    done();
}
static void sizes(void) {
    static const int S[] = {1000, 1200, 1300, 1390, 1400, 1500, 1700, 1790, 1800, 1900, 2000, 2040, 2400, 3000, 3400, 3500, 3560, 3580, 3600, 3900, 4000, 4090}; shapeSize = S[mc_choose(22, "size")]; wired(0); pass(300000); const int which = mc_choose(3, "which");
    for (int e = 0; e < 3; e++) { if (which != 1) say(1, 7); else say(1, 0); if (which != 0) say(2, 7); pass(e == 1 ? 1900000 : 400000); }
    done(); shapeSize = 1800;
}
static void schedules(void) {
    wired(0); pass(300000); say(1, 0); const int when = mc_choose(mc_param("steps", 40), "when") * 50;
    mc_watch(&radar->healthNodes[1], sizeof radar->healthNodes[1]); for (int k = 0; k < 4; k++) mc_watch(&own[1][k].flag, sizeof own[1][k].flag);
    static const long stall[] = {11000, 60000}; mc_stalls(2, stall); if (when > 60) pass((when - 60) * 1000); mc_explore(true); pass((when > 60 ? 60 : when) * 1000); say(1, 1); pass(350000); say(1, 0); pass(350000); mc_explore(false); mc_watch_clear(); done();
}
static void setup(void) { rkQuiet(); radar = calloc(1, sizeof(RKRadar)); healths = calloc(DEPTH, sizeof(RKHealth)); radar->healthNodes = calloc(RKHealthNodeCount, sizeof(RKNodalHealth)); for (int j = 0; j < NODES; j++) own[j] = calloc(DEPTH, sizeof(RKHealth)); shapeSize = 900; }
static void body(void) { static bool q; if (!q) { q = true; if (!mc_replaying() && !freopen("/dev/null", "w", stderr)) {} } switch (mc_param("part", 0)) { case 0: histories(); break; case 1: gps(); break; case 2: sizes(); break; case 3: schedules(); } }
int main(int argc, char **argv) {
    mc_config cfg = {.name = "c13_health", .setup = setup, .body = body, .bound = 0, .shard_depth = 2, .run_seconds = 20, .vt_limit_us = 60000000, .step_limit = 4000000};
    return mc_main(argc, argv, &cfg);
}
