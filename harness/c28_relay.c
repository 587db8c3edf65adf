// C28: what a relay gets from another radar arrives in its buffers as it was sent; commands get their own answers; streams that are asked for are asked for.
// part 0: histories of messages     part 1: schedules of users, subscriptions, connections and a stop
#include "rk.h"
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
enum { FD = 900, RCAP = 64, PCAP = 128, SD = 3, HD = 5, CD = 3, PD = 3, RD = 3, T0 = 1700000000 };
static RKClient *client; static RKRadarDesc desc; static RKStatus status[SD]; static RKConfig configs[CD]; static RKHealth healths[HD]; static RKBuffer pulses, rays; static uint32_t si, ci, hi, pi, ri; static size_t pulseBytes, rayBytes;
static bool threads; static void remoteStart(void), remoteStop(void), receive(const char *, size_t); 
static int (*recvHandler)(RKClient *);
void __wrap_RKClientStart(RKClient *c, const bool wait) { (void)wait; client = c; pthread_mutex_init(&c->lock, NULL); recvHandler = c->recv; c->sd = FD; c->state = RKClientStateConnecting; if (threads) remoteStart(); }
void __wrap_RKClientStop(RKClient *c) { if (c->state < RKClientStateCreating || c->state >= RKClientStateDisconnecting) return; pthread_mutex_lock(&c->lock); c->state = RKClientStateDisconnecting; pthread_mutex_unlock(&c->lock); if (threads) remoteStop(); pthread_mutex_destroy(&c->lock); c->state = RKClientStateNull; }
ssize_t __wrap_send(int fd, const void *b, size_t z, int fl) { mc_assert(fd == FD, "peer", "bytes to %d", fd); if (threads) { mc_yield("send"); receive(b, z); } return (ssize_t)z; }
static RKRadarRelay *relay;
static void wire(RKRadarRelay *e) { RKRadarRelaySetEssentials(e, &desc, NULL, status, &si, configs, &ci, healths, &hi, pulses, &pi, rays, &ri); RKRadarRelaySetHost(e, "remote:10000"); }
static void setup(void) {
    rkQuiet(); desc.initFlags = RKInitFlagRelay; desc.statusBufferDepth = SD; desc.healthBufferDepth = HD; desc.configBufferDepth = CD; desc.pulseBufferDepth = PD; desc.rayBufferDepth = RD; desc.pulseCapacity = PCAP;
    pulseBytes = RKPulseBufferAlloc(&pulses, PCAP, PD); rayBytes = RKRayBufferAlloc(&rays, RCAP, RD);
    if (mc_param("part", 0) == 0) { relay = RKRadarRelayInit(); wire(relay); RKRadarRelayStart(relay); RKRadarRelayStop(relay); client = calloc(1, sizeof *client); client->recv = recvHandler; client->userResource = relay; client->sd = FD; relay->client = client; client->state = RKClientStateConnected; }
}
// --- part 0.  A copy of everything is kept, and brought up to date the way the messages say
static RKStatus status2[SD]; static RKConfig configs2[CD]; static RKHealth healths2[HD]; static uint8_t *pulses2, *rays2; static int nmsg;
static const int PB[10] = {RKBaseProductIndexZ, RKBaseProductIndexV, RKBaseProductIndexW, RKBaseProductIndexD, RKBaseProductIndexP, RKBaseProductIndexR, RKBaseProductIndexK, RKBaseProductIndexQ, RKBaseProductIndexSh, RKBaseProductIndexSv};   // in the order of the server
static const uint32_t U8[10] = {RKBaseProductListUInt8Z, RKBaseProductListUInt8V, RKBaseProductListUInt8W, RKBaseProductListUInt8D, RKBaseProductListUInt8P, RKBaseProductListUInt8R, RKBaseProductListUInt8K, RKBaseProductListUInt8Q, RKBaseProductListUInt8Sh, RKBaseProductListUInt8Sv};
static const uint32_t F4[10] = {RKBaseProductListFloatZ, RKBaseProductListFloatV, RKBaseProductListFloatW, RKBaseProductListFloatD, RKBaseProductListFloatP, RKBaseProductListFloatR, RKBaseProductListFloatK, RKBaseProductListFloatQ, RKBaseProductListFloatSh, RKBaseProductListFloatSv};
static void deliver(RKNetworkPacketType type, const void *b, size_t z) { char *p = malloc(z + 1); memcpy(p, b, z); p[z] = 0; client->userPayload = p; client->netDelimiter.type = type; client->netDelimiter.size = (uint32_t)z; client->recv(client); client->userPayload = NULL; free(p); }
static void fill(uint8_t *b, size_t z, int seed) { for (size_t k = 0; k < z; k++) b[k] = (uint8_t)(seed * 41 + k * 7 + (k >> 8) * 3); }
static void same(const char *after) {
    mc_assert(memcmp(status, status2, sizeof status) == 0, "status", "message %d (%s) changed another status", nmsg, after);
    mc_assert(memcmp(configs, configs2, sizeof configs) == 0, "config", "message %d (%s) changed another configuration", nmsg, after);
    for (int k = 0; k < HD; k++) mc_assert(healths[k].flag == healths2[k].flag && strcmp(healths[k].string, healths2[k].string) == 0 && healths[k].timeDouble == healths2[k].timeDouble, "health", "message %d (%s) changed another health", nmsg, after);
    mc_assert(memcmp(pulses, pulses2, pulseBytes) == 0, "pulse", "message %d (%s) changed another pulse", nmsg, after);
    mc_assert(memcmp(rays, rays2, rayBytes) == 0, "ray", "message %d (%s) changed another ray", nmsg, after);
}
static uint8_t payload[1 << 17];
static void aHealth(const char *text, size_t z, int expected, const char *lines[], const char *what) {
    uint32_t k = hi; deliver(RKNetworkPacketTypeHealth, text, z); mc_assert(hi == (k + expected) % HD, "health-index", "%d healths (%s) bring the index from %u to %u", expected, what, k, hi);
    for (int j = 0; j < expected; j++, k = (k + 1) % HD) {
        const size_t n = MIN(strlen(lines[j]), (size_t)RKMaximumStringLength - 1); RKHealth *h = &healths[k]; mc_assert(strlen(h->string) == n && memcmp(h->string, lines[j], n) == 0, "health", "%s: '%.60s' instead of '%.60s'", what, h->string, lines[j]); mc_assert(h->flag & RKHealthFlagReady, "health", "%s: not ready", what); struct timeval t; gettimeofday(&t, NULL); mc_assert(fabs(h->timeDouble - (double)t.tv_sec) < 2 && labs((long)(h->time.tv_sec - t.tv_sec)) < 2, "health-time", "%s: %f", what, h->timeDouble);
        healths2[k] = *h;
    }
    if (expected) { mc_assert(!(healths[k].flag & RKHealthFlagReady), "health-next", "the next one is ready"); healths2[k] = healths[k]; }
}
static void rayMessage(void) {
    static const int G[] = {0, 5, RCAP, RCAP + 9}; static const int BAD[] = {0, 1, 2, 3, 4, 5}; RKRayHeaderV1 h; memset(&h, 0, sizeof h); int list = mc_choose(5, "products"); uint32_t products = 0;
    for (int p = 0; p < 10; p++) { if (list == 0 ? p < 2 : list == 1 || list == 3 || (list == 4 && p != 3)) products |= U8[p]; if (list == 2 || list == 3 || (list == 4 && p % 3 == 1)) products |= F4[p]; }
    const int gates = G[mc_choose(4, "gates")], bad = gates == 5 || (gates == RCAP && list == 0) ? BAD[mc_choose(6, "consistent")] : 0;
    h.capacity = 77; h.s = RKRayStatusProcessed | RKRayStatusReady; h.i = 1000 + nmsg; h.n = 5 + nmsg; h.marker = nmsg & 1 ? RKMarkerScanTypePPI : RKMarkerSweepMiddle; h.baseProductList = products; h.configIndex = nmsg % 4; h.configSubIndex = 2; h.gateCount = gates; h.pulseCount = 9; h.gateSizeMeters = 30; h.sweepElevation = 2; h.sweepAzimuth = 7; h.startTime.tv_sec = T0; h.startTime.tv_usec = nmsg; h.startTimeDouble = T0 + 0.5; h.startAzimuth = nmsg; h.startElevation = 1; h.endTime.tv_sec = T0 + 1; h.endTimeDouble = T0 + 1.5; h.endAzimuth = nmsg + 1; h.endElevation = 1.5f; h.fftOrder = 4;
    size_t z = sizeof h; for (int p = 0; p < 10; p++) if (products & U8[p]) for (int g = 0; g < gates; g++) payload[z++] = (uint8_t)(nmsg * 31 + p * 17 + g); for (int p = 0; p < 10; p++) if (products & F4[p]) for (int g = 0; g < gates; g++, z += 4) { const float v = nmsg * 1000 + p * 100 + g + 0.5f; memcpy(payload + z, &v, 4); }
    if (bad == 1) z--; else if (bad == 2) payload[z++] = 1; else if (bad == 3) h.baseProductList |= 1u << 31; else if (bad == 4) h.gateCount++; else if (bad == 5) z = sizeof h - 1; memcpy(payload, &h, MIN(sizeof h, z));
    const uint32_t k = ri; deliver(RKNetworkPacketTypeRayDisplay, payload, z); if (bad) { mc_assert(ri == k, "ray-bad", "a ray that does not fit (%d) was taken", bad); same("bad ray"); return; }
    mc_assert(ri == (k + 1) % RD, "ray-index", "%u after %u", ri, k); RKRay *r = RKGetRayFromBuffer(rays, k), *n = RKGetRayFromBuffer(rays, ri); const int kept = MIN(gates, RCAP);
    mc_assert(r->header.capacity == RCAP, "ray-capacity", "%u", r->header.capacity); mc_assert((r->header.s & RKRayStatusReady) && !(n->header.s & RKRayStatusReady), "ray-status", "%x %x", r->header.s, n->header.s); mc_assert(r->header.gateCount == kept, "ray-gates", "%d of %d", r->header.gateCount, gates); mc_assert(r->header.configIndex < CD && (h.configIndex >= CD || r->header.configIndex == h.configIndex), "ray-config", "configuration %d instead of %d", r->header.configIndex, h.configIndex);
    mc_assert(r->header.i == h.i && r->header.n == h.n && r->header.marker == h.marker && r->header.baseProductList == h.baseProductList && r->header.configSubIndex == 2 && r->header.pulseCount == 9 && r->header.gateSizeMeters == 30 && r->header.sweepElevation == 2 && r->header.sweepAzimuth == 7 && memcmp(&r->header.startTime, &h.startTime, sizeof h.startTime) == 0 && r->header.startTimeDouble == h.startTimeDouble && r->header.startAzimuth == h.startAzimuth && r->header.startElevation == 1 && memcmp(&r->header.endTime, &h.endTime, sizeof h.endTime) == 0 && r->header.endTimeDouble == h.endTimeDouble && r->header.endAzimuth == h.endAzimuth && r->header.endElevation == 1.5f && r->header.fftOrder == 4, "ray-header", "ray %d", nmsg);
    for (int p = 0; p < 10; p++) { const uint8_t *u = RKGetUInt8DataFromRay(r, PB[p]); const float *f = RKGetFloatDataFromRay(r, PB[p]); for (int g = 0; g < kept; g++) { if (products & U8[p]) mc_assert(u[g] == (uint8_t)(nmsg * 31 + p * 17 + g), "ray-data", "product %d gate %d is %d", p, g, u[g]); if (products & F4[p]) mc_assert(f[g] == nmsg * 1000 + p * 100 + g + 0.5f, "ray-data", "product %d gate %d is %g", p, g, f[g]); } }
    memcpy(rays2 + ((uint8_t *)r - (uint8_t *)rays), r, rayBytes / RD); memcpy(rays2 + ((uint8_t *)n - (uint8_t *)rays), &n->header, sizeof n->header); same("ray");
}
static void pulseMessage(void) {
    static const int G[] = {0, 5, PCAP, PCAP + 9}; RKPulseHeader h; memset(&h, 0, sizeof h); const int gates = G[mc_choose(4, "gates")], bad = gates == 5 ? mc_choose(5, "consistent") : 0;
    h.capacity = 99; h.i = 70 + nmsg; h.n = nmsg; h.t = 12345 + nmsg; h.s = RKPulseStatusProcessed | RKPulseStatusHasIQData; h.gateCount = gates; h.marker = RKMarkerSweepMiddle; h.pulseWidthSampleCount = 3; h.configIndex = nmsg % 4; h.gateSizeMeters = 15; h.azimuthDegrees = nmsg; h.elevationDegrees = 2; h.timeDouble = T0 + nmsg;
    size_t z = sizeof h; for (int c = 0; c < 2; c++) for (int g = 0; g < gates; g++, z += sizeof(RKInt16C)) { RKInt16C x = {.i = (int16_t)(nmsg * 300 + c * 150 + g), .q = (int16_t)-(nmsg * 300 + c * 150 + g + 7)}; memcpy(payload + z, &x, sizeof x); }
    if (bad == 1) z--; else if (bad == 2) payload[z++] = 3; else if (bad == 3) h.gateCount--; else if (bad == 4) z = sizeof h - 1; memcpy(payload, &h, MIN(z, sizeof h));
    const uint32_t k = pi; deliver(RKNetworkPacketTypePulseData, payload, z); if (bad) { mc_assert(pi == k, "pulse-bad", "a pulse that does not fit (%d) was taken", bad); same("bad pulse"); return; }
    mc_assert(pi == (k + 1) % PD, "pulse-index", "%u after %u", pi, k); RKPulse *p = RKGetPulseFromBuffer(pulses, k), *n = RKGetPulseFromBuffer(pulses, pi); const int kept = MIN(gates, PCAP);
    mc_assert(p->header.capacity == PCAP && (int)p->header.gateCount == kept, "pulse-gates", "%u of %u", p->header.gateCount, p->header.capacity); mc_assert(p->header.s == h.s && n->header.s == RKPulseStatusVacant, "pulse-status", "%x %x", p->header.s, n->header.s); mc_assert(p->header.configIndex < CD && (h.configIndex >= CD || p->header.configIndex == h.configIndex), "pulse-config", "%d", p->header.configIndex);
    RKPulseHeader a = p->header; a.capacity = h.capacity; a.gateCount = h.gateCount; a.configIndex = h.configIndex; mc_assert(memcmp(&a, &h, sizeof a) == 0, "pulse-header", "pulse %d", nmsg);
    for (int c = 0; c < 2; c++) { const RKInt16C *x = RKGetInt16CDataFromPulse(p, c); for (int g = 0; g < kept; g++) mc_assert(x[g].i == (int16_t)(nmsg * 300 + c * 150 + g) && x[g].q == (int16_t)-(nmsg * 300 + c * 150 + g + 7), "pulse-data", "channel %d gate %d is %d", c, g, x[g].i); }
    memcpy(pulses2 + ((uint8_t *)p - (uint8_t *)pulses), p, pulseBytes / PD); memcpy(pulses2 + ((uint8_t *)n - (uint8_t *)pulses), &n->header, sizeof n->header); same("pulse");
}
static void statusMessage(void) {
    const int bad = mc_choose(4, "size"); RKStatus s; memset(&s, 0, sizeof s); s.i = nmsg; s.memoryUsage = nmsg * 100; s.pulseMonitorLag = nmsg + 1; s.recorderLag = nmsg + 2; s.flag = RKStatusFlagReady; memset(payload, 0, sizeof s + 1); memcpy(payload, &s, sizeof s); const uint32_t k = si; deliver(RKNetworkPacketTypeProcessorStatus, payload, bad == 3 ? 0 : sizeof s + (bad == 1) - (bad == 2));
    if (!bad) { mc_assert(si == (k + 1) % SD, "status-index", "%u after %u", si, k); RKStatus a = status[k]; mc_assert(a.flag == RKStatusFlagReady && status[si].flag == RKStatusFlagVacant, "status-flag", "%d %d", (int)a.flag, (int)status[si].flag); a.flag = s.flag; mc_assert(memcmp(&a, &s, sizeof a) == 0, "status", "status %d", nmsg); status2[k] = status[k]; status2[si].flag = RKStatusFlagVacant; } else mc_assert(si == k, "status-bad", "a status of another size was taken"); same("status");
}
static void sweepMessage(void) {
    const int bad = mc_choose(4, "size"); static RKSweepHeader h; memset(&h, 0, sizeof h); h.i = nmsg; h.rayCount = 2; h.gateCount = 10; fill((uint8_t *)&h.config, sizeof h.config, nmsg); h.config.i = 500 + nmsg; h.config.prt[0] = 0.001f * nmsg; memcpy(payload, &h, sizeof h); const uint32_t k = ci; deliver(RKNetworkPacketTypeSweepHeader, payload, bad == 3 ? 4 : sizeof h + (bad == 1) - (bad == 2));
    if (!bad) { mc_assert(ci == (k + 1) % CD, "config-index", "%u after %u", ci, k); mc_assert(configs[k].waveform == NULL && configs[k].waveformDecimate == NULL && configs[k].userResource == NULL, "config-address", "configuration %d has addresses of the other radar", nmsg); RKConfig a = configs[k]; a.waveform = h.config.waveform; a.waveformDecimate = h.config.waveformDecimate; a.userResource = h.config.userResource; mc_assert(memcmp(&a, &h.config, sizeof a) == 0, "config", "configuration %d", nmsg); configs2[k] = configs[k]; } else mc_assert(ci == k, "config-bad", "a sweep header of another size was taken"); same("sweep");
}
static void healthMessage(void) {
    static char a[64], b[64], c[64], text[12000], big[6000]; const int how = mc_choose(8, "healths"); sprintf(a, "{\"A\":%d}", nmsg); sprintf(b, "{\"B\":{\"Value\":%d}}", nmsg); sprintf(c, "{\"C\":\"%d\"}", nmsg); memset(big, 'x', 5000); big[5000] = 0; const char *one[] = {a}, *three[] = {a, b, c}, *two[] = {b, big}, *edge[] = {big};
    switch (how) {
        case 0: sprintf(text, "%s", a); aHealth(text, strlen(text), 1, one, "one"); break;
        case 1: sprintf(text, "%s" RKEOL, a); aHealth(text, strlen(text), 1, one, "one line"); break;
        case 2: sprintf(text, "%s\n%s\n%s\n", a, b, c); aHealth(text, strlen(text), 3, three, "three"); break;
        case 3: sprintf(text, "%s\n%s" RKEOL, b, big); aHealth(text, strlen(text), 2, two, "a long one"); break;
        case 4: aHealth("", 0, 0, NULL, "nothing"); break;
        case 5: aHealth("\r\n\n", 3, 0, NULL, "blank lines"); break;
        case 6: sprintf(text, "%s", a); aHealth(text, strlen(text) + 1, 1, one, "with its end"); break;
        case 7: big[RKMaximumStringLength - 1] = 0; sprintf(text, "%s", big); aHealth(text, strlen(text), 1, edge, "as long as can be"); break;
    }
    same("health");
}
static void histories(void) {
    if (!pulses2) { pulses2 = malloc(pulseBytes); rays2 = malloc(rayBytes); }
    si = ci = hi = pi = ri = 0; fill((uint8_t *)status, sizeof status, 1); fill((uint8_t *)configs, sizeof configs, 2); memset(healths, 0, sizeof healths); for (int k = 0; k < HD; k++) { snprintf(healths[k].string, 64, "health %d of before", k); healths[k].flag = RKHealthFlagReady; }
    for (int k = 0; k < PD; k++) { RKPulse *p = RKGetPulseFromBuffer(pulses, k); fill((uint8_t *)p, pulseBytes / PD, 3 + k); p->header.capacity = PCAP; p->header.s = k ? RKPulseStatusProcessed : 0; } for (int k = 0; k < RD; k++) { RKRay *r = RKGetRayFromBuffer(rays, k); fill((uint8_t *)r, rayBytes / RD, 6 + k); r->header.capacity = RCAP; r->header.s = k ? RKRayStatusReady : 0; }
    memcpy(status2, status, sizeof status); memcpy(configs2, configs, sizeof configs); memcpy(healths2, healths, sizeof healths); memcpy(pulses2, pulses, pulseBytes); memcpy(rays2, rays, rayBytes); relay->sweepRayIndex = relay->sweepPacketCount = 0; relay->responseIndex = 0; memset(&relay->sweepHeaderCache, 0, sizeof relay->sweepHeaderCache); 
    const int ops = (int)mc_param("ops", 3);
    for (nmsg = 1; nmsg <= ops; nmsg++) {
        switch (mc_choose(9, "message")) {
            case 0: rayMessage(); break; case 1: pulseMessage(); break; case 2: statusMessage(); break; case 3: healthMessage(); break; case 4: sweepMessage(); break;
            case 5: { const int z = mc_choose(2, "size") ? 200 : 0; fill(payload, 200, nmsg); deliver(RKNetworkPacketTypeSweepRay, payload, z); same("sweep ray"); break; }
            case 6: { const int z = 20000 * mc_choose(2, "size"); memset(payload, 'r', 20000); deliver(mc_choose(2, "kind") ? RKNetworkPacketTypeControls : RKNetworkPacketTypeCommandResponse, payload, z); same("response"); break; }
            case 7: deliver(RKNetworkPacketTypeBeacon, payload, 0); same("beacon"); break;
            case 8: { static const int T[] = {0, RKNetworkPacketTypePlainText, RKNetworkPacketTypeRayData, RKNetworkPacketTypeRadarDescription, 77, 1 << 30}; fill(payload, 300, nmsg); deliver(T[mc_choose(6, "type")], payload, 300); same("other"); break; }
        }
        mc_count(1); mc_outcome(si + 4 * ci + 16 * hi + 128 * pi + 512 * ri);
    }
}
// --- part 1.  The other radar: answers what it gets, in order
static pthread_t other; static bool stopping; static char inbox[4096]; static int have; static RKStream remoteStreams; static bool attached; static int losses, lossAfter, delay, greets; static uint64_t lossCount;
static void receive(const char *b, size_t z) { if (!attached) return; mc_assert(have + (int)z < (int)sizeof inbox, "flood", "%d bytes", have); memcpy(inbox + have, b, z); have += (int)z; inbox[have] = 0; }
static void say(RKNetworkPacketType t, const char *text) { static char b[1024]; snprintf(b, sizeof b, "%s", text); pthread_mutex_lock(&client->lock); if (client->state < RKClientStateDisconnecting) client->state = RKClientStateConnected; pthread_mutex_unlock(&client->lock); client->userPayload = b; client->netDelimiter.type = t; client->netDelimiter.size = (uint32_t)strlen(b); client->recv(client); }
static bool running(void) { return client->state < RKClientStateDisconnecting; }
static void *theOther(void *x) {
    int said = 0, idle = 0; char line[1024], answer[1100];
    while (running()) {
        client->state = RKClientStateConnecting; mc_sleep_us(20000); have = 0; attached = true; remoteStreams = RKStreamNull; greets++; client->init(client); bool lost = false; idle = 0;
        while (running() && !lost) {
            char *e = have ? memchr(inbox, '\n', have) : NULL;
            if (!e) { mc_sleep_us(10000); if (++idle % 8 == 0) { say(RKNetworkPacketTypeBeacon, ""); } continue; }
            const int n = (int)(e - inbox); memcpy(line, inbox, n); line[n] = 0; memmove(inbox, e + 1, have - n - 1); have -= n + 1; if (n && line[n - 1] == '\r') line[n - 1] = 0;
            for (char *q = line; *q; q++) mc_assert(*q >= ' ' && *q < 127, "garbled", "'%s'", line); mc_sleep_us(delay); if (losses > 0 && said == lossAfter) { losses--; lossCount++; lost = true; break; } said++;
            if (line[0] == 'a') say(RKNetworkPacketTypeControls, "CONTROLS" RKEOL); else if (line[0] == 's') { remoteStreams = RKStreamFromString(line + 1); sprintf(answer, "{\"type\": \"init\", \"streams\": %lx}" RKEOL, (unsigned long)remoteStreams); say(RKNetworkPacketTypeCommandResponse, answer); } else { snprintf(answer, sizeof answer, "ACK <%s>" RKEOL, line); say(RKNetworkPacketTypeCommandResponse, answer); }
        }
        attached = false; remoteStreams = RKStreamNull; if (!running()) break; pthread_mutex_lock(&client->lock); if (client->state < RKClientStateDisconnecting) client->state = RKClientStateReconnecting; pthread_mutex_unlock(&client->lock); for (int k = 0; k < 10 && running(); k++) mc_sleep_us(30000);
    }
    return NULL;
}
static void remoteStart(void) { pthread_create(&other, NULL, theOther, NULL); }
static void remoteStop(void) { pthread_join(other, NULL); }
static int ended, cause; static const char *const ASK[2][2] = {{"d first", "d second"}, {"x third", "a who"}};
static void *user(void *in) {
    const int u = (int)(intptr_t)in; char *answer = malloc(RKRadarRelayFeedbackCapacity), want[64];
    for (int k = 0; k < 2; k++) {
        if (k == 0) { mc_sleep_us(45000); } const char *q = cause == 3 && u == 1 && k == 1 ? "disconnect" : ASK[u][k]; strcpy(answer, "?"); const uint64_t l = lossCount; const bool up = client->state == RKClientStateConnected; const int64_t t = mc_now_us(); const int r = RKRadarRelayExec(relay, q, answer); if (q[0] == 'd' && q[1] == 'i') { mc_assert(r == RKResultSuccess && strncmp(answer, "ACK", 3) == 0, "disconnect", "'%.60s'", answer); lossCount++; continue; } const bool steady = up && l == lossCount && !stopping && client->state == RKClientStateConnected;
        if (q[0] == 'a') sprintf(want, "CONTROLS" RKEOL); else sprintf(want, "ACK <%s>" RKEOL, q); mc_assert(strcmp(answer, want) == 0 || strncmp(answer, "NAK", 3) == 0, "answer", "'%s' got '%.60s'", q, answer); mc_assert((strcmp(answer, want) == 0) == (r == RKResultSuccess), "result", "%d with '%.60s'", r, answer); if (steady) mc_assert(r == RKResultSuccess, "refused", "'%s' got '%.60s' of a relay that is connected", q, answer); mc_assert(mc_now_us() - t < 14000000, "late", "'%s' took %ld us", q, (long)(mc_now_us() - t)); mc_outcome(r);
    }
    free(answer); ended++; return NULL;
}
static void schedules(void) {
    threads = true; si = ci = hi = pi = ri = 0; cause = mc_choose(4, "event"); delay = mc_choose(2, "slow") ? 30000 : 0; const int first = mc_choose(3, "first"), second = mc_choose(3, "second"); losses = cause == 1; lossAfter = losses ? mc_choose(5, "after") : 0; stopping = false; lossCount = 0; ended = greets = have = 0; attached = false; remoteStreams = RKStreamNull; client = NULL; other = 0;
    relay = RKRadarRelayInit(); wire(relay); static const RKStream S[] = {RKStreamNull, RKStreamDisplayZ | RKStreamHealthInJSON, RKStreamDisplayZ, RKStreamDisplayV | RKStreamProductZ}; RKStream want = RKStreamNull;
    if (first == 0) RKRadarRelayUpdateStreams(relay, want = S[1]);
    mc_explore(true); RKRadarRelayStart(relay); pthread_t t[2]; const int users = cause == 2 || first == 2 ? 1 : 2; for (int k = 0; k < users; k++) pthread_create(&t[k], NULL, user, (void *)(intptr_t)k);
    if (first == 1) RKRadarRelayUpdateStreams(relay, want = S[1]); else if (first == 2) { mc_sleep_us(45000); RKRadarRelayUpdateStreams(relay, want = S[3]); }
    if (second) { if (second == 2) mc_sleep_us(50000); RKRadarRelayUpdateStreams(relay, want = second == 1 ? S[2] : S[0]); }
    if (cause == 2) { mc_sleep_us(first == 2 ? 20000 : 60000); stopping = true; RKRadarRelayStop(relay); }
    for (int k = 0; k < users; k++) pthread_join(t[k], NULL); mc_explore(false);
    if (cause == 3 && users == 2) { char b[128] = "?"; mc_assert(RKRadarRelayExec(relay, "d", b) != RKResultSuccess && strncmp(b, "NAK", 3) == 0, "disconnected", "'%s'", b); RKRadarRelayUpdateStreams(relay, S[2]); mc_assert(!attached, "disconnected", "still there"); RKRadarRelayStop(relay); }
    else if (cause != 2) { mc_sleep_us(2000000); losses = 0; mc_assert(attached, "gone", "not connected"); mc_assert(RKRadarRelayExec(relay, "z last", NULL) == RKResultSuccess, "refused", "the last command"); mc_assert(relay->streams == want, "streams", "%lx instead of %lx", (unsigned long)relay->streams, (unsigned long)want); mc_assert(remoteStreams == want, "streams", "the other radar sends %lx instead of %lx", (unsigned long)remoteStreams, (unsigned long)want); mc_assert(!false, "locked", "a lock is held"); RKRadarRelayStop(relay); }
    mc_assert(mc_live_threads() == 0, "threads", "%d threads are left", mc_live_threads()); char b[256] = "?"; mc_assert(RKRadarRelayExec(relay, "d", b) != RKResultSuccess && strncmp(b, "NAK", 3) == 0, "stopped", "'%s'", b); RKRadarRelayFree(relay); mc_count(1); mc_outcome(greets);
}
static void body(void) { mc_set_clock_us((int64_t)T0 * 1000000); if (mc_param("part", 0)) schedules(); else histories(); }
int main(int argc, char **argv) {
    mc_config cfg = {.name = "c28_relay", .setup = setup, .body = body, .bound = 0, .shard_depth = 4, .run_seconds = 60, .vt_limit_us = 100000000, .step_limit = 2000000};
    return mc_main(argc, argv, &cfg);
}
