// C27: what a client of the command centre subscribes to arrives once, in order and in whole messages.
// part 0: histories of rays, healths, statuses, sweeps and changes of the streams     part 1: schedules of the stream and the command thread
// part 2: text streams     part 3: command lines     part 4: I/Q     part 5: products that clients return
#include "rk.h"
#include <stddef.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
int socketCommandHandler(RKOperator *); int socketStreamHandler(RKOperator *); int socketInitialHandler(RKOperator *); int socketTerminateHandler(RKOperator *);
enum { FD = 900, WIRE = 1 << 19, RB = 14, HB = 9, SB = 9, PB = 24, CAP = 64, T0 = 1700000000, NOTHING = -1 };
static uint8_t wire[WIRE]; static int out, seen; static bool racing;
static uint8_t inbox[1 << 18]; static int in, inRead;
ssize_t __wrap_send(int fd, const void *b, size_t z, int fl) { mc_assert(fd == FD, "peer", "bytes to %d", fd); if (racing) mc_yield("send"); mc_assert(out + (int)z <= WIRE, "endless", "%zu bytes at once behind %d", z, out); memcpy(wire + out, b, z); out += (int)z; return (ssize_t)z; }
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t z) { if (fd != FD) return __real_read(fd, b, z); if (inRead == in) { errno = EAGAIN; return -1; } if (z > (size_t)(in - inRead)) z = in - inRead; memcpy(b, inbox + inRead, z); inRead += (int)z; return (ssize_t)z; }
#ifdef VP_LEAN
void *__real_memset(void *, int, size_t);
void *__wrap_memset(void *p, int c, size_t z) { if (z != sizeof(RKUser)) return __real_memset(p, c, z); __real_memset(p, c, offsetof(RKUser, string)); const size_t o = offsetof(RKUser, serverOperator); __real_memset((char *)p + o, c, z - o); return p; }   // the buffers of a user are large, and written before they are read
#endif
int __wrap_RKExecuteCommand(RKRadar *r, const char *c, char *s) { if (racing) mc_yield("execute"); if (s) sprintf(s, "ACK. {%s}" RKEOL, c); return 0; }
static int relayed; static char relayedText[1024];
int __wrap_RKRadarRelayExec(RKRadarRelay *e, const char *c, char *s) { relayed++; snprintf(relayedText, sizeof relayedText, "%s", c); if (s) sprintf(s, "ACK. <%s>" RKEOL, c); return 0; }
int __real_RKRadarRelayUpdateStreams(RKRadarRelay *, RKStream);
int __wrap_RKRadarRelayUpdateStreams(RKRadarRelay *e, RKStream s) { if (racing) mc_yield("update"); const int r = __real_RKRadarRelayUpdateStreams(e, s); if (racing) mc_yield("updated"); return r; }
static RKCommandCenter *center; static RKServer *server; static RKOperator *op; static RKUser *user; static RKRadar *radar; static RKBuffer rays0, pulses0;
static RKSweepEngine *se; static RKMomentEngine *me; static RKPulseEngine *pe; static RKPositionEngine *po; static RKHealthEngine *he; static RKRawDataRecorder *rr; static RKSteerEngine *st; static RKPulseRingFilterEngine *re; static RKRadarRelay *relay;
enum { DEPTH = RKMaximumProductBufferDepth }; static RKBuffer wide; static int wideRays, wideGates;
static size_t raySize; static RKControl controls[4]; static RKProduct *products;
static void setup(void) {
    rkQuiet(); center = calloc(1, sizeof *center); server = calloc(1, sizeof *server); radar = calloc(1, sizeof *radar); op = calloc(1, sizeof *op); pthread_mutex_init(&center->mutex, NULL); center->server = server; user = &center->users[0];
    raySize = RKRayBufferAlloc(&rays0, CAP, RB) / RB; RKPulseBufferAlloc(&pulses0, CAP * 2, PB);
    se = calloc(1, sizeof *se); me = calloc(1, sizeof *me); pe = calloc(1, sizeof *pe); po = calloc(1, sizeof *po); he = calloc(1, sizeof *he); rr = calloc(1, sizeof *rr); st = calloc(1, sizeof *st); re = calloc(1, sizeof *re); relay = calloc(1, sizeof *relay); RKProductBufferAlloc(&products, DEPTH, 90, 10); RKRayBufferAlloc(&wide, 128, 1);
    radar->status = calloc(SB, sizeof(RKStatus)); radar->healths = calloc(HB, sizeof(RKHealth)); radar->rays = rays0; radar->pulses = pulses0; radar->controls = controls; radar->healthNodes = calloc(RKHealthNodeCount, sizeof *radar->healthNodes); for (int k = 0; k < RKHealthNodeCount; k++) radar->healthNodes[k].healths = calloc(HB, sizeof(RKHealth)); pthread_mutex_init(&se->productMutex, NULL);
}
// --- the radar
static int nray, nready, lag, nhealth, nstatus, nsweep, core, npulse; static bool dsp, emptySweep[64];
static const int BITS[10] = {RKBaseProductIndexZ, RKBaseProductIndexV, RKBaseProductIndexW, RKBaseProductIndexD, RKBaseProductIndexP, RKBaseProductIndexR, RKBaseProductIndexK, RKBaseProductIndexSh, RKBaseProductIndexSv, RKBaseProductIndexQ};
static uint8_t shown(int n, int p, int g) { return (uint8_t)(n * 37 + p * 13 + g * 3 + 1); }
static float value(int n, int p, int g) { return n * 1000.0f + p * 64.0f + g * 0.5f + 0.25f; }
static int gates(int n) { return 20 + n % 3; }
static void fillRay(RKRay *r, int n) {
    const uint32_t cap = r->header.capacity; memset(&r->header, 0, sizeof r->header); r->header.capacity = cap; r->header.i = n; r->header.n = n + 7; r->header.marker = n & 1 ? RKMarkerScanTypePPI : RKMarkerSweepMiddle; r->header.baseProductList = 0x03FF03FF; r->header.baseMomentList = 0x77; r->header.configIndex = n % 10; r->header.configSubIndex = 3; r->header.gateCount = gates(n); r->header.pulseCount = 5; r->header.gateSizeMeters = 30.0f; r->header.sweepElevation = 2.0f; r->header.sweepAzimuth = 9.0f;
    r->header.startTime.tv_sec = T0 + n; r->header.startTimeDouble = T0 + n; r->header.endTime.tv_sec = T0 + n + 1; r->header.endTimeDouble = T0 + n + 1; r->header.startAzimuth = n; r->header.endAzimuth = n + 1; r->header.startElevation = 0.5f * n; r->header.endElevation = 0.5f * n + 0.1f; r->header.fftOrder = 4;
    for (int p = 0; p < 10; p++) { uint8_t *u = RKGetUInt8DataFromRay(r, BITS[p]); float *f = RKGetFloatDataFromRay(r, BITS[p]); for (int g = 0; g < CAP; g++) { u[g] = shown(n, p, g); f[g] = value(n, p, g); } }
}
static void newRay(void) {   // the next one is started, those of lag before are done
    RKRay *r = RKGetRayFromBuffer(radar->rays, nray % RB); fillRay(r, nray); nray++;
    for (; nready < nray - lag; nready++) RKGetRayFromBuffer(radar->rays, nready % RB)->header.s = RKRayStatusProcessed | RKRayStatusReady;
    RKGetRayFromBuffer(radar->rays, nray % RB)->header.s = RKRayStatusVacant; radar->rayIndex = nray % RB;
}
static bool used; static int longHealth;
static int wide1(int n) { return longHealth ? longHealth + n % 3 : 1 + n * 5 % 11; }
static void newHealth(void) { RKHealth *h = &radar->healths[nhealth % HB]; snprintf(h->string, sizeof h->string, "{\"Health\":{\"Value\":%d,\"Text\":\"%0*d\"}}", nhealth, wide1(nhealth), nhealth); h->flag = RKHealthFlagReady; if (used) h->flag |= RKHealthFlagUsed; nhealth++; radar->healths[nhealth % HB].flag = RKHealthFlagVacant; radar->healths[nhealth % HB].string[0] = 0; radar->healthIndex = nhealth % HB; }
static void makeStatus(RKStatus *s, int n) { memset(s, 0, sizeof *s); s->i = n; s->memoryUsage = n * 1000; s->pulseMonitorLag = n; s->recorderLag = n + 1; s->flag = RKStatusFlagReady; }
static void newStatus(void) { makeStatus(&radar->status[nstatus % SB], nstatus); nstatus++; radar->status[nstatus % SB].flag = RKStatusFlagVacant; radar->statusIndex = nstatus % SB; }
static void newSweep(bool empty) { emptySweep[nsweep % 64] = empty; nsweep++; se->scratchSpaceIndex = nsweep % RKSweepScratchSpaceDepth; }
static int sweepsOut; 
enum { SWEEP = 5000, SR = 3 };
RKSweep *__wrap_RKSweepCollect(RKSweepEngine *e, const uint8_t k) {
    int n = nsweep - 1; while (n >= 0 && n % RKSweepScratchSpaceDepth != k) n--; mc_assert(n >= 0, "sweep-range", "sweep of space %d is asked for, there are %d", k, nsweep); if (emptySweep[n % 64]) return NULL;
    RKSweep *s = calloc(1, sizeof *s); s->header.i = n;
    if (wideRays) { s->header.rayCount = wideRays; s->header.gateCount = wideGates; s->header.baseProductList = RKBaseProductListFloatZ; s->header.config.i = 70 + n; for (int j = 0; j < wideRays; j++) { s->rays[j] = RKGetRayFromBuffer(wide, 0); s->rays[j]->header.gateCount = wideGates; } sweepsOut++; return s; }
    s->header.rayCount = SR; s->header.gateCount = gates(n); s->header.baseProductList = n & 1 ? RKBaseProductListFloatZVWDPRKSQ : RKBaseProductListFloatZVWDPR; s->header.gateSizeMeters = 30.0f; s->header.isPPI = true; s->header.config.i = 70 + n; RKRayBufferAlloc(&s->rayBuffer, CAP, SR);
    for (int j = 0; j < SR; j++) { s->rays[j] = RKGetRayFromBuffer(s->rayBuffer, j); fillRay(s->rays[j], SWEEP + n * SR + j); s->rays[j]->header.gateCount = s->header.gateCount; }
    sweepsOut++; return s;
}
int __wrap_RKSweepFree(RKSweep *s) { sweepsOut--; if (!wideRays) RKRayBufferFree(s->rayBuffer); free(s); return 0; }
// --- what the client has to get
static struct { int ray, health, status, sweep; uint64_t streams; bool begun, rayBegun, healthBegun, statusBegun, healthSeen, statusSeen, raySeen; } want; static int ratio; 
static uint64_t list8(uint64_t s) { return (s >> 16) & 0x3FF; }   // in the order of the bits of RKBaseProductList, which is that of RKStream
static int sweepRay; static int messages[256];
static void startup(bool signalProcessor) {
    dsp = signalProcessor; out = seen = in = inRead = 0; racing = false; nray = nready = lag = nhealth = nstatus = nsweep = npulse = sweepsOut = relayed = 0; sweepRay = -1; core = 1; used = false; memset(&want, 0, sizeof want); memset(messages, 0, sizeof messages);
    memset(rays0, 0, RB * raySize); for (int k = 0; k < RB; k++) { RKRay *r = (RKRay *)((char *)rays0 + k * raySize); r->header.capacity = CAP; r->header.i = (uint64_t)(-RB + k); }
    memset(radar->status, 0, SB * sizeof(RKStatus)); memset(radar->healths, 0, HB * sizeof(RKHealth));
    snprintf(radar->desc.name, RKNameLength, "radar"); radar->desc.initFlags = dsp ? RKInitFlagSignalProcessor : RKInitFlagRelay; radar->desc.statusBufferDepth = SB; radar->desc.healthBufferDepth = HB; radar->desc.rayBufferDepth = RB; radar->desc.pulseBufferDepth = PB; radar->desc.pulseCapacity = CAP * 2; radar->desc.pulseToRayRatio = 2; radar->state = RKRadarStateLive; radar->statusIndex = radar->healthIndex = radar->rayIndex = radar->pulseIndex = 0;
    memset(controls, 0, sizeof controls); controls[0].uid = 5; radar->controlCount = 1; strcpy(controls[0].label, "Go"); strcpy(controls[0].command, "t y");
    if (dsp) { radar->sweepEngine = se; radar->momentEngine = me; radar->pulseEngine = pe; radar->positionEngine = po; radar->healthEngine = he; radar->rawDataRecorder = rr; radar->steerEngine = st; radar->pulseRingFilterEngine = re; radar->radarRelay = NULL; }
    else { radar->sweepEngine = se; radar->momentEngine = NULL; radar->pulseEngine = NULL; radar->positionEngine = NULL; radar->healthEngine = NULL; radar->rawDataRecorder = NULL; radar->steerEngine = NULL; radar->pulseRingFilterEngine = NULL; radar->radarRelay = relay; }
    me->coreCount = pe->coreCount = core; me->rayStatusBufferIndex = 0; se->scratchSpaceIndex = 0; pe->filterGroupCount = 1; se->productBuffer = products; se->productBufferDepth = DEPTH; for (int k = 0; k < DEPTH; k++) { products[k].i = 0; products[k].pid = 0; products[k].flag = 0; memset(&products[k].desc, 0, sizeof products[k].desc); } wideRays = 0; se->radarDescription = &radar->desc;
    snprintf(center->name, RKNameLength, "center"); center->verbose = 0; center->radars[0] = radar; center->radarCount = 1; server->state = RKServerStateActive; server->timeoutSeconds = 5; server->maxClient = 4;
    memset(op, 0, sizeof *op); op->M = server; op->sid = FD; op->timeoutSeconds = 5; op->state = RKOperatorStateActive; op->userResource = center; strcpy(op->name, "op"); pthread_mutex_init(&op->lock, NULL); op->delimString.type = RKNetworkPacketTypePlainText; memset(op->delimString.bytes + 9, ' ', 6); op->beacon.type = RKNetworkPacketTypeBeacon; op->delimTx.type = RKNetworkPacketTypeBytes;
    user->streams = RKStreamNull; mc_assert(socketInitialHandler(op) == RKResultSuccess, "harness", "welcome"); user->rayDownSamplingRatio = ratio = 1; user->timeLastOut = mc_now_us() * 1e-6;
}
static void finish(void) { mc_assert(!mc_mutex_busy(&user->mutex) && !mc_mutex_busy(&op->lock), "locked", "a lock is still held"); mc_assert(sweepsOut == 0, "sweeps-kept", "%d sweeps are not given back", sweepsOut); socketTerminateHandler(op); pthread_mutex_destroy(&op->lock); }
static char cmd[RKMaximumCommandLength];
static void __attribute__((noinline)) dirty(void) { volatile char b[40000]; for (int k = 0; k < 40000; k++) b[k] = 0x51; }   // what is left on the stack is not zero
static void command(const char *c) { dirty(); snprintf(cmd, sizeof cmd, "%s", c); op->cmd = cmd; socketCommandHandler(op); }
static void checkData(const char *what, int n, uint64_t list, const uint8_t *d, int count, int size, int step, bool bytes) {
    int j = 0; for (int p = 0; p < 10; p++) if (list >> p & 1) { for (int g = 0; g < count; g++) { if (bytes) mc_assert(d[(j * count + g)] == shown(n, p, g * step), "content", "%s %d: product %d gate %d is %d instead of %d", what, n, p, g, d[j * count + g], shown(n, p, g * step)); else { float f; memcpy(&f, d + 4 * (j * count + g), 4); mc_assert(f == value(n, p, g * step), "content", "%s %d: product %d gate %d is %g instead of %g", what, n, p, g, f, value(n, p, g * step)); } } j++; }
    mc_assert(size == j * count * (bytes ? 1 : 4), "size", "%s %d: %d bytes of data are announced, %d products of %d gates", what, n, size, j, count);
}

static void take(bool end) {   // the messages that have come
    while (seen < out) {
        RKNetDelimiter d; if (out - seen < (int)sizeof d) { mc_assert(!end, "cut", "%d bytes are left over", out - seen); return; } memcpy(&d, wire + seen, sizeof d);
        if (out - seen - (int)sizeof d < (int)d.size) { mc_assert(!end, "cut", "a message of type %d (%c) announces %u bytes, %d have come", d.type, d.type, d.size, out - seen - (int)sizeof d); return; }
        const uint8_t *b = wire + seen + sizeof d; seen += sizeof d + d.size; messages[d.type & 255]++; mc_count(1);
        switch (d.type) {
            case RKNetworkPacketTypeBeacon: mc_assert(d.size == 0, "beacon", "%u bytes", d.size); break;
            case RKNetworkPacketTypeCommandResponse: mc_assert(d.size >= 3 && (!memcmp(b, "ACK", 3) || !memcmp(b, "NAK", 3) || !memcmp(b, "{\"t", 3) || !memcmp(b, "Bye", 3)), "response", "a response of %u bytes begins with %.8s", d.size, (const char *)b); break;
            case RKNetworkPacketTypeRadarDescription: mc_assert(d.size == sizeof(RKRadarDesc) && !memcmp(b, &radar->desc, d.size), "description", "%u bytes", d.size); break;
            case RKNetworkPacketTypeControls: mc_assert(d.size > 0, "controls", "empty"); break;
            case RKNetworkPacketTypeRayDisplay: {
                RKRayHeaderV1 h; mc_assert(d.size >= sizeof h, "ray-size", "%u bytes", d.size); memcpy(&h, b, sizeof h); const int n = (int)h.i; const bool product = (want.streams & RKStreamProductAll) != 0; const uint64_t list = product ? (want.streams >> 32) & 0x3FF : list8(want.streams);
                mc_assert(list, "unasked", "a ray, no stream of rays is on"); mc_assert(n >= 0 && n < nready, "ray-number", "ray %d, %d are there", n, nready);
                if (!want.rayBegun) { mc_assert(n <= MAX(want.ray, 0), "ray-lost", "the first ray is %d, the one after the subscription is %d", n, want.ray); want.rayBegun = true; } else mc_assert(n == want.ray, n < want.ray ? "ray-again" : "ray-lost", "ray %d, the next one is %d", n, want.ray);
                want.ray = n + 1; const int count = gates(n) / ratio;
                mc_assert(h.baseProductList == (product ? list << 16 : list), "list", "ray %d lists %x for %lx", n, h.baseProductList, (unsigned long)list);
                mc_assert(h.gateCount == count && h.gateSizeMeters == 30.0f * ratio && h.startAzimuth == n && h.endAzimuth == n + 1 && h.startElevation == 0.5f * n && h.configIndex == n % 10 && h.n == (uint64_t)n + 7 && h.sweepElevation == 2.0f && h.startTime.tv_sec == T0 + n && h.endTimeDouble == T0 + n + 1 && h.pulseCount == 5 && h.fftOrder == 4 && h.marker == (n & 1 ? RKMarkerScanTypePPI : RKMarkerSweepMiddle), "ray-header", "ray %d: %d gates of %g m at %g", n, h.gateCount, h.gateSizeMeters, h.startAzimuth);
                checkData("ray", n, list, b + sizeof h, count, d.size - sizeof h, ratio, !product); break;
            }
            case RKNetworkPacketTypeHealth: {
                mc_assert(want.streams & RKStreamHealthInJSON, "unasked", "a health"); int k = 0, got = 0;
                while (k < (int)d.size && b[k] > ' ') {
                    int e = k; while (e < (int)d.size && b[e] > ' ') e++; char s[4100]; mc_assert(e - k < 4096, "health", "%d bytes", e - k); memcpy(s, b + k, e - k); s[e - k] = 0; int n = -1; sscanf(s, "{\"Health\":{\"Value\":%d,", &n); char t[4100]; snprintf(t, sizeof t, "{\"Health\":{\"Value\":%d,\"Text\":\"%0*d\"}}", n, wide1(n), n);
                    mc_assert(!strcmp(s, t), "health", "'%s'", s); mc_assert(n >= 0 && n < nhealth, "health", "number %d of %d", n, nhealth);
                    if (!want.healthBegun) { mc_assert(n <= want.health, "health-lost", "the first health is %d, the one after the subscription is %d", n, want.health); want.healthBegun = true; } else mc_assert(n == want.health, n < want.health ? "health-again" : "health-lost", "health %d, the next one is %d", n, want.health);
                    want.health = n + 1; got++; k = e; while (k < (int)d.size && b[k] <= ' ') k++;
                }
                mc_assert(got > 0, "health", "none in a message of %u bytes", d.size); break;
            }
            case RKNetworkPacketTypeProcessorStatus: {
                mc_assert(want.streams & RKStreamStatusProcessorStatus, "unasked", "a status"); RKStatus s, t; mc_assert(d.size == sizeof s, "status", "%u bytes", d.size); memcpy(&s, b, sizeof s); makeStatus(&t, (int)s.i); const int n = (int)s.i; mc_assert(!memcmp(&s, &t, sizeof s), "status", "number %d", n);
                if (!want.statusBegun) { mc_assert(n <= want.status, "status-lost", "the first status is %d, the one after the subscription is %d", n, want.status); want.statusBegun = true; } else mc_assert(n == want.status, n < want.status ? "status-again" : "status-lost", "status %d, the next one is %d", n, want.status);
                want.status = n + 1; break;
            }
            case RKNetworkPacketTypeSweepHeader: {
                RKSweepHeader h; mc_assert(d.size == sizeof h, "sweep", "%u bytes", d.size); memcpy(&h, b, sizeof h); const int n = (int)h.i; while (want.sweep < nsweep && (emptySweep[want.sweep % 64] || !((want.streams >> 48) & (want.sweep & 1 ? 0x3FF : 0x3F)))) want.sweep++;
                mc_assert(sweepRay < 0, "sweep-cut", "sweep %d begins within another", n); mc_assert(n == want.sweep, n < want.sweep ? "sweep-again" : "sweep-lost", "sweep %d, the next one is %d", n, want.sweep);
                const uint32_t list = (uint32_t)((want.streams >> 48) & (n & 1 ? 0x3FF : 0x3F)) << 16; mc_assert(h.baseProductList == list && h.rayCount == SR && h.gateCount == gates(n) && h.config.i == 70 + n, "sweep-header", "sweep %d lists %x, %u rays", n, h.baseProductList, h.rayCount); sweepRay = 0; break;
            }
            case RKNetworkPacketTypeSweepRay: {
                RKRayHeader h; mc_assert(d.size >= sizeof h, "sweep-ray", "%u bytes", d.size); memcpy(&h, b, sizeof h); mc_assert(sweepRay >= 0, "sweep-ray", "a ray without a sweep"); const int n = SWEEP + want.sweep * SR + sweepRay; mc_assert((int)h.i == n, "sweep-ray", "ray %d instead of %d", (int)h.i, n);
                const uint64_t list = (want.streams >> 48) & (want.sweep & 1 ? 0x3FF : 0x3F); mc_assert(h.baseProductList == list << 16 && h.gateCount == gates(want.sweep) && h.startAzimuth == n, "sweep-ray", "ray %d lists %x", n, h.baseProductList);
                checkData("sweep ray", n, list, b + sizeof h, gates(want.sweep), d.size - sizeof h, 1, false); if (++sweepRay == SR) { sweepRay = -1; want.sweep++; } break;
            }
            default: mc_fail("type", "a message of type %d with %u bytes", d.type, d.size);
        }
    }
    if (end) mc_assert(sweepRay < 0, "sweep-cut", "%d rays of the sweep have come", sweepRay);
}
static void subscribe(const char *s) { char c[64]; snprintf(c, sizeof c, "s %s", s); take(true); command(c); memset(&want, 0, sizeof want); want.streams = RKStreamFromString(s); want.ray = nray; want.health = nhealth; want.status = nstatus; want.sweep = nsweep; want.begun = true; sweepRay = -1; }
static void stream(void) { mc_sleep_us(10000); if (!want.healthBegun && !want.healthSeen) { want.healthSeen = nhealth > 0; want.health = MAX(want.health, nhealth - 1); } if (!want.statusBegun && !want.statusSeen) { want.statusSeen = nstatus > 0; want.status = MAX(want.status, nstatus - 1); } if (!want.raySeen) { want.raySeen = true; want.ray = nray; }
    socketStreamHandler(op); take(true); }
static const char *SETS[][2] = {{"z", "zvw"}, {"zvwdprkst", "Z"}, {"k", "kt"}, {"Z", "ZK"}, {"ZVWDPRKST", "zh"}, {"ST", "hz"}, {"h", "h!"}, {"!", "z!"}, {"Y", "YJ"}, {"YUXCOQJHAB", "Yz"}, {"H", "HB"}, {"zYh!", "ZYh!"}, {"zZ", "hY"}};
static void histories(void) {
    const int depth = (int)mc_param("ops", 4); startup(mc_choose(2, "signal processor")); const int which = mc_choose(13, "streams"); const char *const *S = SETS[which]; lag = dsp ? mc_choose(2, "lag") : 0; static const int R[] = {1, 2, 7}; user->rayDownSamplingRatio = ratio = R[which < 6 || which > 10 ? mc_choose(3, "ratio") : 0]; if (which == 6 || which == 11) used = mc_choose(2, "reporter"); longHealth = 0; if (which == 6 || which == 11) { static const int L[] = {0, 1400, 4000}; longHealth = L[mc_choose(3, "length of the healths")]; }
    const bool early = mc_choose(2, "already running"); if (early) { for (int k = 0; k < 5; k++) newRay(); newHealth(); newHealth(); newStatus(); newStatus(); newSweep(false); }
    subscribe(S[0]); stream();
    bool changed = false;
    for (int k = 0; k < depth; k++) switch (mc_choose(8, "next")) {
        case 0: newRay(); break;
        case 1: for (int j = 0; j < 3; j++) newRay(); stream(); break;
        case 2: newHealth(); break;
        case 3: newStatus(); stream(); break;
        case 4: newSweep(false); stream(); break;
        case 5: newSweep(true); break;
        case 6: stream(); mc_sleep_us(1200000); stream(); break;
        case 7: if (changed) mc_skip(); changed = true; subscribe(S[1]); stream(); break;
    }
    stream();   // the radar goes on for a while
    for (int k = 0; k < 4; k++) { newRay(); newHealth(); newStatus(); stream(); }
    for (int k = 0; k < 20 && (want.sweep < nsweep || ((want.streams & RKStreamHealthInJSON) && want.health < nhealth - 1)); k++) stream();
    if (want.streams & (RKStreamProductAll | RKStreamDisplayAll)) mc_assert(want.rayBegun && want.ray >= nray - 2 * core - (dsp ? 0 : 1), "ray-late", "ray %d is the next one, %d are there", want.ray, nray);
    if (want.streams & RKStreamHealthInJSON) mc_assert(want.health >= nhealth - 1, "health-late", "health %d is the next one, %d are there", want.health, nhealth);
    if (want.streams & RKStreamStatusProcessorStatus) mc_assert(want.status >= nstatus - 1, "status-late", "status %d is the next one, %d are there", want.status, nstatus);
    if (want.streams & RKStreamSweepAll) { while (want.sweep < nsweep && (emptySweep[want.sweep % 64] || !((want.streams >> 48) & (want.sweep & 1 ? 0x3FF : 0x3F)))) want.sweep++; mc_assert(want.sweep >= nsweep, "sweep-late", "sweep %d is the next one, %d are there", want.sweep, nsweep); }
    mc_note("%d rays, %d healths, %d sweeps", messages[RKNetworkPacketTypeRayDisplay], messages[RKNetworkPacketTypeHealth], messages[RKNetworkPacketTypeSweepHeader]);
    // quiet: the client hears from the centre at least once in a while
    const int before = messages[RKNetworkPacketTypeBeacon]; for (int k = 0; k < 300; k++) stream(); mc_assert(messages[RKNetworkPacketTypeBeacon] >= before + 2, "beacon", "%d beacons in three seconds", messages[RKNetworkPacketTypeBeacon] - before);
    for (int k = 0; k < 256; k++) mc_outcome(messages[k]); finish();
}
// --- the streams of a client and the answers to its commands share the connection
static bool done; static const char *script;
static void *commander(void *x) { command(script); done = true; return NULL; }
static void schedules(void) {
    static const char *const SETS1[] = {"z", "ZV", "Y", "zh!", "hY"}, *const CMDS[] = {"i", "x", "h hv on", "u {\"name\":\"Test\",\"symbol\":\"A\",\"key\":1}", "i;x", "s zv", "c;i"};
    startup(true); const int which = mc_choose(5, "streams"), c = mc_choose(7, "command"); for (int k = 0; k < 6; k++) newRay(); newHealth(); newStatus(); subscribe(SETS1[which]); stream(); newRay(); newRay(); newHealth(); newStatus(); newSweep(false); done = false; script = CMDS[c];
    pthread_t t; if (c == 5) want.streams |= RKStreamFromString("zv");
    racing = true; mc_explore(true); pthread_create(&t, NULL, commander, NULL); for (int k = 0; k < 3; k++) { socketStreamHandler(op); mc_sleep_us(10000); } while (!done) mc_sleep_us(10000); pthread_join(t, NULL); mc_explore(false); racing = false;
    if (c == 5) { int k = 0; while (k < out) { RKNetDelimiter d; mc_assert(out - k >= (int)sizeof d, "cut", "%d bytes are left over", out - k); memcpy(&d, wire + k, sizeof d); mc_assert((d.type == RKNetworkPacketTypeRayDisplay || d.type == RKNetworkPacketTypeCommandResponse || d.type == RKNetworkPacketTypeHealth || d.type == RKNetworkPacketTypeProcessorStatus || d.type == RKNetworkPacketTypeSweepHeader || d.type == RKNetworkPacketTypeSweepRay) && (int)d.size <= out - k - (int)sizeof d, "cut", "a message of type %d and %u bytes, %d are left", d.type, d.size, out - k - (int)sizeof d); k += sizeof d + d.size; } }
    else { take(true); mc_assert(messages[RKNetworkPacketTypeCommandResponse] + messages[RKNetworkPacketTypeRadarDescription] == (c == 4 || c == 6 ? 3 : 2), "answers", "%d answers", messages[RKNetworkPacketTypeCommandResponse] + messages[RKNetworkPacketTypeRadarDescription]); }
    mc_outcome(out); finish();
}

// --- lines of commands: every command is answered once, in order, with what belongs to it
static void expect(uint16_t type, const char *text, bool whole) {
    RKNetDelimiter d; mc_assert(out - seen >= (int)sizeof d, "no-answer", "no answer, '%s' is due", text); memcpy(&d, wire + seen, sizeof d); mc_assert((int)d.size <= out - seen - (int)sizeof d, "cut", "an answer of %u bytes, %d have come", d.size, out - seen - (int)sizeof d);
    const char *b = (char *)wire + seen + sizeof d; const int z = (int)strlen(text); mc_assert(d.type == type, "answer-type", "an answer of type %d instead of %d for '%s'", d.type, type, text); mc_assert((int)d.size >= z && !memcmp(b, text, z), "answer", "'%.*s' instead of '%s'", (int)MIN(d.size, 60), b, text); if (whole) { int n = (int)d.size; while (n > z && (b[n - 1] == 0 || b[n - 1] == '\n' || b[n - 1] == '\r' || b[n - 1] == ' ')) n--; mc_assert(n == z, "answer", "'%.*s' instead of '%s'", MIN(n, 100), b, text); }
    if (type == RKNetworkPacketTypeRadarDescription) mc_assert(d.size == sizeof(RKRadarDesc) && !memcmp(b, &radar->desc, d.size), "description", "%u bytes", d.size); seen += sizeof d + d.size; mc_count(1);
}
static const char *const GOOD = "u {\"key\":%d,\"name\":\"Product\",\"symbol\":\"%s\",\"unit\":\"m\",\"b\":0.5,\"w\":2.0}";
static void lines(void) {
    static const char *const SP[] = {"i", "x", "c", "h hv on", "s zv", "ping", "a user pass", "u", "y", "a", "s", "s c", "UUUU"}, *const RELAY[] = {"i", "x", "a user pass", "r other", "s zv", "ping", "r", "r %s%d%n", "a", "s", "t hv", "r a b", "q1"}, *const GAP[] = {";", "; ", ";\t"};
    startup(mc_choose(2, "signal processor")); const int n = 1 + mc_choose((int)mc_param("commands", 3), "commands"), g = mc_choose(3, "between"), ends = mc_choose(3, "end"); int c[4], mode = 0; char line[512] = "", t[256]; user->access |= 0;
    for (int k = 0; k < n; k++) { c[k] = mc_choose(13, "command"); if (k) strcat(line, GAP[g]); strcat(line, dsp ? SP[c[k]] : RELAY[c[k]]); if (dsp && c[k] == 7) { line[strlen(line) - 1] = 0; sprintf(t, GOOD, k + 1, "AB"); strcat(line, t); } } strcat(line, ends == 1 ? ";" : ends == 2 ? "\r\n" : ""); mc_note("%s", line);
    take(true); command(line); bool auth = false; int pid = 42;
    for (int k = 0; k < n; k++) { const char *s = dsp ? SP[c[k]] : RELAY[c[k]];
        if (!strcmp(s, "ping")) continue;
        if (dsp) { if (s[0] == 'a') auth = true; else if (s[0] == 'i') expect(RKNetworkPacketTypeRadarDescription, "", false); else if (s[0] == 'x') { mode = (mode + 1) % 3; sprintf(t, "ACK. AScope mode to %d", mode); expect(RKNetworkPacketTypeCommandResponse, t, true); } else if (s[0] == 'c') expect(RKNetworkPacketTypeCommandResponse, "ACK. Buffer overview in ", false); else if (s[0] == 's') expect(RKNetworkPacketTypeCommandResponse, "{\"type\": \"init\"", false); else if (s[0] == 'u') { sprintf(t, "ACK. {\"type\": \"productDescription\", \"key\":%d, \"symbol\":\"AB\", \"pid\":%d}", k + 1, pid++); expect(RKNetworkPacketTypeCommandResponse, t, true); } else { sprintf(t, "ACK. {%s}", s); expect(RKNetworkPacketTypeCommandResponse, t, true); } }
        else { if (s[0] == 'a') { sprintf(t, "ACK. <%s>", s); expect(RKNetworkPacketTypeControls, t, true); } else if (s[0] == 'r') { char name[64] = ""; sscanf(s + 1, "%63s", name); sprintf(t, "ACK. %s selected.", name); expect(RKNetworkPacketTypeCommandResponse, t, true); } else if (s[0] == 's') expect(RKNetworkPacketTypeCommandResponse, "{\"type\": \"init\"", false); else { sprintf(t, "ACK. <%s>", s); expect(RKNetworkPacketTypeCommandResponse, t, true); } } }
    mc_assert(seen == out, "answers", "%d bytes more than the answers", out - seen);
    user->streams = RKStreamNull; mc_sleep_us(200000); socketStreamHandler(op); if (dsp && auth) expect(RKNetworkPacketTypeControls, "{\"Radars\": [\"radar\"], \"Controls\": [", false); mc_assert(seen == out, "answers", "%d bytes more than the controls", out - seen); if (dsp) mc_assert(user->ascopeMode == mode, "mode", "mode %d", user->ascopeMode); finish();
}
static void registrations(void) {   // as many products as there is room for, then no more, and all are released with the client
    startup(true); const int many = 15 + mc_choose(10, "products"), symbol = mc_choose(4, "symbol"); static const char *const SYM[] = {"A", "ABCDEF", "ABCDEFG", "ABCDEFGHIJ"}; RKUser *next = &center->users[1]; uint8_t *before = malloc(64); memset(next->login, 0x5A, 64); memcpy(before, next->login, 64); char t[256], u[256]; take(true);
    for (int k = 0; k < many; k++) { sprintf(t, GOOD, k + 1, SYM[symbol]); command(t); if (k < DEPTH) { sprintf(u, "ACK. {\"type\": \"productDescription\", \"key\":%d, \"symbol\":\"%.7s\", \"pid\":%d}", k + 1, SYM[symbol], 42 + k); expect(RKNetworkPacketTypeCommandResponse, u, true); } else expect(RKNetworkPacketTypeCommandResponse, "NAK.", false); }
    mc_assert(seen == out, "answers", "%d bytes more", out - seen); mc_assert(!memcmp(next->login, before, 64), "neighbour", "the next user has changed"); mc_assert(user->productCount == MIN(many, DEPTH), "products", "%d products", user->productCount); memset(next->login, 0, 64); free(before); finish();
    for (int k = 0; k < DEPTH; k++) mc_assert(products[k].flag == RKProductStatusVacant && products[k].pid == 0, "product-kept", "product %d remains after the client", k);
}

// --- products that clients return for a sweep
static void putMessage(uint16_t type, const void *b, uint32_t z) { RKNetDelimiter d; memset(&d, 0, sizeof d); d.type = type; d.size = z; mc_assert(in + sizeof d + z <= sizeof inbox, "harness", "inbox"); memcpy(inbox + in, &d, sizeof d); in += sizeof d; memcpy(inbox + in, b, z); in += (int)z; }
static void returns(void) {
    static const int DIM[][2] = {{3, 20}, {90, 100}, {5, 100}, {90, 33}, {2, 101}}; startup(true); const int P = 1 + mc_choose(2, "products"), d = mc_choose(5, "size"), sweeps = 1 + mc_choose(2, "sweeps"); wideRays = DIM[d][0]; wideGates = DIM[d][1]; const int N = wideRays * wideGates; static float data[40000]; char t[256]; float *keep[2]; for (int k = 0; k < P; k++) keep[k] = malloc(36000 * sizeof(float)); bool held[2] = {false, false};
    for (int k = 0; k < P; k++) { sprintf(t, GOOD, k + 1, k ? "B" : "A"); command(t); } subscribe("Y"); radar->desc.productBufferDepth = 0; stream();
    for (int n = 0; n < sweeps; n++) {
        out = seen = in = inRead = 0; int what[2], good[2] = {0, 0}; const uint64_t id = 70 + n;
        for (int k = 0; k < P; k++) {   // the client returns one after another, the last may be missing
            what[k] = mc_choose(k == P - 1 && n == sweeps - 1 ? 8 : 7, "return"); const uint32_t size = what[k] == 3 ? N * 2 : what[k] == 4 ? N * 4 + 4 : what[k] == 5 ? 39000 : N * 4; for (int g = 0; g < 40000; g++) data[g] = n * 5000 + k * 1000 + g * 0.5f;
            if (what[k] == 7) continue; sprintf(t, "{\"productId\": %d, \"configId\": %lu}", 42 + k + (what[k] == 1 ? 7 : 0), (unsigned long)(id + (what[k] == 2 ? 5 : 0))); if (what[k] == 6) strcpy(t, "{}");
            putMessage(RKNetworkPacketTypePlainText, t, (uint32_t)strlen(t)); putMessage(RKNetworkPacketTypeBytes, data, size); good[k] = what[k] == 0;
        }
        newSweep(false); socketStreamHandler(op); mc_assert(inRead == in, "return-left", "%d bytes of the returned products are left to be taken for commands", in - inRead);
        for (int k = 0; k < P; k++) {
            if (good[k]) { mc_assert(products[k].i == id && products[k].flag == RKProductStatusActive && products[k].header.rayCount == wideRays && products[k].header.gateCount == wideGates, "product", "product %d of sweep %d: %u x %u", k, n, products[k].header.rayCount, products[k].header.gateCount); for (int g = 0; g < N; g++) mc_assert(products[k].data[g] == n * 5000 + k * 1000 + g * 0.5f, "product-data", "product %d of sweep %d: value %d is %g", k, n, g, products[k].data[g]); memcpy(keep[k], products[k].data, N * 4); held[k] = true; }
            else mc_assert(products[k].i != id, "product-taken", "product %d of sweep %d is complete, return %d does not fit", k, n, what[k]);
            mc_count(1); mc_outcome(what[k]);
        }
    }
    for (int k = 0; k < P; k++) { (void)held; free(keep[k]); } wideRays = 0; finish();
}
static RKOperator *op2; static void *second(void *x) { static char c2[256]; snprintf(c2, sizeof c2, GOOD, 2, "B"); op2->cmd = c2; socketCommandHandler(op2); done = true; return NULL; }
static void twoClients(void) {   // two clients register at once, or one registers as another leaves
    startup(true); const int taken = mc_choose(3, "registered already"), leave = mc_choose(2, "the first leaves"); char t[256]; if (!op2) op2 = calloc(1, sizeof *op2); *op2 = *op; op2->iid = 1; center->users[1].streams = RKStreamNull; socketInitialHandler(op2);
    for (int k = 0; k < taken + leave; k++) { sprintf(t, GOOD, k + 1, "A"); command(t); } take(true); done = false; pthread_t h; racing = true; mc_explore(true); pthread_create(&h, NULL, second, NULL);
    if (leave) { const int c = user->productCount; socketTerminateHandler(op); (void)c; } else { sprintf(t, GOOD, 9, "A"); command(t); }
    while (!done) mc_sleep_us(10000); pthread_join(h, NULL); mc_explore(false); racing = false; RKUser *u2 = &center->users[1]; mc_assert(u2->productCount == 1 && u2->productIds[0], "registered", "%d products", u2->productCount);
    int n = 0; for (int k = 0; k < DEPTH; k++) { if (products[k].flag) n++; for (int j = 0; j < k; j++) mc_assert(!products[k].flag || products[j].pid != products[k].pid, "same-id", "products %d and %d have the same number", j, k); }
    mc_assert(n == (leave ? 1 : taken + 2), "registered", "%d products are registered", n); if (!leave) for (int k = 0; k < user->productCount; k++) mc_assert(user->productIds[k] != u2->productIds[0], "same-id", "both clients have product %d", u2->productIds[0]);
    bool there = false; for (int k = 0; k < DEPTH; k++) if (products[k].flag && products[k].pid == u2->productIds[0]) { there = true; mc_assert(products[k].desc.key == 2 && products[k].desc.symbol[0] == 'B', "described", "key %u", products[k].desc.key); } mc_assert(there, "registered", "the product of the second client is not there"); mc_count(1); mc_outcome(n);
    socketTerminateHandler(op2); if (leave) { mc_assert(!mc_mutex_busy(&op->lock), "locked", "a lock"); pthread_mutex_destroy(&op->lock); } else { out = seen; finish(); }
}

// two clients of a relay subscribe, or leave: the other radar is asked for what those who are there want
static int deed[2]; static const char *const WANT[] = {"s ZV", "s zh", "s x"};
static void act(RKOperator *o, int what, char *c) { if (what == 3) { socketTerminateHandler(o); return; } strcpy(c, WANT[what]); o->cmd = c; socketCommandHandler(o); }
static void *secondStreams(void *x) { static char c2[64]; act(op2, deed[1], c2); done = true; return NULL; }
static void relayClients(void) {
    startup(false); relay->streams = RKStreamNull; relay->state = 0; if (!op2) op2 = calloc(1, sizeof *op2); *op2 = *op; op2->iid = 1; center->users[1].streams = RKStreamNull; socketInitialHandler(op2); char c1[64]; static char c3[64];
    const int before = mc_choose(3, "before"); act(op, before, c1); if (mc_choose(2, "both")) act(op2, (before + 1) % 3, c3); for (int k = 0; k < 2; k++) deed[k] = mc_choose(4, "does"); out = seen = 0; done = false; pthread_t h; racing = true; mc_explore(true); pthread_create(&h, NULL, secondStreams, NULL);
    act(op, deed[0], c1); while (!done) mc_sleep_us(10000); pthread_join(h, NULL); mc_explore(false); racing = false;
    RKStream all = RKStreamNull; for (int k = 0; k < 2; k++) if (deed[k] < 3) { const RKStream w = RKStreamFromString(WANT[deed[k]] + 1); mc_assert(center->users[k].streams == w, "streams", "client %d has %lx", k, (unsigned long)center->users[k].streams); all |= w; }
    mc_assert(relay->streams == all, "relay-streams", "the relay asks for %lx, the clients for %lx", (unsigned long)relay->streams, (unsigned long)all); mc_count(1); mc_outcome(all); if (deed[1] < 3) socketTerminateHandler(op2); out = seen; if (deed[0] < 3) finish(); else { mc_assert(!mc_mutex_busy(&op->lock), "locked", "a lock"); pthread_mutex_destroy(&op->lock); } mc_assert(relay->streams == RKStreamNull, "relay-streams", "nobody is there, the relay asks for %lx", (unsigned long)relay->streams);
}
// --- text streams: no input of theirs harms, rays and lines of log come once and in order
static int line; static void newLine(void) { snprintf(me->rayStatusBuffer[line % RKBufferSSlotCount], sizeof me->rayStatusBuffer[0], "line %d", line); snprintf(st->statusBuffer[line % RKBufferSSlotCount], sizeof st->statusBuffer[0], "line %d", line); line++; me->rayStatusBufferIndex = st->statusBufferIndex = line % RKBufferSSlotCount; }
static void texts(void) {
    startup(true); static const char KEY[] = "012345678"; const int which = mc_choose(9, "stream"), early = mc_choose(3, "already there"), size = mc_choose(6, "terminal"); line = 0; st->statusBufferIndex = 0; char t[16]; const int depth = (int)mc_param("ops", 3);
    for (int k = 0; k < RKBufferSSlotCount; k++) me->rayStatusBuffer[k][0] = st->statusBuffer[k][0] = 0; if (early) { for (int k = 0; k < (early == 1 ? 5 : 30); k++) { newRay(); newLine(); } newHealth(); newStatus(); }
    for (int k = 0; k < size; k++) { user->streamsInProgress = 1 + which; command("s^"); } sprintf(t, "s%c", KEY[which]); command(t); const int firstLine = line - 1; out = seen = 0; int nextRow = -1, nextLine = which == 2 ? MAX(firstLine, 0) : 0; bool begun = false; mc_sleep_us(100000); socketStreamHandler(op); int from = nray;
    for (int k = 0; k <= depth; k++) {
        switch (k == depth ? 0 : mc_choose(5, "next")) { case 0: for (int j = 0; j < 3; j++) { newRay(); newLine(); } break; case 1: newRay(); newLine(); newHealth(); break; case 2: newHealth(); break; case 3: command("c"); break; case 4: if (k) mc_skip(); lag = 3; break; }
        mc_sleep_us(100000); socketStreamHandler(op);
    }
    mc_assert(out <= WIRE, "endless", "%d bytes", out); wire[MIN(out, WIRE - 1)] = 0;
    if (which == 6) { const char *p = (char *)wire, *e = (char *)wire + out; int rows = 0; while (p < e) { int i; float el, az; if (*p >= '0' && *p <= '9' && sscanf(p, "%4d %f %f ", &i, &el, &az) == 3) { mc_assert(nextRow < 0 ? i >= from - 6 && i <= from + 12 : i == nextRow, "row", "row of ray %d instead of %d", i, nextRow); mc_assert(el == 0.5f * i && az == i, "row", "ray %d at %g %g", i, el, az); nextRow = i + 1; rows++; } while (p < e && *p != '\n') p++; p++; } mc_assert(rows > 0 || lag || nray < 4, "row", "no ray is shown"); mc_count(rows); mc_outcome(rows); }
    else if (which == 2 || which == 8) { int k = 0; while (k < out) { RKNetDelimiter d; mc_assert(out - k >= (int)sizeof d, "cut", "%d bytes are left over", out - k); memcpy(&d, wire + k, sizeof d); mc_assert((int)d.size <= out - k - (int)sizeof d, "cut", "%u bytes", d.size); if (d.type == RKNetworkPacketTypePlainText) { const char *b = (char *)wire + k + sizeof d, *e = b + d.size; while (b < e) { int i; if (sscanf(b, "line %d", &i) == 1) { if (!begun) mc_assert(which == 8 || i <= MAX(nextLine, 0), "line", "the first line is %d", i); else mc_assert(i == nextLine, "line", "line %d instead of %d", i, nextLine); begun = true; nextLine = i + 1; } while (b < e && *b != '\n') b++; b++; } } k += sizeof d + d.size; } mc_assert(nextLine >= line - 1, "line-late", "line %d of %d is the next", nextLine, line); mc_count(nextLine); mc_outcome(nextLine); }
    else { mc_assert(out > 0, "text", "nothing is shown"); mc_count(1); mc_outcome(which); }
    finish();
}
// --- I/Q for the scope
enum { GP = 100, L = 8 }; static RKComplex filter[L]; static int width;
static int16_t sample(int n, int c, int g, int q) { return (int16_t)(n * 130 + c * 1000 + g * 7 + q * 3 + 1); }
static float processed(int n, int c, int g, int q) { return n * 10.0f + c * 500.0f + g * 4.0f + q; }
static void newPulse(bool late) {
    RKPulse *p = RKGetPulseFromBuffer(radar->pulses, npulse % PB); const uint32_t cap = p->header.capacity; memset(&p->header, 0, sizeof p->header); p->header.capacity = cap; p->header.i = npulse; p->header.gateCount = GP; p->header.downSampledGateCount = GP / 2; p->header.pulseWidthSampleCount = width; p->header.gateSizeMeters = 10.0f; p->header.s = late ? RKPulseStatusHasIQData : RKPulseStatusProcessed | RKPulseStatusHasIQData;
    for (int c = 0; c < 2; c++) { RKInt16C *x = RKGetInt16CDataFromPulse(p, c); RKComplex *y = RKGetComplexDataFromPulse(p, c); for (int g = 0; g < CAP * 2; g++) { const bool in = g < GP; x[g].i = in ? sample(npulse, c, g, 0) : 0x7777; x[g].q = in ? sample(npulse, c, g, 1) : 0x7777; y[g].i = processed(npulse, c, g, 0); y[g].q = processed(npulse, c, g, 1); } }
    npulse++; RKGetPulseFromBuffer(radar->pulses, npulse % PB)->header.s = RKPulseStatusVacant; radar->pulseIndex = npulse % PB;
}
static void scope(void) {
    static const int W[] = {5, 30, 95, 0}, K[] = {1, 2, 7}; const bool sp = mc_choose(2, "relay") == 0; startup(sp); width = W[mc_choose(4, "pulse width")]; const int mode = sp ? mc_choose(3, "mode") : 0, k = K[mode == 1 ? mc_choose(3, "ratio") : 0], groups = sp ? 1 + mc_choose(3, "waveforms") : 1, depth = (int)mc_param("ops", 3); user->pulseDownSamplingRatio = (uint16_t)k; pe->filterGroupCount = groups;
    for (int g = 0; g < groups; g++) { pe->filterAnchors[g][0].length = L; pe->filters[g][0] = filter; } for (int g = 0; g < L; g++) { filter[g].i = 0.1f * g; filter[g].q = -0.05f * g; } memset(pulses0, 0, 0); for (int j = 0; j < PB; j++) { RKPulse *p = RKGetPulseFromBuffer(pulses0, j); const uint32_t cap = p->header.capacity; memset(&p->header, 0, sizeof p->header); p->header.capacity = cap; }
    for (int j = 0; j < mode; j++) command("x"); command("s i"); out = seen = 0; int shownAny = 0, last = -1; const bool early = mc_choose(2, "already there"); if (early) for (int j = 0; j < 12; j++) newPulse(false);
    for (int n = 0; n <= depth; n++) {
        switch (n == depth ? 1 : mc_choose(4, "next")) { case 0: newPulse(false); break; case 1: for (int j = 0; j < 7; j++) newPulse(false); break; case 2: newPulse(true); break; case 3: break; }
        const int had = out; mc_sleep_us(60000); socketStreamHandler(op); if (out == had) { last = -1; continue; } RKNetDelimiter d; memcpy(&d, wire + had, sizeof d); seen = had + sizeof d + d.size; mc_assert(seen == out || ((RKNetDelimiter *)(wire + seen))->type == RKNetworkPacketTypeBeacon, "cut", "%d bytes", out - seen); if (d.type == RKNetworkPacketTypeBeacon) { last = -1; continue; } mc_assert(d.type == RKNetworkPacketTypePulseData && d.size >= sizeof(RKPulseHeader), "type", "a message of type %d", d.type);
        RKPulseHeader h; memcpy(&h, wire + had + sizeof d, sizeof h); const int i = (int)h.i, scount = (int)h.gateCount; mc_assert(i >= 0 && i < npulse && i >= npulse - 2 * core - groups - 2, "pulse", "pulse %d of %d", i, npulse); mc_assert(h.s & RKPulseStatusProcessed, "pulse", "pulse %d has not been processed", i); if (groups > 1 && last >= 0 && npulse > 12) mc_assert(i % groups != last % groups || groups == 1, "waveform", "pulses %d and %d are of the same waveform", last, i); last = i;
        const int expect0 = !sp ? GP : mode == 0 ? MIN(GP, width + 10) : mode == 1 ? GP / 2 / k : GP; mc_assert(scount == expect0, "samples", "%d samples instead of %d", scount, expect0); mc_assert(d.size == sizeof h + 2 * scount * sizeof(RKInt16C), "size", "%u bytes", d.size);
        for (int c = 0; c < 2; c++) for (int g = 0; g < scount; g++) { RKInt16C x; memcpy(&x, wire + had + sizeof d + sizeof h + (c * scount + g) * sizeof x, sizeof x); if (mode == 0 || (mode == 2 && g < L)) mc_assert(x.i == sample(i, c, g, 0) && x.q == sample(i, c, g, 1), "sample", "pulse %d channel %d sample %d is %d", i, c, g, x.i); else if (mode == 1) { const float s = 1.0f / sqrtf(L); mc_assert(abs(x.i - (int)(s * processed(i, c, g * k, 0))) <= 1 && abs(x.q - (int)(s * processed(i, c, g * k, 1))) <= 1, "sample", "pulse %d channel %d sample %d is %d instead of %d", i, c, g, x.i, (int)(s * processed(i, c, g * k, 0))); } }
        if (mode == 1) mc_assert(h.gateSizeMeters == 10.0f * k * 2, "gate-size", "%g m", h.gateSizeMeters); shownAny++; mc_count(1); mc_outcome(i);
    }
    mc_assert(shownAny > 0, "no-pulse", "no pulse of %d is shown", npulse); finish();
}

// --- overview of a health: whatever the names and values are, each indicator is shown once, in order
static void overview(void) {
    static const int KEYLEN[] = {1, 23, 24, 25, 60, 127, 300}; static const char *const VALUE[] = {"true", "False", "\"on\"", "\"14 characters\"", "\"15 characters.\"", "\"16 characters..\"", "1", "\"\"", "\"a value that is wider than the column it belongs to, and more\"", "long"}, *const ENUM[] = {"0", "2", "-1", "123456", "\"x\""};
    static char json[RKMaximumStringLength], big[600]; static char *text; if (!text) text = malloc(1 << 20); const int n = mc_choose((int)mc_param("entries", 3) + 1, "indicators"), many = n == 1 ? mc_choose(3, "times") : 0, flags = mc_choose(4, "preferences"); int e = 0, shownAs = 0; e += sprintf(json + e, "{"); char name[4][310]; memset(big, 'w', 400); big[400] = 0; const int style = mc_choose(2, "others too"); if (style) e += sprintf(json + e, "\"Event\":\"none\", ");
    for (int k = 0; k < n; k++) {
        const int kl = KEYLEN[mc_choose(n > 2 ? 4 : 7, "key")], v = mc_choose(n > 2 ? 6 : 10, "value"), u = n > 2 ? 0 : mc_choose(n == 1 ? 5 : 2, "state"); memset(name[k], 'a' + k, kl); name[k][kl] = 0; name[k][0] = 'K';
        for (int t = 0; t < (many == 0 ? 1 : 1000); t++) { char *w = json + e; char item[1200]; const int z = v == 9 ? sprintf(item, "%s\"%s\":{\"Value\":\"%s\",\"Enum\":%s}", k || t ? ", " : "", name[k], big, ENUM[u]) : many == 2 ? sprintf(item, "%s\"K\":{\"V\":%s}", k || t ? "," : "", VALUE[v]) : sprintf(item, "%s\"%s\":{\"Value\":%s,\"Enum\":%s}", k || t ? ", " : "", name[k], VALUE[v], ENUM[u]); if (e + z > RKMaximumStringLength - 40) break; memcpy(w, item, z + 1); e += z; if (k == 0) shownAs++; }
    }
    if (style && n == 0) e -= 2; if (style && n) e += sprintf(json + e, ", \"Log Time\":1493410480"); e += sprintf(json + e, "}"); memset(text, 0x51, 1 << 20); text[(1 << 20) - 1] = 0; const int m = RKHealthOverview(text, json, (flags & 1 ? RKTextPreferencesShowColor : 0) | (flags & 2 ? RKTextPreferencesDrawBackground : 0)); mc_assert(m >= 0 && m < (1 << 20) && text[m] == 0, "length", "%d characters are announced", m); mc_assert((int)strlen(text) == m, "length", "%d characters instead of %zu", m, strlen(text));
    if (many == 0) for (int k = 0; k < n; k++) { char *f = strstr(text, name[k]); mc_assert(f, "missing", "indicator %d is not shown", k); } else { int c = 0; for (char *f = text; (f = strstr(f, many == 2 ? "K" : name[0])); f++) c++; mc_assert(c >= shownAs, "missing", "%d of %d indicators are shown", c, shownAs); } mc_count(1); mc_outcome(m);
}
static void body(void) { mc_set_clock_us((int64_t)T0 * 1000000); switch (mc_param("part", 0)) { case 1: schedules(); break; case 2: texts(); break; case 3: lines(); break; case 7: scope(); break; case 8: overview(); break; case 9: relayClients(); break; case 4: registrations(); break; case 5: returns(); break; case 6: twoClients(); break; default: histories(); } }
int main(int argc, char **argv) {
    mc_config cfg = {.name = "c27_center", .setup = setup, .body = body, .bound = 0, .shard_depth = 4, .run_seconds = 60, .vt_limit_us = 200000000, .step_limit = 2000000,
#ifdef VP_FORK
        .fork_runs = 1,
#endif
    };
    return mc_main(argc, argv, &cfg);
}
