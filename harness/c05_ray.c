// C05: processed pulses are grouped into rays, each published once, in order and complete.
#include "rk.h"
#define CAP 32
static int PD, RD, who;   // who retrieves the rays: 0 the user, 1 whoever follows the ray index, 2 both
static RKRadarDesc desc; static RKFFTModule *fft; static RKConfig configs[10]; static uint32_t configIndex;
static RKBuffer pulses, rays; static uint32_t pulseIndex, rayIndex;
static RKMomentEngine *eng; static RKWaveform wav;
#define MAXP 2400
static struct { float az, el; uint32_t m; int beam, cfg, gc; bool comp; } P[MAXP];
static int NP, np;
static struct { int first, last, alt; uint32_t m; bool skip; bool mixed; } G[MAXP];
static int NG, got, seen;
static int used[MAXP], calls[MAXP]; static bool exclude;
static int cores;
static struct { RKMomentScratch *s; RKConfig *c; int gc; } cal[8];

static void calibrator(RKUserModule u, RKMomentScratch *s) {
    int k = 0; while (k < 8 && cal[k].s && cal[k].s != s) k++;
    cal[k].s = s; cal[k].c = s->config; cal[k].gc = s->gateCount;
}
static int noise(RKMomentScratch *s, RKPulse **p, const uint16_t n) { s->noise[0] = s->noise[1] = 1; return RKResultSuccess; }
static float value(int first, int gate) { return 1.0f + first % 200 + 0.01f * gate; }
static int processor(RKMomentScratch *s, RKPulse **p, const uint16_t n) {
    const int first = (int)p[0]->header.i;
    mc_assert(first >= 0 && first < np, "unknown-pulse", "a ray starts with pulse %d, which was never handed in", first);
    for (int k = 0; k < n; k++) {
        mc_assert((int)p[k]->header.i == first + k, "consecutive", "pulse %d of a ray that starts with pulse %d is pulse %d", k, first, (int)p[k]->header.i);
        mc_assert((p[k]->header.s & RKPulseStatusReadyForMomentEngine) == RKPulseStatusReadyForMomentEngine, "not-ready", "pulse %d used before it is processed and tagged", first + k);
        used[first + k]++;
    }
    mc_assert(calls[first]++ == 0, "twice", "two rays start with pulse %d", first);
    mc_assert(s->config == &configs[P[first + n - 1].cfg], "scratch-config", "ray of pulse %d processed with configuration %d, expected %d", first, (int)(s->config - configs), P[first + n - 1].cfg);
    int k = 0; while (k < 8 && cal[k].s != s) k++;
    mc_assert(k < 8 && cal[k].c == s->config && cal[k].gc == P[first + n - 1].gc && s->gateCount == P[first + n - 1].gc, "calibration", "ray of pulse %d processed with the calibration of another configuration or gate count", first);
    mc_yield("processing");
    for (int k = 0; k < s->gateCount; k++) for (int j = 0; j < 2; j++) {
        s->aR[j][0][k] = s->aR[j][1][k] = 100; s->SNR[j][k] = 20; s->S[j][k] = 100; s->Q[j][k] = 1; s->mask[k] = 0xff;
        s->Z[j][k] = value(first, k); s->V[j][k] = s->W[j][k] = 1; s->ZDR[k] = 1; s->PhiDP[k] = 1; s->RhoHV[k] = 1; s->KDP[k] = 1;
    }
    return n;
}
static void checkRay(RKRay *r, int n) {
    const int f = G[n].first; int l = G[n].last;
    if (G[n].skip && r->header.pulseCount == G[n].alt - f + 1) l = G[n].alt;
    if (G[n].mixed) mc_fail("mixed-config", "ray %d: its pulses %d to %d do not belong to one configuration", n, f, l);
    mc_assert(r->header.s & RKRayStatusReady, "not-ready", "ray %d announced with status %x", n, r->header.s);
    mc_assert(!(r->header.s & RKRayStatusProcessing), "processing", "ray %d announced while being processed (%x)", n, r->header.s);
    mc_assert((uint64_t)r->header.i == (uint64_t)n, "ray-number", "ray %d carries number %d", n, (int)r->header.i);
    RKPulseHeader *S = &RKGetPulseFromBuffer(pulses, f % PD)->header, *E = &RKGetPulseFromBuffer(pulses, l % PD)->header;
    mc_assert(r->header.pulseCount == l - f + 1, "pulse-count", "ray %d has %d pulses, expected pulses %d to %d", n, r->header.pulseCount, f, l);
    mc_assert(r->header.startTimeDouble == 100.0 + 0.01 * f && r->header.endTimeDouble == 100.0 + 0.01 * l, "times", "ray %d spans %.2f to %.2f, expected pulses %d to %d", n, r->header.startTimeDouble, r->header.endTimeDouble, f, l);
    mc_assert(r->header.startTime.tv_sec == 1000 + f && r->header.endTime.tv_sec == 1000 + l, "times", "ray %d: wrong start or end time", n);
    mc_assert(r->header.startAzimuth == P[f].az && r->header.endAzimuth == P[l].az && r->header.startElevation == P[f].el && r->header.endElevation == P[l].el, "angles", "ray %d: A%.2f-%.2f E%.2f-%.2f, expected those of pulses %d and %d", n, r->header.startAzimuth, r->header.endAzimuth, r->header.startElevation, r->header.endElevation, f, l);
    mc_assert(r->header.marker == G[n].m || (l != G[n].last), "marker", "ray %d (pulses %d-%d): marker %x, expected %x", n, f, l, r->header.marker, G[n].m);
    mc_assert(r->header.configIndex == P[l].cfg, "config", "ray %d: configuration %d, expected %d", n, r->header.configIndex, P[l].cfg);
    mc_assert(r->header.gateCount == P[l].gc && r->header.sweepElevation == 40 + P[l].cfg && r->header.sweepAzimuth == 50 + P[l].cfg, "gates", "ray %d: gate count %d or sweep angles not of its configuration", n, r->header.gateCount);
    float *z = RKGetFloatDataFromRay(r, RKBaseProductIndexZ); uint8_t *u = RKGetUInt8DataFromRay(r, RKBaseProductIndexZ);
    if (G[n].skip) {
        mc_assert(r->header.s & RKRayStatusSkipped && !(r->header.s & RKRayStatusProcessed), "skip", "ray %d (pulses %d-%d) status %x, expected skipped", n, f, l, r->header.s);
        mc_assert(!calls[f] || (n > 0 && G[n-1].first == f), "skip", "skipped ray %d was processed", n);
        for (int k = 0; k < RKBaseProductCount * CAP; k++) mc_assert(isnan(z[k]) && u[k] == 0, "stale-data", "skipped ray %d still has data (element %d: %f, %d)", n, k, z[k], u[k]);
    } else {
        mc_assert(r->header.s & RKRayStatusProcessed && !(r->header.s & RKRayStatusSkipped), "skip", "ray %d (pulses %d-%d) status %x, expected processed", n, f, l, r->header.s);
        mc_assert(calls[f] == 1, "calls", "ray %d (pulse %d) processed %d times", n, f, calls[f]);
        for (int k = 0; k < P[l].gc; k++) mc_assert(fabsf(z[k] - value(f, k)) < 1e-4f, "data", "ray %d gate %d holds %f, expected %f (published before its data?)", n, k, z[k], value(f, k));
        for (int k = f; k <= l; k++) mc_assert(RKGetPulseFromBuffer(pulses, k % PD)->header.s & RKPulseStatusUsedForMoments, "used", "pulse %d not marked as used", k);
    }
    (void)S; (void)E;
    mc_count(1);
}
static void *consumer(void *x) {
    while (got < NG) {
        RKRay *r = RKMomentEngineGetProcessedRay(eng, x != NULL);
        if (r == NULL) { usleep(300); continue; }
        mc_assert(r == RKGetRayFromBuffer(rays, got % RD), "slot", "ray %d retrieved from another slot", got);
        checkRay(r, got);
        mc_note("ray %d", got);
        got++;
    }
    return NULL;
}
static void *follower(void *x) {   // what the sweep engine and the servers see
    while (seen < NG) {
        if (rayIndex == seen % RD) { usleep(400); continue; }
        RKRay *r = RKGetRayFromBuffer(rays, seen % RD);
        if (r->header.s == RKRayStatusVacant) mc_assert(got > seen, "early-index", "the ray index passed ray %d before it is ready", seen);
        else checkRay(r, seen);
        seen++;
    }
    return NULL;
}
static void putPulse(int n) {
    RKPulse *p = RKGetPulseFromBuffer(pulses, pulseIndex);
    RKGetPulseFromBuffer(pulses, RKNextNModuloS(pulseIndex, MAX(1, PD / 8), PD))->header.s = RKPulseStatusVacant;
    p->header.s = RKPulseStatusVacant; p->header.i = n; p->header.gateCount = p->header.downSampledGateCount = P[n].gc; p->header.positionIndex = (uint32_t)-1;
    p->header.timeDouble = 100.0 + 0.01 * n; p->header.time.tv_sec = 1000 + n; p->header.time.tv_usec = 0;
    p->header.gateSizeMeters = 30; p->header.configIndex = 9; p->header.marker = 0xffff; p->header.azimuthDegrees = -999; p->header.elevationDegrees = -999;
    np = n + 1;
    pulseIndex = RKNextModuloS(pulseIndex, PD);
    mc_yield("pulse");
    p->header.s = RKPulseStatusHasIQData | RKPulseStatusProcessed | RKPulseStatusRingProcessed | (P[n].comp ? RKPulseStatusCompressed : RKPulseStatusSkipped);
    mc_yield("position");
    p->header.azimuthDegrees = P[n].az; p->header.elevationDegrees = P[n].el; p->header.marker = P[n].m; p->header.configIndex = P[n].cfg;
    p->header.s |= RKPulseStatusHasPosition;
}
static double wrapdiff(double a, double b) { double d = fmod(a - b, 360.0); if (d > 180) d -= 360; if (d < -180) d += 360; return d; }
static void reference(void) {
    int g = 0, count = 0, beam = -1; NG = 0;
    for (int k = 0; k < NP; k++) {
        const bool S = P[k].m & RKMarkerSweepBegin, E = P[k].m & RKMarkerSweepEnd;
        if (S) { g = k; count = 0; beam = P[k].beam; }
        const bool full = count >= RKMaximumPulsesPerRay - 1;
        if (P[k].beam != beam || full || E) {
            if (count > 0) {
                int last = (exclude && !E && count > 1) ? k - 1 : k;
                G[NG].first = g; G[NG].last = last; G[NG].alt = k - 1; G[NG].m = 0; G[NG].mixed = false;
                for (int i = g; i <= last; i++) { G[NG].m |= P[i].m; G[NG].mixed |= P[i].cfg != P[g].cfg; }
                G[NG].skip = last - g < 3 || fabs(wrapdiff(P[g].az, P[last].az)) >= 3 || fabs(P[g].el - P[last].el) >= 3 || !P[g].comp;
                NG++;
                g = k; count = 0;
            }
            beam = P[k].beam;
        }
        if (E) { g = k + 1; count = 0; } else count++;
    }
}
static void setup(void) {
    rkQuiet();
    fft = RKFFTModuleInit(64, 0);
}
static int bufferCfg;
static void add(int beam, int q, int n, uint32_t m, int type, double step) {
    if (NP >= MAXP) mc_fail("harness", "history too long");
    const double b = 357 + step * beam + (q + 0.5) / (n < 1 ? 1 : n);
    P[NP].az = type == 1 ? 33.0f : (float)fmod(b, 360.0); P[NP].el = type == 0 ? 4.0f : type == 1 ? (float)(b - 350) : 4.0f;
    P[NP].m = m | (type == 0 ? RKMarkerScanTypePPI : type == 1 ? RKMarkerScanTypeRHI : RKMarkerScanTytpePoint);
    if (m & RKMarkerSweepBegin && NP) bufferCfg = (bufferCfg + 1) % 10;
    P[NP].cfg = bufferCfg; P[NP].gc = bufferCfg % 2 ? 20 : 24; P[NP].comp = true; P[NP].beam = beam; NP++;
}
static void body(void) {
    const int wide = mc_param("wide", 0);
    PD = wide == 2 ? 2304 : 40; who = 2; NP = np = NG = got = seen = 0; bufferCfg = 2; exclude = false; cores = 2;
    memset(P, 0, sizeof P); memset(used, 0, sizeof used); memset(calls, 0, sizeof calls); memset(cal, 0, sizeof cal);
    int type = 0; double step = 1; bool sem = true;
    if (wide == 1) {
        type = mc_param("few", 0) ? 0 : mc_choose(3, "type"); exclude = mc_choose(2, "exclude"); cores = 1 + 2 * mc_choose(2, "cores");
        static const int LEN[4] = {4, 1, 2, 5};
        int len[4]; for (int b = 0; b < 4; b++) len[b] = LEN[mc_choose((b == 1 && cores > 1) || mc_param("few", 0) ? 2 : 4, "pulses")];
        const int begin = mc_choose(3, "begin"), end = mc_choose(4, "end"), after = mc_choose(4, "after");
        step = after == 3 ? 4 : 1;
        for (int b = 0; b < 4; b++) for (int q = 0; q < len[b]; q++) {
            uint32_t m = RKMarkerSweepMiddle;
            if (begin == 1 && b == 0 && q == 0) m |= RKMarkerSweepBegin;
            if (begin == 2 && b == 1 && q == len[1] / 2) m |= RKMarkerSweepBegin;
            if (end == 1 && b == 3 && q == 0) m |= RKMarkerSweepEnd;
            if (end == 2 && b == 3 && q == len[3] - 1) m |= RKMarkerSweepEnd;
            if (end == 3 && b == 2 && q == len[2] / 2 && !(m & RKMarkerSweepBegin)) m |= RKMarkerSweepEnd;
            add(b, q, len[b], m, type, step);
        }
        for (int b = 4; b < 7; b++) for (int q = 0; q < 4; q++) add(b, q, 4, RKMarkerSweepMiddle | ((after == 1 && b == 4 && q == 0) || (after == 2 && b == 5 && q == 1) ? RKMarkerSweepBegin : 0) | (b == 6 && q == 3 ? RKMarkerSweepEnd : 0), type, step);
        if (after == 0 && begin == 0) P[2].comp = false, P[0].comp = false;
    } else if (wide == 2) {
        exclude = mc_choose(2, "exclude"); const int n = (int[]){1998, 1999, 2000, 2001, 2050}[mc_choose(5, "pulses")]; const int e = mc_choose(2, "end");
        for (int q = 0; q < n; q++) add(0, q, n, RKMarkerSweepMiddle | (q == 0 ? RKMarkerSweepBegin : 0) | (e && q == n - 1 ? RKMarkerSweepEnd : 0), 2, 1);
        for (int q = 0; q < 10; q++) add(1 + q / 4, q % 4, 4, 0, 2, 1);
    } else if (wide == 3) {     // the configuration changes inside of a sweep, e.g. with the waveform
        const int at = 8 + mc_choose(5, "change"); cores = 1;
        for (int q = 0; q < 24; q++) { const uint32_t m = RKMarkerSweepMiddle | (q == 0 ? RKMarkerSweepBegin : 0) | (q == 23 ? RKMarkerSweepEnd : 0); if (q == at) bufferCfg = 3; add(q / 4, q % 4, 4, m, 0, 1); }
        exclude = mc_choose(2, "exclude");
    } else {
        const int h = mc_choose(4, "history");
        cores = (int[]){2, 3, 1, 2}[h]; who = mc_choose(3, "consumers"); exclude = h == 2; type = h == 3; sem = h != 1;
        static const int L[4][14] = {{4, 5, 4, 1, 4, 4, 6, 4, 4, 2, 4, 4, 4, 4}, {4, 4, 4, 4, 5, 4, 4, 4, 4, 4, 4, 4, 4, 4}, {5, 4, 2, 6, 4, 5, 4, 4, 5, 4, 4, 4, 4, 4}, {4, 4, 1, 1, 5, 4, 4, 4, 4, 4, 4, 4, 4, 4}};
        for (int b = 0; b < 13; b++) for (int q = 0; q < L[h][b]; q++) {
            uint32_t m = b < 11 ? RKMarkerSweepMiddle : 0;
            if ((b == 0 || b == 5) && q == 0) m |= RKMarkerSweepBegin;
            if (b == 4 && q == L[h][b] - 1) m |= RKMarkerSweepEnd;
            if (b == 10 && q == 1) m |= RKMarkerSweepEnd;
            add(b, q, L[h][b], m, type, 1);
        }
    }
    reference();
    RD = who == 2 ? 40 : 8;
    if (who == 0) seen = NG; if (who == 1) got = NG;
    memset(&desc, 0, sizeof desc); desc.pulseCapacity = CAP; desc.pulseToRayRatio = 1; desc.configBufferDepth = 10; desc.pulseBufferDepth = PD; desc.rayBufferDepth = RD; desc.wavelength = 0.1f;
    memset(configs, 0, sizeof configs); memset(&wav, 0, sizeof wav); wav.count = 1; wav.filterCounts[0] = 1;
    for (int k = 0; k < 10; k++) {
        configs[k].i = k; configs[k].waveform = configs[k].waveformDecimate = &wav; configs[k].prt[0] = configs[k].prt[1] = 1e-3f; configs[k].sweepElevation = 40 + k; configs[k].sweepAzimuth = 50 + k;
        configs[k].startMarker = type == 0 ? RKMarkerScanTypePPI : type == 1 ? RKMarkerScanTypeRHI : RKMarkerScanTytpePoint; configs[k].SNRThreshold = -100; configs[k].SQIThreshold = 0;
    }
    pulseIndex = rayIndex = configIndex = 0;
    RKPulseBufferAlloc(&pulses, CAP, PD); RKRayBufferAlloc(&rays, CAP, RD);
    for (int k = 0; k < RD; k++) { RKRay *r = RKGetRayFromBuffer(rays, k); for (int i = 0; i < RKBaseProductCount * CAP; i++) { RKGetFloatDataFromRay(r, RKBaseProductIndexZ)[i] = 7e7f; RKGetUInt8DataFromRay(r, RKBaseProductIndexZ)[i] = 99; } }
    eng = RKMomentEngineInit(); eng->useSemaphore = sem;
    RKMomentEngineSetEssentials(eng, &desc, fft, configs, &configIndex, pulses, &pulseIndex, rays, &rayIndex);
    RKMomentEngineSetCoreCount(eng, cores); RKMomentEngineSetMomentProcessor(eng, processor); RKMomentEngineSetNoiseEstimator(eng, noise); RKMomentEngineSetCalibrator(eng, calibrator, NULL); RKMomentEngineSetExcludeBoundaryPulses(eng, exclude);
    mc_explore(false);
    mc_assert(RKMomentEngineStart(eng) == RKResultSuccess, "start", "engine did not start");
    for (int k = 0; k < PD && PD < 100; k++) mc_watch(&RKGetPulseFromBuffer(pulses, k)->header.s, 4);
    for (int k = 0; k < RD; k++) { mc_watch(&RKGetRayFromBuffer(rays, k)->header.s, 4); mc_watch(&eng->momentSource[k], 8); }
    for (int c = 0; c < cores; c++) mc_watch(&eng->workers[c].tic, 8);
    mc_watch(&pulseIndex, 4); mc_watch(&rayIndex, 4);
    static const long ST[] = {1300, 5000, 300};
    if (mc_param("stalls", 0)) mc_stalls(mc_param("stalls", 0), ST);
    pthread_t a, b;
    mc_explore(true);
    if (who != 1) pthread_create(&a, NULL, consumer, mc_param("blocking", 1) ? (void *)1 : NULL);
    if (who != 0) pthread_create(&b, NULL, follower, NULL);
    for (int k = 0; k < NP; k++) {
        int r = 0; while (r < NG && G[r].last <= k) r++;   // the ray that this pulse belongs to
        for (;;) { int o = MIN(got, seen); int f = o < NG ? G[o].first : k; if (k - f < PD - PD / 8 - 5 && r - o < (who == 2 ? 4 : RD - 3)) break; usleep(250); }
        putPulse(k);
        if (mc_param("pace", 0) && k % 2) usleep(600);
    }
    if (who != 1) pthread_join(a, NULL);
    if (who != 0) pthread_join(b, NULL);
    mc_explore(false);
    usleep(100000);
    mc_watch_clear();
    if (who != 0) mc_assert(rayIndex == (uint32_t)NG % RD, "extra-ray", "ray index is at %u after %d rays", rayIndex, NG);
    if (who != 1) mc_assert(RKMomentEngineGetProcessedRay(eng, false) == NULL, "extra-ray", "more than %d rays", NG);
    int expect[MAXP] = {0};
    for (int n = 0; n < NG; n++) if (!G[n].skip) for (int k = G[n].first; k <= G[n].last; k++) expect[k]++;
    for (int k = 0; k < NP; k++) mc_assert(used[k] == expect[k], "exactly-one", "pulse %d contributed to %d rays, expected %d", k, used[k], expect[k]);
    mc_assert(RKMomentEngineStop(eng) == RKResultSuccess && mc_live_threads() == 0, "stop", "engine did not stop");
    mc_assert(eng->almostFull == 0, "overload", "the engine skipped pulses without an overload");
    RKMomentEngineFree(eng); free(pulses); free(rays);
    uint64_t h = NG; for (int n = 0; n < NG; n++) h = h * 31 + G[n].first * 7 + G[n].last + 1000 * G[n].skip;
    mc_outcome(h); mc_outcome(mc_now_us() - mc_epoch_us);
}
int main(int argc, char **argv) {
    mc_config c = {.name = "c05_ray", .setup = setup, .body = body, .fork_runs = 1, .bound = 1, .vt_limit_us = 100000000};
    return mc_main(argc, argv, &c);
}
