// C04: every pulse is tagged with the interpolation of the positions around it.
#include "rk.h"
#define PD 16   // pulse ring
#define QD 12   // position ring
#define T0 50000.0
static RKRadarDesc desc; static RKConfig configs[10]; static uint32_t configIndex;
static RKBuffer pulses; static uint32_t pulseIndex;
static RKPosition *positions; static uint32_t positionIndex;
static RKPositionEngine *eng; static RKWaveform wav;
static int NQ, NP, nq, np, tagged;
static struct { double t; float az, el, saz, sel, vaz, vel; uint32_t flag; } Q[64];
static struct { double t; int gc; } P[128];

static double wrapdiff(double a, double b) { double d = fmod(a - b, 360.0); if (d > 180) d -= 360; if (d < -180) d += 360; return d; }
static void putPosition(void) {
    RKPosition *q = &positions[positionIndex];
    q->flag = RKPositionFlagVacant; q->i = nq;
    positions[RKNextModuloS(positionIndex, QD)].flag = RKPositionFlagVacant;
    q->azimuthDegrees = Q[nq].az; q->elevationDegrees = Q[nq].el; q->sweepAzimuthDegrees = Q[nq].saz; q->sweepElevationDegrees = Q[nq].sel;
    q->azimuthVelocityDegreesPerSecond = Q[nq].vaz; q->elevationVelocityDegreesPerSecond = Q[nq].vel;
    q->flag |= Q[nq].flag;
    mc_yield("position");
    q->timeDouble = Q[nq].t;
    q->flag |= RKPositionFlagReady;
    nq++;
    positionIndex = RKNextModuloS(positionIndex, QD);
    mc_note("position %d", nq - 1);
}
static void putPulse(void) {
    RKPulse *p = RKGetPulseFromBuffer(pulses, pulseIndex);
    RKGetPulseFromBuffer(pulses, RKNextNModuloS(pulseIndex, PD / 8, PD))->header.s = RKPulseStatusVacant;
    p->header.s = RKPulseStatusVacant; p->header.i = np; p->header.configIndex = 77; p->header.marker = 0xdeadbeef; p->header.azimuthDegrees = 777; p->header.elevationDegrees = 777;
    mc_yield("pulse");
    p->header.timeDouble = P[np].t; p->header.gateCount = P[np].gc; p->header.gateSizeMeters = 30.0f;
    np++;
    pulseIndex = RKNextModuloS(pulseIndex, PD);
    p->header.s = RKPulseStatusHasIQData;
    mc_yield("processing");
    p->header.s |= RKPulseStatusProcessed | RKPulseStatusRingProcessed;
    mc_note("pulse %d", np - 1);
}
static uint32_t prevMarker; static int prevB; static int prevConfig; static uint64_t prevConfigI;
static void checkPulse(int n) {
    RKPulse *p = RKGetPulseFromBuffer(pulses, n % PD);
    int b = -1; while (b + 1 < NQ && Q[b + 1].t <= P[n].t) b++;
    if (b < 0) { mc_fail("harness", "unbracketed"); }
    const double alpha = (P[n].t - Q[b].t) / (Q[b + 1].t - Q[b].t);
    double az = Q[b].az + alpha * wrapdiff(Q[b + 1].az, Q[b].az), el = Q[b].el + alpha * wrapdiff(Q[b + 1].el, Q[b].el);
    mc_assert(p->header.i == (uint64_t)n, "order", "slot of pulse %d holds pulse %d", n, (int)p->header.i);
    mc_assert(fabs(wrapdiff(p->header.azimuthDegrees, az)) < 0.002, "azimuth", "pulse %d: azimuth %.4f, expected %.4f (between %.2f and %.2f at %.3f)", n, p->header.azimuthDegrees, fmod(az + 360, 360), Q[b].az, Q[b + 1].az, alpha);
    mc_assert(p->header.azimuthDegrees >= 0 && p->header.azimuthDegrees < 360, "azimuth-range", "pulse %d: azimuth %.4f out of range (between %.2f and %.2f at %.3f)", n, p->header.azimuthDegrees, Q[b].az, Q[b + 1].az, alpha);
    mc_assert(fabs(p->header.elevationDegrees - el) < 0.002, "elevation", "pulse %d: elevation %.4f, expected %.4f", n, p->header.elevationDegrees, el);
    mc_assert(p->header.azimuthVelocityDegreesPerSecond == Q[b].vaz && p->header.elevationVelocityDegreesPerSecond == Q[b].vel, "velocity", "pulse %d: velocity not from the reading before it", n);
    // markers
    const uint32_t f = Q[b].flag;
    uint32_t m = 0;
    const bool active = f & RKPositionFlagScanActive;
    if (active) m |= RKMarkerSweepMiddle;
    if ((f & RKPositionFlagElevationPoint) && (f & RKPositionFlagAzimuthSweep)) m |= RKMarkerScanTypePPI;
    else if ((f & RKPositionFlagAzimuthPoint) && (f & RKPositionFlagElevationSweep)) m |= RKMarkerScanTypeRHI;
    else if ((f & RKPositionFlagAzimuthPoint) && (f & RKPositionFlagElevationPoint)) m |= RKMarkerScanTytpePoint;
    bool ended = false; for (int k = prevB + 1; k <= b; k++) ended |= (Q[k].flag & (RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete)) != 0;
    const bool before = prevMarker & RKMarkerSweepMiddle;
    if (ended && (b - prevB == 1 || !(prevMarker & RKMarkerSweepEnd))) m |= RKMarkerSweepEnd;
    if (before && !active) m |= RKMarkerSweepEnd;
    if (active && (!before || (prevMarker & RKMarkerSweepEnd))) m |= RKMarkerSweepBegin;
    mc_assert(p->header.marker == m, "marker", "pulse %d: marker %02x, expected %02x (previous %02x, readings %d to %d)", n, p->header.marker, m, prevMarker, prevB + 1, b);
    // configuration
    const int ci = p->header.configIndex;
    mc_assert(ci >= 0 && ci < 10, "config-index", "pulse %d: configuration index %d", n, ci);
    RKConfig *c = &configs[ci];
    const bool newSweep = (m & RKMarkerSweepBegin) || ((m ^ prevMarker) & RKMarkerScanTypeMask);
    const bool newGates = n > 0 && P[n].gc != P[n - 1].gc;
    int adv = newSweep + newGates;
    if (prevConfig >= 0) mc_assert(c->i == prevConfigI + adv, "config-advance", "pulse %d: configuration number went from %lu to %lu, expected %d step(s)", n, (unsigned long)prevConfigI, (unsigned long)c->i, adv);
    if (newSweep) {
        mc_assert(c->sweepElevation == Q[b + 1].sel && c->sweepAzimuth == Q[b + 1].saz, "config-sweep", "pulse %d: configuration has sweep angles %.1f/%.1f, expected %.1f/%.1f", n, c->sweepElevation, c->sweepAzimuth, Q[b + 1].sel, Q[b + 1].saz);
        mc_assert(c->startMarker == m, "config-marker", "pulse %d: configuration start marker %x, expected %x", n, c->startMarker, m);
    }
    if (newSweep || newGates) mc_assert(c->pulseGateCount == (uint32_t)P[n].gc, "config-gates", "pulse %d: configuration has %u gates, expected %d", n, c->pulseGateCount, P[n].gc);
    prevMarker = m; prevB = b; prevConfig = ci; prevConfigI = c->i;
    mc_count(1);
}
static void *checker(void *x) {
    while (tagged < NP) {
        RKPulse *p = RKGetPulseFromBuffer(pulses, tagged % PD);
        while (tagged >= np || !(p->header.s & RKPulseStatusHasPosition)) {
            if (np > tagged + 1) { RKPulse *v = RKGetPulseFromBuffer(pulses, (tagged + 1) % PD); mc_assert(!(v->header.i == (uint64_t)(tagged + 1) && (v->header.s & RKPulseStatusHasPosition)) || (p->header.s & RKPulseStatusHasPosition), "out-of-order", "pulse %d tagged before pulse %d", tagged + 1, tagged); }
            usleep(500);
        }
        mc_assert(p->header.s & RKPulseStatusRingProcessed, "status", "pulse %d: tagged before processing finished or status lost (s=%x)", tagged, p->header.s);
        checkPulse(tagged);
        tagged++;
    }
    return NULL;
}
static int lead;   // > 0: positions run ahead by this many, < 0: pulses run ahead
static void *pulseThread(void *x) {
    for (int k = 0; k < NP; k++) {
        // keep the pulse ring from lapping and keep the chosen lead
        while (np - tagged >= PD - 6) usleep(300);
        if (lead > 0) { int need = 0; while (need < NQ && Q[need].t <= P[k].t) need++; need += lead; if (need > NQ) need = NQ; while (nq < need) usleep(300); }
        putPulse();
    }
    return NULL;
}
static void *positionThread(void *x) {
    for (int k = 0; k < NQ; k++) {
        // positions may not lap the tagger
        int oldest = 0; 
        for (;;) { oldest = 0; if (tagged < NP) { while (oldest + 1 < NQ && Q[oldest + 1].t <= P[tagged].t) oldest++; } else oldest = k; if (prevB >= 0 && prevB < oldest) oldest = prevB; if (tagged >= NP) oldest = k; if (k - oldest < QD - 3) break; usleep(300); }
        if (lead < 0) { int need = 0; while (need < NP && P[need].t < Q[k].t) need++; need += -lead - 1; if (need > NP) need = NP; while (np < need && np - tagged < PD - 6) usleep(300); }
        putPosition();
    }
    return NULL;
}
static void setup(void) {
    rkQuiet();
    memset(&desc, 0, sizeof desc); desc.pulseCapacity = 64; desc.pulseToRayRatio = 1; desc.configBufferDepth = 10; desc.pulseBufferDepth = PD; desc.positionBufferDepth = QD;
}
#define PPI (RKPositionFlagAzimuthSweep | RKPositionFlagElevationPoint)
#define RHI (RKPositionFlagElevationSweep | RKPositionFlagAzimuthPoint)
#define ACT RKPositionFlagScanActive
static void body(void) {
    const int wide = mc_param("wide", 0);
    static const char *gaps[] = {"1111111111111111", "2222222222222222", "0101010101010101", "0010010010010010", "3331113331113331", "1021302110213021"};
    int gp = 1, fr = 0; double az0 = 357, daz = 1.7, el0 = 2, del = 0.1; int kind = 0;
    memset(Q, 0, sizeof Q); memset(P, 0, sizeof P);
    NQ = 9; NP = 0; nq = np = tagged = 0; prevMarker = RKMarkerSweepEnd; prevB = -1; prevConfig = -1; prevConfigI = 0; pulseIndex = positionIndex = configIndex = 0; lead = 1;
    uint32_t flags[64]; for (int k = 0; k < 64; k++) flags[k] = PPI | ACT;
    int gatesAt = -1;
    if (wide == 1) {        // marker histories
        gp = mc_choose(6, "gaps"); lead = mc_choose(2, "order") ? -2 : 2;
        const int type = mc_choose(3, "type");
        NQ = 9;
        flags[0] = (type == 1 ? RHI : PPI);
        for (int k = 1; k < 7; k++) {
            static const uint32_t A[3] = {0, ACT, ACT | RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete};
            uint32_t base = type == 0 ? PPI : type == 1 ? RHI : k < 4 ? PPI : RHI;
            uint32_t a = A[mc_choose(3, "flag")];
            if (type == 0) a &= ~RKPositionFlagElevationComplete; else if (type == 1) a &= ~RKPositionFlagAzimuthComplete;
            flags[k] = base | a;
        }
        flags[7] = flags[8] = type == 0 ? PPI : RHI;
    } else if (wide == 2) { // angles and times
        gp = mc_choose(6, "gaps"); lead = (int[]){-3, -1, 1, 3}[mc_choose(4, "order")];
        az0 = (double[]){0, 355, 180, 359.5}[mc_choose(4, "az0")]; daz = (double[]){0, 1, -1, 2.5, 100, -179, 0.5}[mc_choose(7, "daz")];
        el0 = (double[]){0, -1, 45, 178}[mc_choose(4, "el0")]; del = (double[]){0, 0.5, -0.5, 10}[mc_choose(4, "del")];
        fr = mc_choose(3, "phase"); gatesAt = mc_choose(2, "gates") ? 3 : -1;
        NQ = 16;
    } else {                // schedules
        kind = mc_choose(4, "history");
        gp = (int[]){0, 1, 2, 5}[kind]; lead = (int[]){1, 0, -2, 0}[kind]; fr = kind == 1 ? 0 : 1;
        flags[0] = flags[1] = PPI; flags[4] |= RKPositionFlagAzimuthComplete; flags[7] = PPI; NQ = kind == 2 ? 14 : 9;
        gatesAt = 4;
    }
    for (int k = 0; k < NQ; k++) {
        Q[k].t = T0 + 0.1 * k; Q[k].az = (float)fmod(az0 + daz * k + 3600, 360.0); Q[k].el = (float)(el0 + del * k); Q[k].flag = flags[k] | RKPositionFlagAzimuthEnabled;
        Q[k].saz = 10 + k; Q[k].sel = 20 + k; Q[k].vaz = 1 + k; Q[k].vel = 2 + k;
    }
    for (int k = 0; k < NQ - 1; k++) {
        int c = gaps[gp][k % 16] - '0';
        for (int q = 0; q < c; q++) {
            double u = fr == 0 ? (double)q / c : fr == 1 ? (q + 0.5) / c : (q + 0.999) / c;
            P[NP].t = Q[k].t + u * (Q[k + 1].t - Q[k].t); P[NP].gc = gatesAt >= 0 && NP >= gatesAt ? 40 : 50; NP++;
        }
    }
    if (NP == 0) mc_skip();
    memset(configs, 0, sizeof configs); memset(&wav, 0, sizeof wav); wav.count = 1; wav.filterCounts[0] = 1;
    for (int k = 0; k < 10; k++) { configs[k].i = (uint64_t)k - 10; configs[k].waveform = &wav; }
    configIndex = 1; configs[0].i = 0;
    RKPulseBufferAlloc(&pulses, 64, PD);
    positions = calloc(QD, sizeof(RKPosition));
    eng = RKPositionEngineInit();
    RKPositionEngineSetEssentials(eng, &desc, positions, &positionIndex, configs, &configIndex, pulses, &pulseIndex);
    mc_explore(false);
    if (P[0].gc) RKGetPulseFromBuffer(pulses, 0)->header.gateCount = P[0].gc;
    mc_assert(RKPositionEngineStart(eng) == RKResultSuccess, "start", "engine did not start");
    for (int k = 0; k < PD; k++) mc_watch(&RKGetPulseFromBuffer(pulses, k)->header.s, 4);
    for (int k = 0; k < QD; k++) { mc_watch(&positions[k].timeDouble, 8); mc_watch(&positions[k].flag, 4); }
    mc_watch(&pulseIndex, 4); mc_watch(&positionIndex, 4); mc_watch(&configIndex, 4);
    pthread_t a, b, c;
    static const long ST[] = {1500, 7000, 300};
    if (mc_param("stalls", 0)) mc_stalls(mc_param("stalls", 0), ST);
    mc_explore(true);
    pthread_create(&a, NULL, positionThread, NULL); pthread_create(&b, NULL, pulseThread, NULL); pthread_create(&c, NULL, checker, NULL);
    pthread_join(a, NULL); pthread_join(b, NULL); pthread_join(c, NULL);
    mc_explore(false); mc_watch_clear();
    mc_assert(RKPositionEngineStop(eng) == RKResultSuccess, "stop", "engine did not stop");
    mc_assert(mc_live_threads() == 0, "threads", "threads left");
    RKPositionEngineFree(eng); free(pulses); free(positions);
    mc_outcome(prevConfigI); mc_outcome(prevMarker); mc_outcome(NP); mc_outcome((int)az0 * 1000 + (int)daz); mc_outcome(mc_now_us() - mc_epoch_us);
}
int main(int argc, char **argv) {
    mc_config c = {.name = "c04_position", .setup = setup, .body = body, .fork_runs = 1, .bound = 1, .vt_limit_us = 100000000};
    return mc_main(argc, argv, &c);
}
