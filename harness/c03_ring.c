// C03: the ring (clutter) filter follows its difference equation, for every split over workers and every schedule.
#include "rk.h"
#define MAXP 64
static RKRadarDesc desc; static RKConfig configs[10]; static uint32_t configIndex;
static RKBuffer pulses; static uint32_t pulseIndex;
static RKPulseRingFilterEngine *eng;
static int CAP, depth, cores, N, gates, range, mode, ahead;
static float X[MAXP][2][2][512];      // input of pulse n
static bool skip[MAXP];
static int consumed;

static float in(int n, int p, int q, int g) {
    // generic values: different for every pulse, channel, component and gate
    uint32_t h = (uint32_t)(n * 7919 + p * 104729 + q * 1299709 + g * 15485863 + 12345); h ^= h >> 13; h *= 0x5bd1e995; h ^= h >> 15;
    return (float)((int)(h % 2001) - 1000) * 0.01f;
}
static void check(int n) {
    static double H[2][2][512][MAXP], Y[2][2][512][MAXP]; static int m = 0;  // filter history (skipped pulses do not enter)
    RKPulse *u = RKGetPulseFromBuffer(pulses, n % depth);
    const bool on = mode == 0 && !skip[n];
    const int r = range < gates ? range : gates;
    for (int p = 0; p < 2; p++) {
        RKIQZ z = RKGetSplitComplexDataFromPulse(u, p);
        for (int q = 0; q < 2; q++) {
            const float *d = q ? z.q : z.i;
            for (int g = 0; g < CAP; g++) {
                if (on && g < r) {
                    double y = 0, mag = 0; H[p][q][g][m] = X[n][p][q][g];
                    for (int j = 0; j < (int)eng->filter.bLength && j <= m; j++) { double t = (double)eng->filter.B[j].i * H[p][q][g][m - j]; y += t; mag += fabs(t); }
                    for (int j = 1; j < (int)eng->filter.aLength && j <= m; j++) { double t = (double)eng->filter.A[j].i * Y[p][q][g][m - j]; y -= t; mag += fabs(t); }
                    if (fabs(y - d[g]) > 1e-5 * (mag + 1)) mc_fail("filtered-value", "pulse %d channel %d %s gate %d: %g, the difference equation gives %g (cores %d capacity %d gates %d range %d)", n, p, q ? "Q" : "I", g, d[g], y, cores, CAP, gates, range);
                    Y[p][q][g][m] = d[g];   // follow the engine's own rounding
                } else if (d[g] != X[n][p][q][g])
                    mc_fail(mode ? "disabled-filter-changes-data" : skip[n] ? "skipped-pulse-changed" : "outside-range-changed", "pulse %d channel %d %s gate %d of capacity %d: %g became %g although it is outside of the filtered range (cores %d gates %d range %d)", n, p, q ? "Q" : "I", g, CAP, X[n][p][q][g], d[g], cores, gates, range);
                mc_count(1);
            }
        }
    }
    if (on) m++;
}
static void *consumer(void *x) {
    while (consumed < N) {
        RKPulse *u = RKGetPulseFromBuffer(pulses, consumed % depth);
        while (consumed >= (int)u->header.i + 1 || u->header.i != (uint64_t)consumed || !(u->header.s & RKPulseStatusRingProcessed)) {
            // a later pulse must not be reported while this one is not
            for (int k = 1; k <= 2; k++) {
                RKPulse *v = RKGetPulseFromBuffer(pulses, (consumed + k) % depth);
                if (v->header.i == (uint64_t)(consumed + k) && (v->header.s & RKPulseStatusRingProcessed) && !(u->header.s & RKPulseStatusRingProcessed))
                    mc_fail("out-of-order", "pulse %d is reported before pulse %d", consumed + k, consumed);
            }
            usleep(150);
        }
        if (mode == 0 && !skip[consumed]) mc_assert(u->header.s & RKPulseStatusRingFiltered, "not-marked", "pulse %d is available but not marked as filtered (s=%x)", consumed, u->header.s);
        else mc_assert(!(u->header.s & RKPulseStatusRingFiltered), "wrongly-marked", "pulse %d is marked as filtered (s=%x)", consumed, u->header.s);
        check(consumed);
        mc_note("pulse %d checked", consumed);
        consumed++;
    }
    return NULL;
}
static void setup(void) { rkQuiet(); }
static void body(void) {
    RKFilterType type = RKFilterTypeTest1; bool sem = true; int pattern = 0;
    const bool old = mc_param("old", 0);
    if (mc_param("wide", 0)) {   // many partitions, the default schedule
        static const int caps[] = {64, 80, 128, 256};
        CAP = caps[mc_choose(4, "capacity")];
        cores = 1 + mc_choose(5, "workers");
        gates = (int[]){CAP, CAP - 1, CAP - 15, CAP / 2 + 1, 17, 16, 1}[mc_choose(7, "gates")];
        range = (int[]){CAP, gates, gates - 1, gates / 2, 1, 0}[mc_choose(6, "range")];
        static const RKFilterType types[] = {RKFilterTypeTest1, RKFilterTypeElliptical1, RKFilterTypeElliptical2, RKFilterTypeElliptical3, RKFilterTypeElliptical4, RKFilterTypeImpulse};
        type = types[mc_choose(6, "filter")];
        pattern = mc_choose(2, "skips");
        sem = true; mode = 0; depth = 16; N = 36; ahead = 8;
    } else {
        static const struct { int cores, cap, gates, range, depth, sem, mode, pattern, type; } K[] = {
            {1, 64, 40, 33, 8, 1, 0, 0, 0}, {2, 64, 64, 40, 8, 1, 0, 1, 1}, {3, 64, 64, 60, 8, 0, 0, 0, 0}, {2, 64, 30, 64, 9, 0, 0, 1, 0}, {2, 64, 30, 64, 8, 1, 1, 1, 0},
            {3, 64, 60, 60, 8, 1, 0, 2, 0},
        };
        int k = mc_choose(sizeof K / sizeof K[0], "configuration");
        cores = K[k].cores; CAP = K[k].cap; gates = K[k].gates; range = K[k].range; depth = K[k].depth; sem = K[k].sem; mode = K[k].mode; pattern = K[k].pattern; type = K[k].type ? RKFilterTypeElliptical2 : RKFilterTypeTest1;
        N = depth + 3; ahead = 4;
        mc_outcome(k);
    }
    memset(&desc, 0, sizeof desc);
    desc.pulseCapacity = CAP; desc.pulseToRayRatio = 1; desc.configBufferDepth = 10; desc.pulseBufferDepth = depth;
    pulseIndex = 0; configIndex = 1; consumed = 0;
    memset(configs, 0, sizeof configs);
    for (int i = 0; i < 10; i++) configs[i].ringFilterGateCount = range;
    RKPulseBufferAlloc(&pulses, CAP, depth);
    eng = RKPulseRingFilterEngineInit();
    eng->useSemaphore = sem; eng->useOldCodes = old;
    RKPulseRingFilterEngineSetEssentials(eng, &desc, configs, &configIndex, pulses, &pulseIndex);
    RKPulseRingFilterEngineSetCoreCount(eng, cores);
    RKIIRFilter f; memset(&f, 0, sizeof f); RKGetFilterCoefficients(&f, type);
    RKPulseRingFilterEngineSetFilter(eng, &f);
    if (mode == 0) RKPulseRingFilterEngineEnableFilter(eng);
    mc_explore(false);
    mc_assert(RKPulseRingFilterEngineStart(eng) == RKResultSuccess, "start", "engine did not start");
    for (int i = 0; i < depth; i++) mc_watch(&RKGetPulseFromBuffer(pulses, i)->header.s, sizeof(RKPulseStatus));
    mc_watch(&pulseIndex, sizeof pulseIndex);
    mc_watch(eng->workerTaskDone, depth * cores * sizeof(bool));
    for (int c = 0; c < cores; c++) mc_watch(&eng->workers[c].tic, sizeof(uint64_t));
    pthread_t t; pthread_create(&t, NULL, consumer, NULL);
    static const long ST[] = {1500, 7000, 300};
    if (mc_param("stalls", 0)) mc_stalls(mc_param("stalls", 0), ST);
    mc_explore(true);
    for (int n = 0; n < N; n++) {
        while (n - consumed >= ahead) usleep(100);
        RKPulse *u = RKGetPulseFromBuffer(pulses, n % depth);
        RKPulse *v = RKGetPulseFromBuffer(pulses, (n + depth / 8 + 1) % depth); v->header.s = RKPulseStatusVacant;
        u->header.s = RKPulseStatusVacant; u->header.i = n; u->header.gateCount = gates; u->header.downSampledGateCount = gates;
        for (int p = 0; p < 2; p++) {
            RKIQZ z = RKGetSplitComplexDataFromPulse(u, p);
            for (int g = 0; g < CAP; g++) { z.i[g] = X[n][p][0][g] = in(n, p, 0, g); z.q[g] = X[n][p][1][g] = in(n, p, 1, g); }
        }
        skip[n] = pattern == 1 ? n % 5 == 2 : pattern == 2 ? n >= 3 && n <= 6 : false;
        u->header.s = RKPulseStatusHasIQData;
        pulseIndex = (n + 1) % depth;
        mc_yield("compression");
        u->header.s |= RKPulseStatusInspected | RKPulseStatusProcessed | (skip[n] ? RKPulseStatusSkipped : RKPulseStatusCompressed);
        mc_note("pulse %d ready", n);
        if (n % 6 == 5) usleep(300);
    }
    pthread_join(t, NULL);
    mc_explore(false); mc_watch_clear();
    mc_assert(RKPulseRingFilterEngineStop(eng) == RKResultSuccess, "stop", "engine did not stop");
    mc_assert(mc_live_threads() == 0, "threads", "%d threads left after stop", mc_live_threads());
    RKPulseRingFilterEngineFree(eng);
    RKIQZ z = RKGetSplitComplexDataFromPulse(RKGetPulseFromBuffer(pulses, 0), 0);
    uint32_t h = 0; for (int g = 0; g < CAP; g++) h = h * 31 + (uint32_t)(z.i[g] * 1000);
    mc_outcome(h); mc_outcome(mc_now_us() - mc_epoch_us);
    free(pulses);
}
int main(int argc, char **argv) {
    mc_config c = {.name = "c03_ring", .setup = setup, .body = body, .fork_runs = 1, .bound = 1, .vt_limit_us = 100000000};
    return mc_main(argc, argv, &c);
}
