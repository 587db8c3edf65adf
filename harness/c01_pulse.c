// C01: every pulse goes through compression once, in order (all schedules within the bound).
#include "rk.h"
#define CAP 64
static RKRadarDesc desc; static RKFFTModule *fft; static RKConfig configs[10]; static uint32_t configIndex;
static RKBuffer pulses; static uint32_t pulseIndex;
static RKPulseEngine *eng;
static int depth, cores, groups, N, ahead;
static int began[64], ended[64], gidOf[64][4], nEv[64];
static uint64_t base;

static void compressor(RKUserModule u, RKCompressionScratch *s) {
    RKPulse *p = s->pulse;
    long n = (long)(p->header.i - base);
    if (n < 0 || n >= N) mc_fail("unknown-pulse", "compressor called on a pulse that was never handed in (i = %lu)", (unsigned long)p->header.i);
    if (s->waveformFilterId == 0) {
        if (began[n]++) mc_fail("compressed-twice", "pulse %ld was compressed twice", n);
    }
    mc_assert(s->waveformGroupdId == (int)(p->header.i % groups), "wrong-group", "pulse %ld (i=%lu) compressed with filter group %d, expected %d", n, (unsigned long)p->header.i, (int)s->waveformGroupdId, (int)(p->header.i % groups));
    mc_assert(s->filter == eng->filters[s->waveformGroupdId][s->waveformFilterId], "wrong-filter", "pulse %ld: filter does not belong to group/index", n);
    mc_assert(s->filterAnchor == &eng->filterAnchors[s->waveformGroupdId][s->waveformFilterId], "wrong-anchor", "pulse %ld: filter anchor does not belong to group/index", n);
    mc_assert(p->header.s & RKPulseStatusHasIQData, "no-data", "pulse %ld compressed before it carried I/Q data", n);
    mc_assert(!(p->header.s & RKPulseStatusProcessed), "early-status", "pulse %ld reported as processed while it is being compressed", n);
    mc_yield("compressing");
    mc_assert(!(p->header.s & RKPulseStatusProcessed), "early-status", "pulse %ld reported as processed while it is being compressed", n);
    nEv[n]++;
    if (s->waveformFilterId == (int)eng->filterCounts[s->waveformGroupdId] - 1) ended[n]++;
}

static int produced, consumed; static bool producerDone;
static void *consumer(void *in) {
    const bool blocking = in != NULL;
    while (consumed < N) {
        RKPulse *p = RKPulseEngineGetProcessedPulse(eng, blocking);
        if (p == NULL) { usleep(200); continue; }
        long n = (long)(p->header.i - base);
        mc_assert(n == consumed, "out-of-order", "retrieved pulse %ld, expected pulse %d", n, consumed);
        mc_assert(p == RKGetPulseFromBuffer(pulses, consumed % depth), "wrong-slot", "pulse %d retrieved from another slot", consumed);
        mc_assert(p->header.s & RKPulseStatusProcessed, "not-processed", "pulse %d retrieved without being processed (s=%x)", consumed, p->header.s);
        if (p->header.s & RKPulseStatusSkipped) {
            mc_assert(eng->almostFull > 0 && (ahead + cores) * 10 > 8 * depth, "skipped-without-overload", "pulse %d skipped without an overload", consumed);
            mc_assert(!began[n], "skipped-and-compressed", "pulse %ld is marked skipped but was compressed", n);
        } else {
            mc_assert(p->header.s & RKPulseStatusCompressed, "not-compressed", "pulse %ld is processed but neither compressed nor skipped (s=%x)", n, p->header.s);
            mc_assert(began[n] == 1 && ended[n] == 1 && nEv[n] == (int)eng->filterCounts[n % groups], "incomplete", "pulse %ld retrieved with %d compressions begun, %d finished, %d filters applied", n, began[n], ended[n], nEv[n]);
            mc_assert((int)p->parameters.filterCounts[0] == nEv[n], "filter-count", "pulse %ld reports %u filters", n, p->parameters.filterCounts[0]);
            mc_assert(p->parameters.gid == n % groups, "gid", "pulse %ld reports group %u", n, p->parameters.gid);
        }
        mc_note("retrieved pulse %d s=%x", consumed, p->header.s);
        consumed++;
    }
    return NULL;
}

static void setup(void) {
    rkQuiet();
    memset(&desc, 0, sizeof desc);
    desc.pulseCapacity = CAP; desc.pulseToRayRatio = 1; desc.configBufferDepth = 10;
    fft = RKFFTModuleInit(CAP, 0);
}
static void body(void) {
    // configurations
    static const struct { int cores, depth, groups, filters, sem, ahead; } K[] = {
        {1, 8, 1, 1, 1, 4}, {2, 8, 1, 1, 1, 4}, {3, 8, 2, 2, 1, 4}, {2, 8, 3, 1, 0, 3}, {3, 9, 1, 1, 0, 3}, {2, 16, 2, 1, 1, 14}, {3, 10, 2, 1, 1, 2},
    };
    long from = mc_param("from", 0), to = mc_param("to", 6);
    int k = (int)from + mc_choose((int)(to - from + 1), "configuration");
    cores = K[k].cores; ahead = K[k].ahead; groups = K[k].groups; desc.pulseBufferDepth = depth = K[k].depth;
    N = K[k].ahead > 8 ? depth + 6 : depth + 3;
    RKPulseBufferAlloc(&pulses, CAP, depth);
    base = RKGetPulseFromBuffer(pulses, 0)->header.i + depth;
    mc_assert(base == 0, "base", "first pulse would not be number 0");
    eng = RKPulseEngineInit();
    eng->useSemaphore = K[k].sem;
    RKPulseEngineSetEssentials(eng, &desc, fft, configs, &configIndex, pulses, &pulseIndex);
    RKPulseEngineSetCoreCount(eng, cores);
    RKPulseEngineSetCompressor(eng, compressor, NULL);
    RKComplex one[2] = {{1.0f, 0.0f}, {0.5f, 0.0f}};
    for (int g = 0; g < groups; g++) for (int f = 0; f < K[k].filters; f++) {
        RKFilterAnchor a = RKFilterAnchorDefault; a.length = 1 + f; a.maxDataLength = CAP; RKPulseEngineSetGroupFilter(eng, one, a, g, f);
    }
    mc_explore(false);
    mc_assert(RKPulseEngineStart(eng) == RKResultSuccess, "start", "engine did not start");
    for (int i = 0; i < depth; i++) mc_watch(&RKGetPulseFromBuffer(pulses, i)->header.s, sizeof(RKPulseStatus));
    mc_watch(&pulseIndex, sizeof pulseIndex);
    if (mc_param("deep", 0)) { mc_watch(&eng->state, sizeof eng->state); mc_watch(eng->filterGid, depth * sizeof(int)); for (int c = 0; c < cores; c++) mc_watch(&eng->workers[c].tic, sizeof(uint64_t)); }
    pthread_t t; bool blocking = mc_param("blocking", 1);
    pthread_create(&t, NULL, consumer, blocking ? (void *)1 : NULL);
    static const long ST[] = {1200, 60, 30000};
    if (mc_param("stalls", 0)) mc_stalls(mc_param("stalls", 0), ST);
    mc_explore(true);
    for (produced = 0; produced < N; produced++) {
        while (produced - consumed >= K[k].ahead) usleep(100);
        RKPulse *p = RKPulseEngineGetVacantPulse(eng, 0);
        mc_assert(p == RKGetPulseFromBuffer(pulses, produced % depth), "vacant-slot", "vacant pulse %d is not the next slot", produced);
        mc_assert(p->header.i == (uint64_t)produced, "sequence", "vacant pulse %d carries number %lu", produced, (unsigned long)p->header.i);
        mc_assert(p->header.s == RKPulseStatusVacant, "vacant", "pulse %d handed out with status %x", produced, p->header.s);
        p->header.gateCount = 20; p->header.configIndex = 0;
        mc_yield("filling");
        p->header.s = RKPulseStatusHasIQData;
        mc_note("pulse %d ready", produced);
        if (K[k].ahead > 8 && produced == depth - 2) usleep(100);
    }
    pthread_join(t, NULL);
    mc_explore(false);
    mc_watch_clear();
    for (int n = 0; n < N; n++) mc_assert(began[n] <= 1, "compressed-twice", "pulse %d compressed %d times", n, began[n]);
    RKPulseEngineWaitWhileBusy(eng);
    mc_assert(RKPulseEngineStop(eng) == RKResultSuccess, "stop", "engine did not stop");
    mc_assert(mc_live_threads() == 0, "threads", "%d threads left after stop", mc_live_threads());
    for (int n = 0; n < N; n++) mc_assert(began[n] <= 1, "compressed-twice", "pulse %d compressed %d times", n, began[n]);
    mc_outcome(eng->almostFull); mc_outcome(k); mc_outcome(mc_now_us() - mc_epoch_us);
    int sk = 0; for (int n = 0; n < N; n++) sk = 2 * sk + !began[n];
    mc_outcome(sk);
}
int main(int argc, char **argv) {
    mc_config c = {.name = "c01_pulse", .setup = setup, .body = body, .fork_runs = 1, .bound = 1, .vt_limit_us = 100000000};
    return mc_main(argc, argv, &c);
}
