// C07: every engine that was started can be stopped at any moment, started again and freed.
#include "rk.h"
#include <sys/stat.h>
#define CAP 64
static RKRadarDesc desc; static RKConfig *configs; static uint32_t configIndex; static RKFFTModule *fft;
static RKBuffer pulses, rays; static uint32_t pulseIndex, rayIndex;
static RKPosition *positions; static uint32_t positionIndex;
static RKNodalHealth nodes[RKHealthNodeCount]; static RKHealth *healths; static uint32_t healthIndex;
static RKWaveform wav;
static void setup(void) { rkQuiet(); memset(&desc, 0, sizeof desc); desc.pulseCapacity = CAP; desc.pulseToRayRatio = 1; desc.configBufferDepth = 10; fft = RKFFTModuleInit(CAP, 0); }
typedef struct { const char *name; void *(*init)(void); int (*start)(void *); int (*stop)(void *); void (*free_)(void *); RKEngineState volatile *(*st)(void *); void (*wire)(void *); } Eng;
#define DEF(n, T) \
  static void *init_##n(void) { return T##Init(); } static int start_##n(void *e) { return T##Start(e); } static int stop_##n(void *e) { return T##Stop(e); } \
  static void free_##n(void *e) { T##Free(e); } static RKEngineState volatile *st_##n(void *e) { return &((T *)e)->state; }
DEF(pulse, RKPulseEngine) DEF(ring, RKPulseRingFilterEngine) DEF(position, RKPositionEngine) DEF(moment, RKMomentEngine) DEF(sweep, RKSweepEngine)
DEF(health, RKHealthEngine) DEF(hlog, RKHealthLogger) DEF(rec, RKRawDataRecorder) DEF(steer, RKSteerEngine) DEF(files, RKFileManager)
static void w_pulse(void *e) { RKPulseEngineSetEssentials(e, &desc, fft, configs, &configIndex, pulses, &pulseIndex); RKPulseEngineSetCoreCount(e, 2); }
static void w_pulse2(void *e) { w_pulse(e); ((RKPulseEngine *)e)->useSemaphore = false; }
static void w_ring(void *e) { RKPulseRingFilterEngineSetEssentials(e, &desc, configs, &configIndex, pulses, &pulseIndex); RKPulseRingFilterEngineSetCoreCount(e, 2); }
static void w_ring2(void *e) { w_ring(e); ((RKPulseRingFilterEngine *)e)->useSemaphore = false; }
static void w_position(void *e) { RKPositionEngineSetEssentials(e, &desc, positions, &positionIndex, configs, &configIndex, pulses, &pulseIndex); }
static void w_moment(void *e) { RKMomentEngineSetEssentials(e, &desc, fft, configs, &configIndex, pulses, &pulseIndex, rays, &rayIndex); RKMomentEngineSetCoreCount(e, 2); RKMomentEngineSetMomentProcessor(e, RKPulsePair); }
static void w_moment2(void *e) { w_moment(e); ((RKMomentEngine *)e)->useSemaphore = false; }
static void w_sweep(void *e) { RKSweepEngineSetEssentials(e, &desc, NULL, configs, &configIndex, rays, &rayIndex); }
static void w_health(void *e) { RKHealthEngineSetEssentials(e, &desc, nodes, healths, &healthIndex); }
static void w_hlog(void *e) { RKHealthLoggerSetEssentials(e, &desc, NULL, healths, &healthIndex); }
static void w_rec(void *e) { RKRawDataRecorderSetEssentials(e, &desc, NULL, configs, &configIndex, pulses, &pulseIndex); RKRawDataRecorderSetRecord(e, false); }
static void w_steer(void *e) { RKSteerEngineSetEssentials(e, &desc, positions, &positionIndex, configs, &configIndex); }
static void w_files(void *e) { RKFileManagerSetPathToMonitor(e, "arch"); }
#define E(n, s) { #n, init_##s, start_##s, stop_##s, free_##s, st_##s, w_##n }
static const Eng ENG[] = { E(pulse, pulse), E(pulse2, pulse), E(ring, ring), E(ring2, ring), E(position, position), E(moment, moment), E(moment2, moment), E(sweep, sweep), E(health, health), E(hlog, hlog), E(rec, rec), E(steer, steer), E(files, files) };
static const Eng *E; static void *eng; static int stage;

static void data(int k) {    // put data item k at the stage where the engine has to wait for more
    RKPulse *p = RKGetPulseFromBuffer(pulses, k); RKRay *r = RKGetRayFromBuffer(rays, k);
    static const uint32_t S[] = {RKPulseStatusVacant, RKPulseStatusHasIQData, RKPulseStatusHasIQData | RKPulseStatusProcessed | RKPulseStatusCompressed, RKPulseStatusHasIQData | RKPulseStatusProcessed | RKPulseStatusCompressed | RKPulseStatusRingProcessed, RKPulseStatusReadyForMomentEngine};
    p->header.gateCount = p->header.downSampledGateCount = 20; p->header.timeDouble = 10 + 0.1 * k; p->header.i = k; p->header.azimuthDegrees = 0.4 * k; p->header.elevationDegrees = 1; p->header.gateSizeMeters = 30;
    p->header.s = S[stage];
    positions[k].timeDouble = stage > 3 ? 10.05 + 0.1 * k : 9 + 0.1 * k; positions[k].flag = RKPositionFlagReady;
    r->header.i = k; r->header.gateCount = 20; r->header.s = stage > 1 ? RKRayStatusReady : RKRayStatusVacant; r->header.marker = stage > 2 && k == 0 ? RKMarkerSweepBegin | RKMarkerScanTypePPI : stage > 3 ? RKMarkerSweepEnd | RKMarkerScanTypePPI : RKMarkerSweepMiddle | RKMarkerScanTypePPI;
    nodes[0].healths[k].flag = stage > 1 ? RKHealthFlagReady : RKHealthFlagVacant;
    if (stage > 0) { pulseIndex = k + 1; positionIndex = k + 1; rayIndex = k + 1; nodes[0].index = k + 1; }
    if (stage > 2) { strcpy(healths[k].string, "{}"); healths[k].flag = RKHealthFlagReady; healthIndex = strcmp(E->name, "hlog") ? healthIndex : k + 1; }
}
static void *feeder(void *x) { for (int k = 0; k < 3; k++) { data(k); usleep(700); } return NULL; }
static void stopped(const char *when) {
    mc_assert(mc_live_threads() == 0, "threads-left", "%s: %d threads left after stopping %s", when, mc_live_threads(), E->name);
    const uint32_t s = *E->st(eng);
    mc_assert(!(s & (RKEngineStateWantActive | RKEngineStateActive | RKEngineStateActivating | RKEngineStateDeactivating)), "state-left", "%s: %s is left in state %x after stop", when, E->name, s);
}
static void body(void) {
    const int from = mc_param("from", 0), to = mc_param("to", 12);
    E = &ENG[from + mc_choose(to - from + 1, "engine")];
    const int scenario = mc_choose(4, "scenario"); stage = scenario == 0 || scenario == 3 ? mc_choose(5, "stage") : 0;
    desc.pulseBufferDepth = 16; desc.rayBufferDepth = 16; desc.positionBufferDepth = 12; desc.healthNodeCount = 2; desc.healthBufferDepth = 8;
    strcpy(desc.dataPath, "arch"); strcpy(desc.name, "T"); strcpy(desc.filePrefix, "T");
    mkdir("arch", 0755);
    RKPulseBufferAlloc(&pulses, CAP, 16); RKRayBufferAlloc(&rays, CAP, 16);
    positions = calloc(12, sizeof(RKPosition)); healths = calloc(8, sizeof(RKHealth)); configs = calloc(10, sizeof(RKConfig));
    memset(&wav, 0, sizeof wav); wav.count = 1; wav.filterCounts[0] = 1;
    for (int k = 0; k < 10; k++) { configs[k].i = (uint64_t)k - 10; configs[k].waveform = &wav; configs[k].prt[0] = 1e-3; configs[k].ringFilterGateCount = 20; configs[k].pulseGateCount = 20; configs[k].pulseGateSize = 30; }
    configIndex = 1; configs[0].i = 0;
    for (int k = 0; k < 2; k++) { nodes[k].active = k == 0; nodes[k].healths = calloc(8, sizeof(RKHealth)); nodes[k].index = 0; }
    eng = E->init();
    mc_note("engine %s scenario %d stage %d", E->name, scenario, stage);
    mc_explore(false);
    if (scenario == 1) {   // never wired, never started; then freed
        int rc = E->stop(eng); mc_outcome(rc);
        mc_assert(rc != RKResultSuccess || !strcmp(E->name, "files"), "stop-not-started", "stopping %s, which was never started, reports success", E->name);
        stopped("not started");
        E->wire(eng); E->stop(eng); stopped("wired but not started");
        E->free_(eng);
        return;
    }
    E->wire(eng);
    const int rounds = 2;
    mc_watch(E->st(eng), sizeof(RKEngineState));
    pthread_t f;
    static const long ST[] = {4000, 40000, 1300000};
    if (mc_param("stalls", 0)) mc_stalls(mc_param("stalls", 0), ST);
    mc_explore(true);
    for (int r = 0; r < rounds; r++) {
        mc_assert(E->start(eng) == RKResultSuccess, "start", "%s did not start (round %d)", E->name, r);
        if (scenario == 0) { mc_explore(false); for (int k = 0; k < 3; k++) data(k); usleep(E->init == init_health || E->init == init_sweep ? 1200000 : 30000); mc_explore(true); }
        if (scenario == 3) pthread_create(&f, NULL, feeder, NULL);
        if (scenario == 2 && r == 0) usleep(3000);
        int rc = E->stop(eng);
        if (scenario == 3) pthread_join(f, NULL);
        mc_assert(rc == RKResultSuccess, "stop", "%s did not report success when stopped (%d)", E->name, rc);
        stopped(r ? "second stop" : "first stop");
        rc = E->stop(eng); mc_assert(rc != RKResultSuccess, "stop-twice", "a second stop of %s reports success", E->name);
        stopped("stopped twice");
        pulseIndex = positionIndex = rayIndex = healthIndex = 0;
        for (int k = 0; k < 16; k++) { RKGetPulseFromBuffer(pulses, k)->header.s = 0; RKGetRayFromBuffer(rays, k)->header.s = 0; }
        for (int k = 0; k < 8; k++) healths[k].flag = 0;
        if (scenario == 3) break;
    }
    mc_explore(false);
    mc_watch_clear();
    E->free_(eng);
    mc_outcome(E - ENG); mc_outcome(stage); mc_outcome(mc_now_us() - mc_epoch_us);
}
int main(int argc, char **argv) {
    mc_config c = {.name = "c07_stop", .setup = setup, .body = body, .fork_runs = 1, .bound = 1, .vt_limit_us = 100000000};
    return mc_main(argc, argv, &c);
}
