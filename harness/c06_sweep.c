// C06: every complete sweep is collected and recorded once, with exactly its own rays.
#include "rk.h"
#define CAP 16
#define MAXR 2400
static RKRadarDesc desc; static RKConfig configs[10]; static uint32_t configIndex;
static RKBuffer rays; static uint32_t rayIndex; static RKSweepEngine *eng; static RKWaveform wav;
static int RD, NR, made;
static struct { uint32_t m; int cfg; float az, el; } R[MAXR];
static struct { int first, n, k, kn; bool rec; int cfg; } W[128]; static int NW;   // expected sweeps
static int wi, pi_, nProducts; static bool seenProduct[20]; static char base[1024];
static const char *SYM[] = {"Z", "V", "W", "D", "P", "R", "K", "Lh", "Lv", "Rxh", "Rxv", "Pxh", "Pxv"};
static const int IDX[] = {RKBaseProductIndexZ, RKBaseProductIndexV, RKBaseProductIndexW, RKBaseProductIndexD, RKBaseProductIndexP, RKBaseProductIndexR, RKBaseProductIndexK, RKBaseProductIndexLh, RKBaseProductIndexLv, RKBaseProductIndexRXh, RKBaseProductIndexRXv, RKBaseProductIndexPXh, RKBaseProductIndexPXv};
static bool recordAt[128], failAt[128]; static int slow;
static float value(int ray, int p, int g) { return (float)(ray % 1000) + 0.01f * p + 0.1f * (g % 7); }
static int gates(int cfg) { return 5 + cfg % 3; }

static int recorder(RKProduct *p, const char *filename) {
    while (wi < NW && !W[wi].rec) wi++;
    mc_assert(wi < NW, "extra-sweep", "a sweep is recorded although no complete sweep is left (file %s)", filename);
    const int f = W[wi].first + W[wi].k, n = W[wi].kn;
    int s = 0; while (s < 13 && strcmp(SYM[s], p->desc.symbol)) s++;
    mc_assert(s < 13, "product", "recording of unknown product '%s'", p->desc.symbol);
    mc_assert(!seenProduct[s], "product-twice", "product %s of sweep %d is recorded twice", SYM[s], wi);
    seenProduct[s] = true;
    mc_assert((int)p->header.rayCount == n, "ray-count", "sweep %d product %s has %u rays, expected %d (rays %d to %d)", wi, SYM[s], p->header.rayCount, n, f, f + n - 1);
    mc_assert((int)p->header.gateCount == gates(W[wi].cfg), "gate-count", "sweep %d has %u gates, expected %d", wi, p->header.gateCount, gates(W[wi].cfg));
    for (int k = 0; k < n; k++) {
        mc_assert(p->startAzimuth[k] == R[f + k].az && p->endAzimuth[k] == R[f + k].az + 1 && p->startElevation[k] == R[f + k].el && p->endElevation[k] == R[f + k].el + 0.5f, "rays", "sweep %d product %s: ray %d of the product is not ray %d of the radar (azimuth %.1f)", wi, SYM[s], k, f + k, p->startAzimuth[k]);
        for (int g = 0; g < gates(W[wi].cfg); g++) mc_assert(p->data[k * gates(W[wi].cfg) + g] == value(f + k, IDX[s], g), "data", "sweep %d product %s: data of ray %d gate %d is %f, expected %f", wi, SYM[s], k, g, p->data[k * gates(W[wi].cfg) + g], value(f + k, IDX[s], g));
        mc_assert(RKGetRayFromBuffer(rays, (f + k) % RD)->header.s != RKRayStatusVacant, "released-early", "ray %d is released while sweep %d is being recorded", f + k, wi);
    }
    RKConfig *c = &configs[W[wi].cfg];
    const bool ppi = (c->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI, rhi = (c->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypeRHI;
    mc_assert(p->header.isPPI == ppi && p->header.isRHI == rhi, "scan-type", "sweep %d: isPPI = %d, isRHI = %d, expected %d, %d", wi, p->header.isPPI, p->header.isRHI, ppi, rhi);
    mc_assert(p->header.sweepElevation == c->sweepElevation && p->header.sweepAzimuth == c->sweepAzimuth && p->header.noise[0] == c->noise[0] && p->header.prt[0] == c->prt[0] && !strcmp(p->header.waveformName, c->waveformName) && !strcmp(p->header.vcpDefinition, c->vcpDefinition), "config", "sweep %d product %s carries another configuration (elevation %.1f, VCP '%s')", wi, SYM[s], p->header.sweepElevation, p->header.vcpDefinition);
    mc_assert(p->i == c->i, "config-id", "sweep %d product %s carries configuration number %lu, expected %lu", wi, SYM[s], (unsigned long)p->i, (unsigned long)c->i);
    mc_assert(p->header.startTime == 1500000000 + 10 * f && p->header.endTime == 1500000000 + 10 * (f + n - 1) + 5, "times", "sweep %d: time %ld to %ld", wi, (long)p->header.startTime, (long)p->header.endTime);
    // one file per product, named after the sweep
    time_t t0 = 1500000000 + 10 * f; char want[512], stamp[64]; int o = snprintf(want, sizeof want, "data/" RKDataFolderMoment "/"); o += strftime(want + o, 64, "%Y%m%d/", gmtime(&t0)); strftime(stamp, 64, "%Y%m%d-%H%M%S", gmtime(&t0));
    o += snprintf(want + o, 128, "PX-%s-", stamp); o += ppi ? snprintf(want + o, 32, "E%.1f", c->sweepElevation) : rhi ? snprintf(want + o, 32, "A%.1f", c->sweepAzimuth) : snprintf(want + o, 32, "N%03d", n);
    snprintf(want + o, 32, "-%s.nc", SYM[s]);
    mc_assert(!strcmp(filename, want), "filename", "sweep %d product %s goes to %s, expected %s", wi, SYM[s], filename, want);
    mc_note("sweep %d %s", wi, SYM[s]);
    mc_count(n);
    if (slow) usleep(slow); else mc_yield("recording");
    if (++pi_ == nProducts) { memset(seenProduct, 0, sizeof seenProduct); pi_ = 0; wi++; }
    return failAt[wi] ? RKResultFailedToOpenFileForWriting : RKResultSuccess;
}
static void putRay(int n) {
    RKRay *r = RKGetRayFromBuffer(rays, n % RD);
    r->header.s = RKRayStatusVacant;
    mc_yield("vacant");
    r->header.s = RKRayStatusProcessing;
    r->header.i = n; r->header.marker = R[n].m; r->header.configIndex = R[n].cfg; r->header.gateCount = gates(R[n].cfg); r->header.gateSizeMeters = 30;
    r->header.startAzimuth = R[n].az; r->header.endAzimuth = R[n].az + 1; r->header.startElevation = R[n].el; r->header.endElevation = R[n].el + 0.5f;
    r->header.startTime.tv_sec = 1500000000 + 10 * n; r->header.endTime.tv_sec = r->header.startTime.tv_sec + 5; r->header.pulseCount = 10;
    r->header.baseProductList = nProducts == 7 ? RKBaseProductListFloatZVWDPRKSQ : nProducts == 13 ? RKBaseProductListFloatZVWDPRKLRXPX : RKBaseProductListFloatZ | RKBaseProductListFloatV | RKBaseProductListFloatW;
    for (int p = 0; p < RKBaseProductCount; p++) { float *x = RKGetFloatDataFromRay(r, p); for (int g = 0; g < CAP; g++) x[g] = g < gates(R[n].cfg) ? value(n, p, g) : -999; }
    r->header.s ^= RKRayStatusProcessing;
    r->header.s |= RKRayStatusReady | RKRayStatusProcessed;
    made = n + 1;
    rayIndex = (n + 1) % RD;
}
static void add(uint32_t m, int cfg) { R[NR].m = m | RKMarkerScanTypePPI; R[NR].cfg = cfg; R[NR].az = NR % 360; R[NR].el = 3 + 0.01f * (NR % 100); NR++; }
static int cfgNow;
static void sweep(int n, bool end, int type) {  // n rays; without end it is aborted
    cfgNow = (cfgNow + 1) % 10; configs[cfgNow].startMarker = (type == 0 ? RKMarkerScanTypePPI : type == 1 ? RKMarkerScanTypeRHI : RKMarkerScanTytpePoint) | RKMarkerSweepBegin | RKMarkerSweepMiddle;
    if (end && n > 1) {
        W[NW].first = NR; W[NW].n = n; W[NW].k = 0; W[NW].kn = n; W[NW].cfg = cfgNow; W[NW].rec = n >= 3 && recordAt[NW];
        if (n == 361) W[NW].kn = 360; else if (n > 361 && n < 380) { W[NW].k = n - 361; W[NW].kn = 360; }
        NW++;
    }
    for (int k = 0; k < n; k++) add(RKMarkerSweepMiddle | (k == 0 ? RKMarkerSweepBegin : 0) | (end && k == n - 1 ? RKMarkerSweepEnd : 0), cfgNow);
}
static void transition(int n) { for (int k = 0; k < n; k++) add(0, cfgNow); }
static void setup(void) {
    rkQuiet();
    eng = RKSweepEngineInit();
}
static void body(void) {
    const int wide = mc_param("wide", 0);
    NR = NW = wi = pi_ = made = 0; cfgNow = 0; nProducts = 7; slow = 0; RD = 40; rayIndex = configIndex = 0;
    memset(configs, 0, sizeof configs); memset(&wav, 0, sizeof wav); memset(seenProduct, 0, sizeof seenProduct);
    for (int k = 0; k < 10; k++) { configs[k].i = 100 + k; configs[k].waveform = &wav; configs[k].sweepElevation = 2 + 0.5f * k; configs[k].sweepAzimuth = 50 + 1.5f * k; configs[k].noise[0] = k + 0.25f; configs[k].prt[0] = 0.001f * (k + 1); snprintf(configs[k].waveformName, 32, "wave%d", k); snprintf(configs[k].vcpDefinition, 64, "volume definition %d", k); }
    for (int k = 0; k < 128; k++) { recordAt[k] = true; failAt[k] = false; }
    long pace = 30000; int stopAt = -1;
    if (wide == 1) {            // sequences of sweeps, aborted sweeps and transitions
        nProducts = (int[]){7, 3, 13}[mc_choose(3, "products")];
        slow = mc_choose(2, "slow") ? 90000 : 0;
        const int type = mc_choose(3, "type");
        recordAt[1] = mc_choose(2, "record");
        static const int LEN[] = {4, 3, 2, 9};
        const int D = 4;
        for (int d = 0; d < D; d++) {
            const int what = mc_choose(d == 0 ? 5 : 6, "segment");
            if (what < 4) sweep(LEN[what], true, type); else if (what == 4) sweep(2, false, type); else transition(2);
        }
        sweep(4, true, 0);
    } else if (wide == 2) {     // full rotations
        RD = 800; pace = 12000;
        const int n = (int[]){359, 360, 361, 362, 365, 379, 380, 381}[mc_choose(8, "rays")]; const int t = mc_choose(2, "transition");
        if (t) transition(3);
        sweep(n, true, 0); sweep(5, true, 1); sweep(n, true, 0);
    } else if (wide == 3) {     // long and short sweeps: when the rays are handed back
        static const int LEN[] = {3, 5, 8, 18};
        for (int d = 0; d < 7; d++) sweep(LEN[mc_choose(4, "length")], true, 0);
        pace = mc_choose(2, "pace") ? 30000 : 60000;
    } else if (wide == 4) {     // stop at every stage
        sweep(4, true, 0); sweep(3, true, 1); sweep(5, true, 0); slow = mc_choose(2, "slow") ? 60000 : 0;
        stopAt = mc_choose(48, "stop");
    } else {
        const int h = mc_choose(4, "history");
        if (h == 0) { sweep(4, true, 0); sweep(3, true, 1); transition(2); sweep(5, true, 0); sweep(6, true, 0); }
        if (h == 1) { transition(1); sweep(2, false, 0); sweep(5, true, 0); sweep(2, true, 0); sweep(3, true, 0); slow = 70000; pace = 20000; }
        if (h == 2) { recordAt[1] = false; sweep(4, true, 0); sweep(4, true, 0); sweep(4, true, 0); sweep(3, false, 0); sweep(4, true, 0); pace = 60000; nProducts = 3; }
        if (h == 3) { RD = 16; sweep(3, true, 0); sweep(3, true, 0); sweep(3, true, 0); sweep(3, true, 1); sweep(3, true, 1); sweep(3, true, 2); sweep(3, true, 0); pace = 70000; nProducts = 3; }
    }
    memset(&desc, 0, sizeof desc); desc.rayBufferDepth = RD; desc.pulseToRayRatio = 1; desc.configBufferDepth = 10; strcpy(desc.filePrefix, "PX"); strcpy(desc.dataPath, "data");
    RKRayBufferAlloc(&rays, CAP, RD);
    RKSweepEngineSetEssentials(eng, &desc, NULL, configs, &configIndex, rays, &rayIndex);
    RKSweepEngineSetProductRecorder(eng, recorder);
    RKSweepEngineSetRecord(eng, true);
    mc_explore(false);
    mc_assert(RKSweepEngineStart(eng) == RKResultSuccess, "start", "engine did not start");
    if (RD < 100) for (int k = 0; k < RD; k++) { mc_watch(&RKGetRayFromBuffer(rays, k)->header.s, 4); }
    mc_watch(&rayIndex, 4); mc_watch(&eng->tic, 8); mc_watch(&eng->scratchSpaceIndex, 1); mc_watch(&eng->business, 4);
    static const long ST[] = {20000, 130000, 1500};
    if (mc_param("stalls", 0)) mc_stalls(mc_param("stalls", 0), ST);
    mc_explore(wide == 0);
    if (stopAt >= 0) {
        int64_t t = mc_now_us() + stopAt * 17000;
        for (int n = 0; n < NR && mc_now_us() < t; n++) { putRay(n); usleep(MIN(pace, t - mc_now_us() > 0 ? t - mc_now_us() : 1)); }
        while (mc_now_us() < t) usleep(1000);
        mc_assert(RKSweepEngineStop(eng) == RKResultSuccess, "stop", "engine did not stop");
        mc_assert(mc_live_threads() == 0, "threads", "%d threads of the engine are still running after it was stopped", mc_live_threads());
        mc_outcome(wi * 100 + pi_);
        return;
    }
    int w = 0;
    for (int n = 0; n < NR; n++) {
        // recording is switched between sweeps
        while (w < NW && n > W[w].first + W[w].n - 1) w++;
        if (w < NW && n == W[w].first + 1) { mc_explore(false); for (int k = 0; k < 9000 && eng->processedRayIndex != (uint32_t)(n + RD - 1) % RD; k++) usleep(1000); eng->record = recordAt[w]; mc_explore(wide == 0); }
        putRay(n);
        usleep(pace);
        // do not lap the collector
        for (int k = 0; k < 4000; k++) { int lag = (n + 1 + 2 * RD - (int)eng->processedRayIndex) % RD; if (lag < RD / 3) break; usleep(1000); }
    }
    for (int k = 0; k < 4000; k++) { int left = 0; for (int i = wi; i < NW; i++) left += W[i].rec; if (left == 0) break; usleep(1000); }
    usleep(400000);
    mc_explore(false);
    mc_watch_clear();
    while (wi < NW && !W[wi].rec) wi++;
    mc_assert(wi == NW, "missing-sweep", "sweep %d (rays %d to %d) was not recorded completely (%d of %d products)", wi, W[wi].first, W[wi].first + W[wi].n - 1, pi_, nProducts);
    // what is long done with has been handed back
    bool same = NW >= 6 && wide != 2; for (int k = 1; k < NW; k++) if (W[k].n != W[0].n) same = false;
    if (same) for (int k = 0; k < W[0].n; k++) if (W[0].first + k + RD >= NR + 2) mc_assert(RKGetRayFromBuffer(rays, (W[0].first + k) % RD)->header.s == RKRayStatusVacant, "not-released", "ray %d of the first of %d sweeps was never handed back", W[0].first + k, NW);
    for (int k = 0; k < (int)eng->productBufferDepth; k++) mc_assert(!(eng->productBuffer[k].flag & RKProductStatusBusy), "product-slot", "product slot %d is still taken", k);
    mc_assert(RKSweepEngineStop(eng) == RKResultSuccess && mc_live_threads() == 0, "stop", "engine did not stop with all of its threads");
    free(rays);
    uint64_t h = NR; for (int n = 0; n < NW; n++) h = h * 31 + W[n].first * 7 + W[n].kn + 1000 * W[n].rec;
    mc_outcome(h); mc_outcome(mc_now_us() - mc_epoch_us);
}
int main(int argc, char **argv) {
    mc_config c = {.name = "c06_sweep", .setup = setup, .body = body, .fork_runs = 1, .bound = 1, .vt_limit_us = 200000000};
    return mc_main(argc, argv, &c);
}
