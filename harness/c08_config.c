// C08: configuration changes are atomic, ordered and never lost.
#include "rk.h"
static RKRadar *radar; static RKConfig *ref; static RKConfig *cfgs; static int D;
static RKWaveform W[3]; static RKWaveformCalibration cal[4]; static int userA, userB;
static char longText[4][700];
static void setup(void) {
    rkQuiet();
    radar = calloc(1, sizeof(RKRadar)); ref = calloc(10, sizeof(RKConfig));
    for (int k = 0; k < 3; k++) { W[k].count = 1; W[k].filterCounts[0] = k < 2 ? k + 1 : 0; snprintf(W[k].name, RKNameLength, "waveform-%d", k); }
    memset(W[1].name, 'n', RKNameLength - 1);
    for (int k = 0; k < 4; k++) { cal[k].count = (uint8_t[]){1, 2, 8, 0}[k]; for (int j = 0; j < 8; j++) { cal[k].ZCal[j][0] = 10.5f * k - j; cal[k].ZCal[j][1] = 100 + j; cal[k].DCal[j] = -0.5f * j; cal[k].PCal[j] = 0.25f * j * k; } }
    static const int L[] = {10, 300, 503, 600};
    for (int k = 0; k < 4; k++) for (int j = 0; j < L[k]; j++) longText[k][j] = 'a' + (j + k) % 26;
}
#define ADD(...) RKAddConfig(radar, __VA_ARGS__, RKConfigKeyNull)
enum { NOPS = 34 };
// applies change number op; m is what the configuration shall become; false: the change is to be rejected
static bool change(int op, RKConfig *m) {
    switch (op) {
        case 0: ADD(RKConfigKeySweepElevation, 3.5); m->sweepElevation = 3.5f; break;
        case 1: ADD(RKConfigKeySweepAzimuth, 271.25); m->sweepAzimuth = 271.25f; break;
        case 2: m->startMarker = RKMarkerSweepBegin | RKMarkerScanTypeRHI; if (m->waveform == NULL) return true; ADD(RKConfigKeyPositionMarker, m->startMarker); break;
        case 3: ADD(RKConfigKeyPRT, 0.0005); m->prt[0] = 0.0005f; break;
        case 4: ADD(RKConfigKeyPRF, 2000.0); m->prt[0] = (RKFloat)(1.0 / 2000.0); break;
        case 5: ADD(RKConfigKeyDualPRF, 1500.0, 1250.0); m->prt[0] = (RKFloat)(1 / 1500.0); m->prt[1] = (RKFloat)(1 / 1250.0); break;
        case 6: ADD(RKConfigKeyPulseGateCount, 12345); m->pulseGateCount = 12345; break;
        case 7: ADD(RKConfigKeyPulseGateSize, 29.5); m->pulseGateSize = 29.5f; break;
        case 8: case 9: case 10: case 11: { int k = op - 8; ADD(RKConfigKeyVCPDefinition, longText[k]); memset(m->vcpDefinition, 0, sizeof m->vcpDefinition); strncpy(m->vcpDefinition, longText[k], RKMaximumCommandLength - 8); break; }
        case 12: ADD(RKConfigKeyVCPDefinition, NULL); break;
        case 13: ADD(RKConfigKeySystemNoise, 0.5, 0.75); m->noise[0] = 0.5f; m->noise[1] = 0.75f; break;
        case 14: ADD(RKConfigKeySystemZCal, -20.0, -21.5); m->systemZCal[0] = -20; m->systemZCal[1] = -21.5f; break;
        case 15: ADD(RKConfigKeySystemDCal, 0.125); m->systemDCal = 0.125f; break;
        case 16: ADD(RKConfigKeySystemPCal, -1.5); m->systemPCal = -1.5f; break;
        case 17: ADD(RKConfigKeyWaveform, &W[0]); m->waveform = &W[0]; strcpy(m->waveformName, W[0].name); break;
        case 18: ADD(RKConfigKeyWaveform, &W[1], RKConfigKeyWaveformDecimate, &W[0]); m->waveform = &W[1]; m->waveformDecimate = &W[0]; strcpy(m->waveformName, W[1].name); break;
        case 19: ADD(RKConfigKeySNRThreshold, 9.0, RKConfigKeyWaveform, &W[2], RKConfigKeySQIThreshold, 9.0); return false;
        case 20: ADD(RKConfigKeyWaveform, NULL); return false;
        case 21: ADD(RKConfigKeyPRF, 77.0, RKConfigKeyWaveformDecimate, &W[2]); return false;
        case 22: ADD(RKConfigKeyPulseWidth, 1.5e-6); for (int k = 0; k < RKMaximumFilterCount; k++) m->pw[k] = (RKFloat)1.5e-6; break;
        case 23: ADD(RKConfigKeyWaveformName, "abc"); strcpy(m->waveformName, "abc"); break;
        case 24: case 25: case 26: case 27: { int k = op - 24; ADD(RKConfigKeyWaveformCalibration, &cal[k]); for (int j = 0; j < cal[k].count; j++) { m->ZCal[j][0] = cal[k].ZCal[j][0]; m->ZCal[j][1] = cal[k].ZCal[j][1]; m->DCal[j] = cal[k].DCal[j]; m->PCal[j] = cal[k].PCal[j]; } break; }
        case 28: { ADD(RKConfigKeyWaveformCalibration, NULL); int n = m->waveform ? m->waveform->filterCounts[0] : RKMaximumFilterCount; for (int j = 0; j < n; j++) m->ZCal[j][0] = m->ZCal[j][1] = m->DCal[j] = m->PCal[j] = 0; break; }
        case 29: ADD(RKConfigKeySNRThreshold, -2.5, RKConfigKeySQIThreshold, 0.3); m->SNRThreshold = -2.5f; m->SQIThreshold = 0.3f; break;
        case 30: ADD(RKConfigKeyRingFilterGateCount, 800, RKConfigKeyTransitionGateCount, 25); m->ringFilterGateCount = 800; m->transitionGateCount = 25; break;
        case 31: ADD(RKConfigKeyUserResource, &userA); m->userResource = (RKUserResource)&userA; break;
        case 32: RKSetPRF(radar, 800); m->prt[0] = (RKFloat)(1.0 / 800); break;
        case 33: RKConfigAdvanceEllipsis(radar->configs, &radar->configIndex, D, RKConfigKeySweepElevation, 7.5, RKConfigKeyUserResource, &userB, RKConfigKeyNull); m->sweepElevation = 7.5f; m->userResource = (RKUserResource)&userB; break;
    }
    return true;
}
static void init(void) {
    cfgs = calloc(D, sizeof(RKConfig)); memset(ref, 0, 10 * sizeof(RKConfig));
    for (int k = 0; k < D; k++) cfgs[k].i = ref[k].i = (uint64_t)k + 1000 - D;
    radar->configs = cfgs; radar->configIndex = 0; radar->desc.configBufferDepth = D;
}
static void same(RKConfig *c, RKConfig *m, const char *when) {
    mc_assert(c->i == m->i, "id", "%s: configuration number %lu, expected %lu", when, (unsigned long)c->i, (unsigned long)m->i);
    mc_assert(!strcmp(c->waveformName, m->waveformName), "waveform-name", "%s: waveform name '%s', expected '%s'", when, c->waveformName, m->waveformName);
    mc_assert(!memcmp(c->vcpDefinition, m->vcpDefinition, sizeof c->vcpDefinition), "vcp", "%s: VCP '%.20s' (%zu), expected '%.20s' (%zu)", when, c->vcpDefinition, strlen(c->vcpDefinition), m->vcpDefinition, strlen(m->vcpDefinition));
    RKConfig t; memcpy(&t, m, sizeof t); memcpy(t.waveformName, c->waveformName, sizeof t.waveformName);
    const uint8_t *a = (void *)c, *b = (void *)&t;
    for (size_t k = 0; k < sizeof t; k++) mc_assert(a[k] == b[k], "value", "%s: byte %zu of the configuration is %02x, expected %02x", when, k, a[k], b[k]);
}
static int va_, wb_;
static void *changerA(void *x) { int n = mc_param("n", 2); for (int k = 1; k <= n; k++) { if (k == n) ADD(RKConfigKeySystemDCal, 99.0, RKConfigKeyWaveform, NULL); va_ = k; ADD(RKConfigKeySNRThreshold, (double)k, RKConfigKeySweepElevation, (double)k, RKConfigKeySystemDCal, (double)k); } return NULL; }
static void *changerB(void *x) { int n = mc_param("n", 2); for (int k = 1; k <= n; k++) { wb_ = k; ADD(RKConfigKeySystemNoise, (double)k, (double)k, RKConfigKeyPRF, 1.0 / k); } return NULL; }
static uint64_t lastId;
static uint64_t check(RKConfig *p, const char *who) {
    RKConfig c; memcpy(&c, p, sizeof c); mc_yield("read");
    const int v = (int)c.SNRThreshold, w = (int)c.noise[0];
    mc_assert(c.sweepElevation == v && c.systemDCal == v && c.noise[1] == w && (w == 0 || c.prt[0] == (RKFloat)w), "torn", "%s configuration %lu is a mixture: %d %.0f %.0f / %d %.0f %.3f", who, (unsigned long)c.i, v, c.sweepElevation, c.systemDCal, w, c.noise[1], c.prt[0]);
    mc_assert(c.i == (uint64_t)(999 + v + w), "lost", "%s configuration has number %lu but holds %d + %d changes", who, (unsigned long)c.i, v, w);
    mc_assert(v <= va_ && w <= wb_, "future", "%s configuration %lu before it is made", who, (unsigned long)c.i);
    return c.i;
}
static bool over;
static void *reader(void *x) {
    uint64_t last = 0; int changes = 0;
    for (int k = 0; k < 40 && !over; k++) {
        uint64_t id = check(RKGetLatestConfig(radar), "the current");
        mc_assert(id >= last, "backwards", "the current configuration went from number %lu to %lu", (unsigned long)last, (unsigned long)id);
        changes += id != last; last = id;
        RKConfig *c = RKConfigWithId(cfgs, D, id);
        mc_assert(c, "by-id", "configuration %lu is not found by its number", (unsigned long)id);
        mc_yield("found"); mc_assert(check(c, "the looked-up") == id, "by-id", "looked up configuration %lu and got another", (unsigned long)id);
        mc_yield("reader");
        if (k > 3) usleep(100);
    }
    lastId = last;
    return NULL;
}
static void body(void) {
    const int wide = mc_param("wide", 0), depth = mc_param("depth", 2);
    if (wide) {
        D = (int[]){10, 3}[mc_choose(2, "ring")];
        init();
        uint32_t at = 0; uint64_t h = D;
        for (int d = 0; d < depth + D; d++) {
            // at first any changes, then enough of one to go around the ring
            int op = d < depth ? mc_choose(NOPS, "change") : 0;
            if (d >= depth && D == 10) break;
            RKConfig *prev = &ref[at == 0 ? D - 1 : at - 1], m; memcpy(&m, prev, sizeof m);
            if (op == 2 && m.waveform == NULL) continue;
            bool ok = change(op, &m); h = h * 131 + op;
            char when[64]; snprintf(when, sizeof when, "change %d (%d)", d, op);
            if (ok) { m.i = prev->i + 1; memcpy(&ref[at], &m, sizeof m); at = (at + 1) % D; }
            mc_assert(radar->configIndex == at, "index", "%s: configuration index %u, expected %u", when, radar->configIndex, at);
            same(RKGetLatestConfig(radar), &ref[at == 0 ? D - 1 : at - 1], when);
            for (int k = 0; k < D; k++) if (k != (int)at) same(&cfgs[k], &ref[k], "an older configuration");
            for (int k = 0; k < D - 1; k++) { RKConfig *c = &ref[(at + D - 1 - k) % D]; mc_assert(RKConfigWithId(cfgs, D, c->i) == &cfgs[c - ref], "by-id", "configuration %lu is not found by its number", (unsigned long)c->i); }
            mc_assert(RKConfigWithId(cfgs, D, 5000) == NULL, "by-id", "a configuration is found for a number that was never used");
            mc_count(1);
        }
        free(cfgs); mc_outcome(h);
        return;
    }
    D = 10; init(); va_ = wb_ = 0; over = false;
    radar->configIndex = mc_choose(2, "at") ? 8 : 0;
    for (int k = 0; k < D; k++) { cfgs[(k + radar->configIndex) % D].i = 1000 - D + k; cfgs[k].prt[0] = 0; }
    pthread_t a, b, r;
    mc_watch(&radar->configIndex, 4); mc_watch(cfgs, sizeof(RKConfig) * D);
    pthread_create(&r, NULL, reader, NULL); pthread_create(&a, NULL, changerA, NULL); pthread_create(&b, NULL, changerB, NULL);
    pthread_join(a, NULL); pthread_join(b, NULL); over = true; pthread_join(r, NULL);
    mc_watch_clear();
    mc_assert(check(RKGetLatestConfig(radar), "the last") == (uint64_t)(999 + va_ + wb_), "lost", "the last configuration is number %lu after %d changes", (unsigned long)RKGetLatestConfig(radar)->i, va_ + wb_);
    mc_outcome(lastId);
}
int main(int argc, char **argv) {
    bool wide = false; for (int k = 1; k < argc; k++) wide |= strstr(argv[k], "wide=1") != NULL;
    if (!freopen("/dev/null", "w", stdin)) {}
    mc_config c = {.name = "c08_config", .setup = setup, .body = body, .fork_runs = 1, .bound = 1};
    return mc_main(argc, argv, &c);
}
