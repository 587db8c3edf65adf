// C02: compressed output equals direct correlation, for every filter layout in the bound.
#include "rk.h"
#define CAP 64
#define DEPTH 64
static RKRadarDesc desc; static RKFFTModule *fft; static RKConfig configs[10]; static uint32_t configIndex;
static RKBuffer pulses; static uint32_t pulseIndex;
typedef struct { int len, io, oo, mdl; RKComplex f[16]; } Flt;
static Flt F[3][4]; static int nG, nF[3];
static const int GC[] = {9, 12, 15, 16, 17, 31, 32, 33, 48, 63, 64};
#define NGC (int)(sizeof(GC) / sizeof(*GC))
#define NIN 4
static void setup(void) {
    rkQuiet();
    memset(&desc, 0, sizeof desc);
    desc.pulseCapacity = CAP; desc.pulseBufferDepth = DEPTH; desc.configBufferDepth = 10;
    fft = RKFFTModuleInit(CAP, 0);
}
static RKInt16C in(int n, int kind, int ch, int i) {
    RKInt16C v = {0, 0};
    if (kind == 0) { v.i = (int16_t)((i * 7919 + ch * 4729 + n * 31) % 4001 - 2000); v.q = (int16_t)((i * 6151 + ch * 2833 + n * 17 + 77) % 3989 - 1990); }
    else { int at = kind == 1 ? 0 : kind == 2 ? 7 + n % 5 : 3 * n % 60; if (i == at) { v.i = (int16_t)(ch ? -1000 : 2000); v.q = (int16_t)(ch ? 300 : -700); } }
    return v;
}
static void oneFilter(Flt *f, int len, int io, int oo, int mdl, int seed) {
    f->len = len; f->io = io; f->oo = oo; f->mdl = mdl;
    for (int k = 0; k < len; k++) { f->f[k].i = 0.25f * ((k * 5 + seed * 3) % 7 - 3) + 0.1f; f->f[k].q = 0.2f * ((k * 3 + seed) % 5 - 2) + 0.05f; }
}
static void body(void) {
    static const int L1[] = {1, 2, 3, 5, 8}, I1[] = {0, 1, 4}, O1[] = {0, 3}, M1[] = {CAP, 8, 5, 1};
    static const int L2[] = {1, 3}, I2[] = {0, 4}, O2[] = {0, 3, 9}, M2[] = {CAP, 6};
    int shape = mc_choose(4, "shape"), seed = 0;
    memset(F, 0, sizeof F);
    if (shape == 0) {        // one group, one filter
        nG = 1; nF[0] = 1;
        oneFilter(&F[0][0], L1[mc_choose(5, "length")], I1[mc_choose(3, "input origin")], O1[mc_choose(2, "output origin")], M1[mc_choose(4, "data length")], 1);
    } else if (shape == 1) { // one group, two filters
        nG = 1; nF[0] = 2;
        for (int j = 0; j < 2; j++) oneFilter(&F[0][j], L2[mc_choose(2, "length")], I2[mc_choose(2, "input origin")], O2[mc_choose(3, "output origin")], M2[mc_choose(2, "data length")], 2 + j);
    } else if (shape == 2) { // two groups of one, three groups of 1/2/1
        nG = 2; nF[0] = nF[1] = 1;
        for (int g = 0; g < 2; g++) { int v = mc_choose(6, "filter"); oneFilter(&F[g][0], 1 + v, v % 3, v % 2 * 2, v % 4 == 3 ? 7 : CAP, 4 + g); }
    } else {
        nG = 3; nF[0] = 1; nF[1] = 3; nF[2] = 2; int v = mc_choose(4, "filters");
        for (int g = 0; g < 3; g++) for (int j = 0; j < nF[g]; j++) oneFilter(&F[g][j], 1 + (g + j + v) % 4, (j * 2 + v) % 5, j * 4, j == 2 ? CAP : 6, seed++);
    }
    int stride = 1 + mc_choose(mc_param("strides", 3), "down-sampling");
    int dt = mc_choose(shape == 0 ? 4 : 2, "data type");     // 0 int16, 1 int16 single channel, 2 complex, 3 complex single channel
    int cores = 1 + mc_choose(2, "workers");
    desc.pulseToRayRatio = (uint16_t)stride;
    RKPulseBufferAlloc(&pulses, CAP, DEPTH);
    RKPulseEngine *eng = RKPulseEngineInit();
    RKPulseEngineSetEssentials(eng, &desc, fft, configs, &configIndex, pulses, &pulseIndex);
    RKPulseEngineSetCoreCount(eng, cores);
    for (int g = 0; g < nG; g++) for (int j = 0; j < nF[g]; j++) {
        RKFilterAnchor a = RKFilterAnchorDefault;
        a.length = F[g][j].len; a.inputOrigin = F[g][j].io; a.outputOrigin = F[g][j].oo; a.maxDataLength = F[g][j].mdl;
        mc_assert(RKPulseEngineSetGroupFilter(eng, F[g][j].f, a, g, j) == RKResultSuccess, "set-filter", "valid filter refused");
    }
    mc_explore(false);
    RKPulseEngineStart(eng);
    const int N = NGC * NIN; int done = 0; uint64_t h = 0;
    for (int n = 0; n < N; n++) {
        int gc = GC[n % NGC], kind = n / NGC;
        RKPulse *p = RKPulseEngineGetVacantPulse(eng, 0);
        p->header.gateCount = gc; p->header.configIndex = 0;
        p->header.compressorDataType = (dt & 2 ? RKCompressorOptionRKComplex : 0) | (dt & 1 ? RKCompressorOptionSingleChannel : 0);
        for (int c = 0; c < 2; c++) {
            RKInt16C *x = RKGetInt16CDataFromPulse(p, c); RKComplex *y = RKGetComplexDataFromPulse(p, c); RKIQZ z = RKGetSplitComplexDataFromPulse(p, c);
            for (int i = 0; i < CAP; i++) {
                RKInt16C v = i < gc ? in(n, kind, c, i) : (RKInt16C){31000, -31000};
                x[i] = v;
                if (dt & 2) { y[i].i = v.i; y[i].q = v.q; x[i].i = 77; } else y[i].i = y[i].q = 12345.0f;
                z.i[i] = z.q[i] = 54321.0f;
            }
        }
        p->header.s = RKPulseStatusHasIQData;
        RKPulse *q = RKPulseEngineGetProcessedPulse(eng, true);
        mc_assert(q == p, "order", "pulse %d not returned", n);
        // reference
        int g = n % nG, blind = 0; for (int j = 0; j < nF[g]; j++) blind += F[g][j].len;
        int gc2 = gc + 1 - blind;
        if (gc2 < 1) continue;
        mc_assert((int)q->header.gateCount == gc2, "gate-count", "gate count %u, expected %d (from %d gates, filters of %d in total)", q->header.gateCount, gc2, gc, blind);
        mc_assert((int)q->header.pulseWidthSampleCount == blind, "pulse-width", "pulse width %u samples, expected %d", q->header.pulseWidthSampleCount, blind);
        mc_assert((int)q->header.downSampledGateCount == (gc2 + stride - 1) / stride, "down-count", "down-sampled gate count %u, expected %d", q->header.downSampledGateCount, (gc2 + stride - 1) / stride);
        for (int c = 0; c < 2; c++) {
            double ri[CAP], rq[CAP]; int known[CAP], touched[CAP];
            for (int i = 0; i < CAP; i++) { touched[i] = 0; known[i] = 1; if (dt & 2 && i < gc) { RKInt16C v = in(n, kind, c, i); ri[i] = v.i; rq[i] = v.q; } else if (dt & 2) { ri[i] = 31000; rq[i] = -31000; } else ri[i] = rq[i] = 12345.0; }
            if (!((dt & 1) && c == 1)) for (int j = 0; j < nF[g]; j++) {
                Flt *f = &F[g][j];
                if (f->io >= gc || f->oo >= gc) continue;
                int ob = gc - f->oo < f->mdl ? gc - f->oo : f->mdl;
                for (int m = 0; m < ob; m++) {
                    int ok = f->io + m + f->len <= gc; double a = 0, b = 0;
                    if (ok) for (int k = 0; k < f->len; k++) { RKInt16C v = in(n, kind, c, f->io + m + k); a += v.i * f->f[k].i + v.q * f->f[k].q; b += v.q * f->f[k].i - v.i * f->f[k].q; }
                    ri[f->oo + m] = a; rq[f->oo + m] = b; known[f->oo + m] = ok; touched[f->oo + m] = 1;
                }
            }
            RKComplex *y = RKGetComplexDataFromPulse(q, c); RKIQZ z = RKGetSplitComplexDataFromPulse(q, c);
            int lim = stride == 1 ? CAP : (gc2 + stride - 1) / stride;
            for (int i = 0; i < lim; i++) {
                int s = i * stride; if (!known[s]) continue;
                double tol = 0.05 + 2e-6 * 4000 * 8;
                mc_assert(fabs(y[i].i - ri[s]) < tol && fabs(y[i].q - rq[s]) < tol, touched[s] ? "sample" : "outside-window", "pulse %d (%d gates, channel %d, input %d): gate %d is (%.3f, %.3f), expected (%.3f, %.3f)", n, gc, c, kind, i, y[i].i, y[i].q, ri[s], rq[s]);
                if (touched[s]) mc_assert(z.i[i] == y[i].i && z.q[i] == y[i].q, "split", "pulse %d gate %d channel %d: split copy differs from interleaved data", n, i, c);
                else mc_assert(z.i[i] == 54321.0f && z.q[i] == 54321.0f, "outside-window-split", "pulse %d gate %d channel %d: split data outside of the window changed", n, i, c);
                mc_count(1);
            }
            for (int i = 0; i < gc; i++) if (!(dt & 2)) { RKInt16C *x = RKGetInt16CDataFromPulse(q, c), v = in(n, kind, c, i); mc_assert(x[i].i == v.i && x[i].q == v.q, "raw-changed", "raw sample %d changed", i); }
            for (int i = 0; i < gc2; i++) h = h * 31 + (uint64_t)llrint(y[i].i);
        }
        done++;
    }
    RKPulseEngineStop(eng);
    mc_outcome(h); mc_outcome(done);
}
int main(int argc, char **argv) {
    mc_config c = {.name = "c02_compress", .setup = setup, .body = body, .fork_runs = 1, .bound = 0};
    return mc_main(argc, argv, &c);
}
