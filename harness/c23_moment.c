// C23: moment estimates equal their defining formulas, gate by gate, and are gated by the thresholds.
// part 0: every sequence of M dual-polarisation samples over an alphabet of four, one sequence per gate
// part 1: longer rays and every gate count around the vector width
// part 2: range calibration of every filter layout
#include "rk.h"
#include <complex.h>
#include <math.h>
#include <string.h>
#include <stdlib.h>
typedef double complex Z;
enum { CAP = 4096, PMAX = 64 };
static RKMomentScratch *space; static RKBuffer pb, rb; static RKConfig config; static RKFFTModule *fft;
static Z X[2][PMAX];                                    // samples of one gate
static const RKInt16C A[4] = {{0, 0}, {37, -12}, {-20, 45}, {3, 4}};
static RKInt16C sample(int part, int n, int p, int g, int M, int chunk) {
    if (part == 0) { long v = (long)chunk * CAP + g; for (int k = 0; k < n * 2 + p; k++) v /= 4; return A[v % 4]; }
    const int a = (n * 7 + g * 13 + p * 5 + n * n * (g % 5)) % 23 - 11, b = (n * 3 + g * 11 + p * 17 + n * g) % 19 - 9, t = n * (g % 9) % 8;
    static const int c[] = {70, 50, 0, -50, -70, -50, 0, 50};
    return g % 3 == 0 ? (RKInt16C){a, b} : (RKInt16C){c[t] + a / 4, c[(t + 6) % 8] + b / 4};   // noise, or a tone with some noise
}
static void fill(int part, int M, int G, int start, int chunk, bool poison) {
    for (int n = 0; n < M; n++) {
        RKPulse *pulse = RKGetPulseFromBuffer(pb, n);
        pulse->header.i = 1000 + start + n; pulse->header.gateCount = pulse->header.downSampledGateCount = G;
        for (int p = 0; p < 2; p++) {
            RKIQZ z = RKGetSplitComplexDataFromPulse(pulse, p); RKComplex *x = RKGetComplexDataFromPulse(pulse, p);
            for (int g = 0; g < CAP; g++) {
                RKInt16C v = g < G ? sample(part, n, p, g, M, chunk) : (RKInt16C){0, 0};
                const float i = g < G ? v.i : poison ? NAN : 0, q = g < G ? v.q : poison ? NAN : 0;
                z.i[g] = x[g].i = i; z.q[g] = x[g].q = q;
                if (g >= G + 64) break;
            }
        }
    }
}
typedef struct { double S[2], SNR[2], Q[2], Z[2], V[2], W2[2], L[2], RX[2], PX[2], D, R, P; double acc[2], accC, accX[2]; bool okS[2], okW[2], okR, okL[2], okV[2], okP, okPX[2]; double sqi; } Ref;
enum { PP, HOP, ATSR, LAG0, LAG1, LAG2, LAG3, LAG4, SPEC, METHODS };
static Z acf(const Z *x, int from, int M, int lag, int step) { Z s = 0; int k = 0; for (int n = from + lag; n < M; n += step) s += x[n] * conj(x[n - lag]), k++; return s / k; }
static Z ccf(const Z *x, const Z *y, int from, int M, int step) { Z s = 0; int k = 0; for (int n = from; n < M; n += step) s += x[n] * conj(y[n]), k++; return s / k; }
static Z ccflag(const Z *x, const Z *y, int M, int lag) { Z s = 0; int k = 0; for (int n = 0; n < M; n++) if (n - lag >= 0 && n - lag < M) s += x[n] * conj(y[n - lag]), k++; return s / k; }
// least squares of ln(y) = a - b m^2
static void lsq(const double *m, const double *y, int n, double *a, double *b) {
    double sx = 0, sy = 0, sxx = 0, sxy = 0;
    for (int k = 0; k < n; k++) { const double x = m[k] * m[k], l = log(y[k]); sx += x; sy += l; sxx += x * x; sxy += x * l; }
    const double d = n * sxx - sx * sx; *b = -(n * sxy - sx * sy) / d; *a = (sy + *b * sx) / n;
}
static double wrap(double x) { return x < -M_PI ? x + 2 * M_PI : x >= M_PI ? x - 2 * M_PI : x; }
static double cal(int what, int g) { return what < 2 ? -40 + 0.01 * (g % 997) + what : what == 2 ? 0.25 * (g % 7) - 0.5 : (g % 13) * 0.5 - 3; }   // S2Z (H), S2Z (V), dcal, pcal
static Ref reference(int method, int M, int start, int g, const double *noise, double va, double wa) {
    Ref r = {0};
    const int odd = start & 1;
    if (method == PP || method == HOP || method == ATSR) {
        Z C, R1[2], C1 = 0; double R0[2];
        if (method == PP) { for (int p = 0; p < 2; p++) { R0[p] = creal(acf(X[p], 0, M, 0, 1)); R1[p] = acf(X[p], 0, M, 1, 1); } C = ccf(X[0], X[1], 0, M, 1); }
        else if (method == HOP) { for (int p = 0; p < 2; p++) { R0[p] = creal(acf(X[p], odd, M, 0, 2)); R1[p] = acf(X[p], odd, M, 1, 2); } C = ccf(X[0], X[1], odd, M, 2); }
        else {
            for (int p = 0; p < 2; p++) { R0[p] = creal(acf(X[p], (odd + p) & 1, M, 0, 2)); R1[p] = acf(X[p], (odd + p) & 1, M, 2, 2); }
            Z s = 0; int k = 0; for (int n = odd; n + 1 < M; n += 2) s += X[0][n] * conj(X[1][n + 1]), k++; C = s / k;
            s = 0; k = 0; for (int n = odd ? 1 : 2; n < M; n += 2) s += X[1][n - 1] * conj(X[0][n]), k++; C1 = s / k;
        }
        const double tiny = method == ATSR ? 1e-6 : 1e-7; if (method == ATSR) va /= 2, wa /= 2;
        for (int p = 0; p < 2; p++) {
            const double n = fmax(tiny, noise[p]), a = cabs(R1[p]);
            r.S[p] = fmax(0, R0[p] - n); r.SNR[p] = r.S[p] / n; r.Q[p] = a / R0[p]; r.okS[p] = r.S[p] > 1e-3;
            r.Z[p] = 10 * log10(r.S[p]) + cal(p, g); r.V[p] = va * carg(R1[p]); r.acc[p] = a / R0[p]; r.okV[p] = r.acc[p] > 1e-3;
            const double l = log(fmax(1, r.S[p] / a)); r.W2[p] = wa * wa * l; r.okW[p] = r.okS[p] && a > 1e-3;
        }
        r.D = r.Z[0] - r.Z[1] + cal(2, g);
        if (method == ATSR) {
            r.P = wrap(0.5 * carg(C * conj(C1)) + cal(3, g)); r.okP = cabs(C) > 1e-3 && cabs(C1) > 1e-3 && fabs(fabs(carg(C * conj(C1))) - M_PI) > 1e-3;
            r.R = 0.5 * (cabs(C) + cabs(C1)) / sqrt(R0[0] * R0[1]); r.okR = R0[0] > 0 && R0[1] > 0;
            for (int p = 0; p < 2; p++) {   // p: the polarisation that is transmitted
                const int f = (odd + p) & 1; const double x0 = creal(acf(X[!p], f, M, 0, 2)); const Z cx = ccf(X[p], X[!p], f, M, 2);
                r.L[p] = 10 * log10(x0) + cal(p, g) - r.Z[p]; r.okL[p] = x0 > 1e-3 && r.okS[p];
                r.RX[p] = cabs(cx) / sqrt(R0[p] * x0); r.PX[p] = carg(cx); r.okPX[p] = cabs(cx) > 1e-3;
            }
        } else {
            r.P = wrap(carg(C) + cal(3, g)); r.okP = cabs(C) > 1e-3;
            r.R = cabs(C) / sqrt(R0[0] * R0[1]) * sqrt((1 + 1 / r.SNR[0]) * (1 + 1 / r.SNR[1])); r.okR = r.okS[0] && r.okS[1];
        }
    } else if (method == SPEC) {
        for (int p = 0; p < 2; p++) { const double R0 = creal(acf(X[p], 0, M, 0, 1)); r.S[p] = R0 - noise[p]; r.SNR[p] = r.S[p] / noise[p]; r.Q[p] = fmin(1, r.SNR[p]); r.Z[p] = 10 * log10(r.S[p]) + cal(p, g); r.okS[p] = r.S[p] > 1e-3; }
        const Z C = ccf(X[0], X[1], 0, M, 1); const double R00 = creal(acf(X[0], 0, M, 0, 1)), R10 = creal(acf(X[1], 0, M, 0, 1));
        r.D = 10 * log10(r.S[0] / r.S[1]) + cal(2, g); r.R = cabs(C) / sqrt(R00 * R10); r.okR = r.okS[0] && r.okS[1]; r.P = wrap(carg(C) + cal(3, g)); r.okP = cabs(C) > 0.05;
    } else {
        int lag = method - LAG0; if (lag > M - 1) lag = M - 1;
        const int N = lag ? lag : (M < RKMaximumLagCount ? M : RKMaximumLagCount) - 1;      // largest lag of the cross-correlation
        double R[2][5], S0[2]; bool good = true;
        for (int p = 0; p < 2; p++) {
            for (int k = 0; k <= N; k++) R[p][k] = cabs(acf(X[p], 0, M, k, 1));
            const Z R1 = acf(X[p], 0, M, 1, 1); bool ok = true; double a, b;
            r.V[p] = va * carg(R1); r.okV[p] = R[p][1] > 1e-3;
            r.Q[p] = R[p][1] / fmax(1e-6, R[p][0]);
            if (lag < 2) { ok = R[p][0] - noise[p] > 1e-3 && R[p][1] > 1e-3; r.S[p] = R[p][0] - noise[p]; r.okS[p] = r.S[p] > 1e-3; b = log(r.S[p] / R[p][1]); S0[p] = R[p][0]; }
            else {
                for (int k = 1; k <= lag; k++) if (R[p][k] < 1e-3) ok = false;
                lsq((double[]){1, 2, 3, 4}, &R[p][1], lag, &a, &b); r.S[p] = S0[p] = exp(a); r.okS[p] = ok && r.S[p] > 1e-3 && r.S[p] < 1e7;
            }
            r.SNR[p] = r.S[p] / noise[p]; r.Z[p] = 10 * log10(r.S[p]) + cal(p, g); r.W2[p] = b > 0 ? wa * wa * b : 0; r.okW[p] = ok;
            if (S0[p] < 1e-3 || !ok) good = false;
        }
        r.D = 10 * log10(r.S[0] / r.S[1]) + cal(2, g);
        double m[9], c[9], a, b; int k = 0;
        for (int l = -N; l <= N; l++, k++) { m[k] = l; c[k] = cabs(ccflag(X[0], X[1], M, l)); if (c[k] < 1e-3) good = false; }
        lsq(m, c, 2 * N + 1, &a, &b); r.R = exp(a) / sqrt(S0[0] * S0[1]); r.okR = good && r.okS[0] && r.okS[1];
        const Z C = ccf(X[0], X[1], 0, M, 1); r.P = wrap(carg(C) + cal(3, g)); r.okP = cabs(C) > 1e-3;
    }
    return r;
}
static bool near(double x, double y, double rel, double abs) { return fabs(x - y) <= rel * fabs(y) + abs; }
#define EQ(cond, what, x, y, rel, abs) do { if (cond) mc_assert(near(x, y, rel, abs), what, "%s gate %d of %d, %d pulses, method %d, start %d: %.6f, expected %.6f", what, g, G, M, method, start, (double)(x), (double)(y)); } while (0)
static bool ang(double x, double y, double tol) { double d = fabs(x - y); return d <= tol || fabs(d - 2 * M_PI) <= tol; }
static void moments(int part) {
    const int method = mc_choose(METHODS, "method"), start = mc_choose(2, "start"), level = mc_choose(part == 0 ? 3 : 2, "thresholds");
    const int M = part == 0 ? mc_param("pulses", 4) : 4 + mc_choose(mc_param("rays", 24), "pulses");
    long total = 1; if (part == 0) for (int k = 0; k < 2 * M; k++) total *= 4;
    const int chunk = part == 0 ? mc_choose(total / CAP, "chunk") : 0;
    static const int counts[] = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 257, 1000, 4000, 4095};
    const int G = part == 0 ? CAP : counts[mc_choose(22, "gates")];
    static const double NOISE[3][2] = {{1, 1.5}, {300, 80}, {0.01, 0.02}}; static const double SNRT[3] = {0, 3, -20}, SQIT[3] = {0, 0.35, 0.9};
    const double va = 7.5, wa = 11.25, *noise = NOISE[level];
    RKPulse *pulses[PMAX]; for (int n = 0; n < PMAX; n++) pulses[n] = n < M ? RKGetPulseFromBuffer(pb, n) : NULL;
    int (*run[])(RKMomentScratch *, RKPulse **, const uint16_t) = {RKPulsePair, RKPulsePairHop, RKPulsePairATSR, RKMultiLag, RKMultiLag, RKMultiLag, RKMultiLag, RKMultiLag, RKSpectralMoment};
    memset(&config, 0, sizeof config); config.SNRThreshold = SNRT[level]; config.SQIThreshold = SQIT[level];
    space->config = &config; space->noise[0] = noise[0]; space->noise[1] = noise[1]; space->velocityFactor = va; space->widthFactor = wa; space->KDPFactor = 2; space->userLagChoice = method >= LAG0 && method <= LAG4 ? method - LAG0 : 3; space->fftModule = fft; space->verbose = 0;
    for (int g = 0; g < CAP; g++) { space->S2Z[0][g] = cal(0, g); space->S2Z[1][g] = cal(1, g); space->dcal[g] = cal(2, g); space->pcal[g] = cal(3, g); }
    if (part) {   // something else has been there before
        fill(1, 6, G + 29 < CAP ? G + 29 : CAP, !start, 0, false); space->gateCount = G + 29 < CAP ? G + 29 : CAP; RKPulse *q[6]; for (int n = 0; n < 6; n++) q[n] = RKGetPulseFromBuffer(pb, n);
        prepareScratch(space); run[method](space, q, 6);
    }
    fill(part, M, G, start, chunk, true);
    space->gateCount = G;
    prepareScratch(space);
    const int k = run[method](space, pulses, M);
    mc_assert(k == M, "count", "%d pulses processed, %d given", k, M);
    RKRay *ray = RKGetRayFromBuffer(rb, 1); RKClearRayBuffer(rb, 3); ray->header.gateCount = 7;
    makeRayFromScratch(space, ray);
    mc_assert(ray->header.gateCount == G, "gates", "%d gates in the ray of %d", ray->header.gateCount, G);
    for (int j = 0; j < 3; j += 2) { RKRay *o = RKGetRayFromBuffer(rb, j); for (int i = 0; i < RKBaseProductCount; i++) { float *f = RKGetFloatDataFromRay(o, i); for (int g = 0; g < CAP; g += 61) mc_assert(f[g] == 0, "beyond", "other rays are written to"); } }
    int nextKeep[2] = {1, 1}; uint64_t h = 0;
    for (int g = G - 1; g >= 0; g--) {
        for (int n = 0; n < M; n++) for (int p = 0; p < 2; p++) { RKInt16C v = sample(part, n, p, g, M, chunk); X[p][n] = v.i + I * v.q; }
        const Ref r = reference(method, M, start, g, noise, va, wa);
        for (int p = 0; p < 2; p++) {
            EQ(r.okS[p], "power", space->S[p][g], r.S[p], 2e-5, 1e-3);
            EQ(r.okS[p] && r.Q[p] > 1e-3, "quality", space->Q[p][g], r.Q[p], 1e-3, 1e-5);
            EQ(r.okS[p], "reflectivity", space->Z[p][g], r.Z[p], 0, 2e-3 + (r.S[p] < 1 ? 1e-2 : 0));
            if (r.okV[p] && r.okS[p]) { mc_assert(ang(space->V[p][g] / (method == ATSR ? va / 2 : va), r.V[p] / (method == ATSR ? va / 2 : va), 1e-3), "velocity", "gate %d of %d, %d pulses, method %d: %f, expected %f", g, G, M, method, space->V[p][g], r.V[p]); }
            if (r.okW[p] && r.okS[p]) { EQ(true, "width", space->W[p][g] * space->W[p][g], r.W2[p], 1e-3, 0.05); mc_assert(space->W[p][g] >= 0, "range", "width %f", space->W[p][g]); }
        }
        EQ(r.okS[0] && r.okS[1], "ZDR", space->ZDR[g], r.D, 0, 2e-2);
        EQ(r.okR, "rho", space->RhoHV[g], r.R, 5e-3, 1e-3);
        if (r.okP && r.okS[0] && r.okS[1]) mc_assert(ang(space->PhiDP[g], r.P, 2e-3), "phi", "PhiDP of gate %d of %d, %d pulses, method %d start %d: %f, expected %f", g, G, M, method, start, space->PhiDP[g], r.P);
        if (method == ATSR) for (int p = 0; p < 2; p++) {
            EQ(r.okL[p], "LDR", space->L[p][g], r.L[p], 0, 2e-2);
            EQ(r.okL[p], "rhox", space->RhoXP[p][g], r.RX[p], 5e-3, 1e-3);
            if (r.okL[p] && r.okPX[p]) mc_assert(ang(space->PhiXP[p][g], r.PX[p], 2e-3), "phix", "gate %d: %f, expected %f", g, space->PhiXP[p][g], r.PX[p]);
        }
        // thresholds, with the next gate deciding about specks: 1 keep, 0 censor, -1 too close to tell
        int keep[2];
        for (int p = 0; p < 2; p++) {
            const double snr = r.S[p] / noise[p], t = pow(10, 0.1 * SNRT[level]); int own;
            bool defined = r.okS[p] || method <= ATSR || method == SPEC || (method < LAG2);
            if (!defined) own = -1;
            else if (!(snr > t * (1 - 1e-3)) || !(r.Q[p] > SQIT[level] - 1e-3)) own = 0;
            else if (snr > t * (1 + 1e-3) && r.Q[p] > SQIT[level] + 1e-3) own = 1;
            else own = -1;
            keep[p] = g == G - 1 ? own : own == 0 || nextKeep[p] == 0 ? 0 : own == 1 && nextKeep[p] == 1 ? 1 : -1;
            nextKeep[p] = own;
        }
        static const int one[2][3] = {{RKBaseProductIndexZ, RKBaseProductIndexV, RKBaseProductIndexW}, {RKBaseProductIndexZv, RKBaseProductIndexVv, RKBaseProductIndexWv}};
        static const int both[] = {RKBaseProductIndexD, RKBaseProductIndexP, RKBaseProductIndexR, RKBaseProductIndexK, RKBaseProductIndexLh, RKBaseProductIndexLv, RKBaseProductIndexRXh, RKBaseProductIndexRXv, RKBaseProductIndexPXh, RKBaseProductIndexPXv};
        for (int p = 0; p < 2; p++) for (int i = 0; i < 3; i++) {
            const float v = RKGetFloatDataFromRay(ray, one[p][i])[g], w = (i == 0 ? space->Z : i == 1 ? space->V : space->W)[p][g];
            if (keep[p] == 1) mc_assert(v == w || method == SPEC || (isnan(w) && isnan(v)), "kept", "product %d of channel %d at gate %d of %d, method %d: %f in the ray, %f estimated, SNR %f SQI %f", i, p, g, G, method, v, w, r.S[p] / noise[p], r.Q[p]);
            if (keep[p] == 1 && method != SPEC) { mc_assert(i == 2 && !r.okW[p] ? true : isfinite(v), "finite", "product %d of channel %d at gate %d is %f, method %d", i, p, g, v, method); if (i == 1) mc_assert(fabs(v) <= va * M_PI * 1.000001 / (method == ATSR ? 2 : 1), "range", "velocity %f", v); }
            if (keep[p] == 0) mc_assert(isnan(v), "censored", "product %d of channel %d at gate %d of %d, method %d: %f in the ray, but SNR %f and SQI %f", i, p, g, G, method, v, r.S[p] / noise[p], r.Q[p]);
        }
        const int k2 = keep[0] == 0 || keep[1] == 0 ? 0 : keep[0] == 1 && keep[1] == 1;
        for (int i = 0; i < 10; i++) {
            const float v = RKGetFloatDataFromRay(ray, both[i])[g], w = i == 0 ? space->ZDR[g] : i == 1 ? space->PhiDP[g] : i == 2 ? space->RhoHV[g] : i == 3 ? space->KDP[g] : (i < 6 ? space->L : i < 8 ? space->RhoXP : space->PhiXP)[i & 1][g];
            if (keep[0] == 0 || keep[1] == 0) mc_assert(isnan(v), "censored", "product %d at gate %d of %d is %f", i, g, G, v);
            else if (k2 == 1) { mc_assert(v == w || (isnan(v) && isnan(w)), "kept", "product %d at gate %d is %f, not %f", i, g, v, w); if (i < 2) mc_assert(isfinite(v), "finite", "product %d at gate %d of %d, method %d, is %f", i, g, G, method, v); if (i == 1) mc_assert(v >= -M_PI - 1e-6 && v < M_PI + 1e-6, "range", "phase %f at gate %d, method %d", v, g, method); if (i == 2 && r.okR) mc_assert(v >= 0, "range", "correlation %f", v); }
        }
        h = h * 31 + keep[0] * 3 + keep[1];
    }
    for (int i = 0; i < RKBaseProductCount; i++) { const float *f = RKGetFloatDataFromRay(ray, i); for (int g = G; g < CAP && g < G + 200; g++) mc_assert(f[g] == 0, "beyond", "product %d beyond %d gates is %f at %d", i, G, f[g], g); }
    // 16-bit moments of the absolute values
    for (int p = 0; p < 2 && method >= LAG0 && method <= LAG4; p++) for (int l = 2; l <= (method == LAG0 ? (M < 5 ? M : 5) - 1 : method - LAG0 < M ? method - LAG0 : M - 1); l++) {
        const int16_t *o = RKGetInt16DataFromRay(ray, (p ? RKMomentIndexVR2 : RKMomentIndexHR2) + l - 2);
        for (int g = 0; g < G; g++) if (space->aR[p][l][g] > 1e-3) mc_assert(abs(o[g] - (int)(1000 * log2f(space->aR[p][l][g]))) <= 1, "moment", "lag %d of channel %d at gate %d is %d", l, p, g, o[g]);
    }
    mc_count((uint64_t)G);
    mc_outcome(h + method * 7919 + M);
}
static void calibration(void) {
    const int F = 1 + mc_choose(3, "filters"), count = 1 + mc_choose(2, "groups"), G = mc_choose(10, "gates"); RKWaveform w; memset(&w, 0, sizeof w);
    memset(&config, 0, sizeof config); config.waveform = config.waveformDecimate = &w; space->config = &config;
    w.count = count; for (int j = 0; j < count; j++) w.filterCounts[j] = F;
    for (int k = 0; k < F; k++) {
        static const int at[] = {0, 2, 5};
        for (int j = 0; j < count; j++) { RKFilterAnchor *a = &w.filterAnchors[j][k]; *a = (RKFilterAnchor){.name = k}; }
        RKFilterAnchor *a = &w.filterAnchors[0][k]; a->inputOrigin = at[mc_choose(3, "in")]; a->outputOrigin = at[mc_choose(3, "out")]; a->maxDataLength = 1 + 3 * mc_choose(3, "length"); a->sensitivityGain = 1.5 * k + 0.25;
        for (int j = 1; j < count; j++) w.filterAnchors[j][k] = *a;
        config.ZCal[k][0] = 10 + k; config.ZCal[k][1] = 20 - 3 * k; config.DCal[k] = 0.5 * k + 1; config.PCal[k] = k - 1.5;
    }
    config.systemZCal[0] = -30; config.systemZCal[1] = -31; config.systemDCal = 0.125; config.systemPCal = 2.5;
    space->gateCount = G; space->gateSizeMeters = 30; space->samplingAdjustment = 3.25;
    for (int g = 0; g < 32; g++) space->S2Z[0][g] = space->S2Z[1][g] = space->dcal[g] = space->pcal[g] = 999;
    RKCalibratorSimple(NULL, space);
    for (int g = 0; g < 32; g++) {
        int k = -1; for (int j = 0; j < F; j++) if (g >= (int)w.filterAnchors[0][j].outputOrigin && g < (int)(w.filterAnchors[0][j].outputOrigin + w.filterAnchors[0][j].maxDataLength)) k = j;
        if (g >= G) { mc_assert(space->S2Z[0][g] == 999 && space->dcal[g] == 999, "beyond", "gate %d of %d is calibrated", g, G); continue; }
        if (k < 0) continue;
        for (int p = 0; p < 2 && g; p++) mc_assert(near(space->S2Z[p][g], 20 * log10(30. * g) + config.systemZCal[p] + config.ZCal[k][p] - w.filterAnchors[0][k].sensitivityGain - 3.25, 0, 1e-3), "cal", "gate %d channel %d comes from filter %d of %d, but its factor is %f", g, p, k, F, space->S2Z[p][g]);
        mc_assert(near(space->dcal[g], 0.125 + config.DCal[k], 0, 1e-4) && ang(space->pcal[g], wrap(2.5 + config.PCal[k]), 1e-4), "cal", "gate %d comes from filter %d, but its offsets are %f %f", g, k, space->dcal[g], space->pcal[g]);
    }
    mc_outcome(F * 100 + G);
}
static void body(void) { const int part = mc_param("part", 0); part == 2 ? calibration() : moments(part); }
static void setup(void) {
    rkQuiet(); if (!mc_replaying() && !freopen("/dev/null", "w", stderr)) {}
    RKPulseBufferAlloc(&pb, CAP, PMAX); RKRayBufferAlloc(&rb, CAP, 3); fft = RKFFTModuleInit(64, 0);
    RKMomentScratchAlloc(&space, CAP, 0, "c23");
}
int main(int argc, char **argv) {
    mc_config c = {.name = "c23_moment", .setup = setup, .body = body, .bound = 0, .shard_depth = 3, .run_seconds = 60};
    return mc_main(argc, argv, &c);
}
