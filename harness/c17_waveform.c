// C17: waveforms survive writing, reading and transformation unchanged in meaning.
// part 0: generators over parameter grids       part 1: every sequence of operations on small waveforms against a model
// part 2: every truncation and every single-byte (and chosen 32-bit) corruption of small files       part 3: names and paths
#include "rk.h"
#include <math.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/stat.h>
enum { MAXN = 2048 };
static bool near(double x, double y, double rel, double abs) { return fabs(x - y) <= rel * fabs(y) + abs; }
static void inside(const RKWaveform *w) {
    mc_assert(w->count >= 1 && w->count <= RKMaximumWaveformCount, "groups", "count %d", w->count);
    mc_assert(memchr(w->name, 0, RKNameLength), "name", "not terminated");
    for (int k = 0; k < w->count; k++) {
        mc_assert(w->filterCounts[k] <= RKMaximumFilterCount, "filters", "group %d has %d filters", k, w->filterCounts[k]);
        for (int j = 0; j < w->filterCounts[k]; j++) {
            const RKFilterAnchor *a = &w->filterAnchors[k][j];
            mc_assert((uint64_t)a->origin + a->length <= w->depth, "inside", "filter %d of group %d: %u + %u > %u", j, k, a->origin, a->length, w->depth);
        }
    }
}
static void gains(const RKWaveform *w, int k, int j, bool full) {
    const RKFilterAnchor *a = &w->filterAnchors[k][j]; double g = 0, h = 0, f = 0;
    for (uint32_t n = a->origin; n < a->origin + a->length; n++) {
        const RKComplex x = w->samples[k][n]; const double e = (double)x.i * x.i + (w->type & RKWaveformTypeIsComplex ? (double)x.q * x.q : 0);
        g += e; h = fmax(h, e); f = fmax(f, w->type & RKWaveformTypeIsComplex ? sqrt(e) : fabs(x.i));
    }
    if (!(w->type & RKWaveformTypeIsComplex)) g *= 2;
    if (g == 0) return;
    mc_assert(near(a->filterGain, 10 * log10(g), 0, 1e-3), "gain", "filter %d of group %d: noise gain %.4f dB, samples have %.4f dB", j, k, a->filterGain, 10 * log10(g));
    if (!full) return;
    mc_assert(near(a->sensitivityGain, 10 * log10(g / (h * 1e-6 * w->fs)), 0, 1e-3), "sensitivity", "filter %d of group %d: %.4f dB, expected %.4f dB", j, k, a->sensitivityGain, 10 * log10(g / (h * 1e-6 * w->fs)));
    mc_assert(near(a->fullScale, RKWaveformDigitalAmplitude / f, 1e-4, 0), "scale", "filter %d of group %d: %.4f, expected %.4f", j, k, a->fullScale, RKWaveformDigitalAmplitude / f);
}
// phase advance between two samples, modulo a turn
static double turn(RKComplex a, RKComplex b) { return atan2((double)b.q * a.i - (double)b.i * a.q, (double)b.i * a.i + (double)b.q * a.q); }
static double mod(double x) { x = fmod(x, 2 * M_PI); return x > M_PI ? x - 2 * M_PI : x < -M_PI ? x + 2 * M_PI : x; }
static void sweep(const RKWaveform *w, int k, uint32_t from, uint32_t n, double f0, double f1, const char *what) {
    for (uint32_t i = 0; i < n; i++) {
        const RKComplex x = w->samples[k][from + i]; const RKInt16C v = w->iSamples[k][from + i];
        mc_assert(near(x.i * x.i + x.q * x.q, 1.0 / n, 1e-4, 0), "modulus", "%s: sample %u of group %d has energy %g, expected %g", what, i, k, x.i * x.i + x.q * x.q, 1.0 / n);
        mc_assert(fabs(v.i - x.i * sqrt(n) * RKWaveformDigitalAmplitude) < 2.5 && fabs(v.q - x.q * sqrt(n) * RKWaveformDigitalAmplitude) < 2.5, "digital", "%s: sample %u of group %d is %d %d, expected %.1f %.1f", what, i, k, v.i, v.q, x.i * sqrt(n) * RKWaveformDigitalAmplitude, x.q * sqrt(n) * RKWaveformDigitalAmplitude);
        if (i) {
            const double f = f0 + (f1 - f0) * (i - 0.5) / n, d = turn(w->samples[k][from + i - 1], x);
            mc_assert(fabs(mod(d - 2 * M_PI * f / w->fs)) < 2e-3, "frequency", "%s: sample %u of group %d advances by %.5f, expected %.5f", what, i, k, d, mod(2 * M_PI * f / w->fs));
        }
    }
    mc_count(n);
}
static void generators(void) {
    const int what = mc_choose(9, "generator");
    static const double FS[] = {1e6, 5e6, 25e6, 160e6};
    const double fs = FS[mc_choose(4, "fs")], fc = fs * (mc_choose(5, "fc") - 2) / 10;
    const int n = 1 + mc_choose(mc_param("depths", 40), "depth"); const double pw = n / fs * (1 + 0.3 / n * (mc_choose(3, "rounding") - 1));
    RKWaveform *w = NULL;
    if (what == 0) {
        w = RKWaveformInitAsImpulse(); inside(w); mc_assert(w->count == 1 && w->depth == 1 && w->filterCounts[0] == 1 && w->filterAnchors[0][0].length == 1 && w->samples[0][0].i == 1 && w->samples[0][0].q == 0, "impulse", "depth %u", w->depth);
    } else if (what == 1) {
        w = RKWaveformInitAsSingleTone(fs, fc, pw); inside(w);
        mc_assert(w->count == 1 && w->depth == (uint32_t)n && w->fs == fs && w->fc == fc && w->filterCounts[0] == 1 && w->filterAnchors[0][0].origin == 0 && w->filterAnchors[0][0].length == (uint32_t)n, "tone", "depth %u, expected %d", w->depth, n);
        sweep(w, 0, 0, n, fc, fc, "tone"); gains(w, 0, 0, true);
        mc_assert(fabs(mod(w->filterAnchors[0][0].subCarrierFrequency - 2 * M_PI * fc / fs)) < 1e-5, "carrier", "%f", w->filterAnchors[0][0].subCarrierFrequency);
    } else if (what == 2) {
        const double bw = fs * (1 + mc_choose(5, "bw")) / 12; if (fc + bw > fs / 2) mc_skip();
        w = RKWaveformInitAsLinearFrequencyModulation(fs, fc, pw, bw); inside(w);
        mc_assert(w->count == 1 && w->depth == (uint32_t)n && w->fs == fs && w->fc == fc && w->filterCounts[0] == 1 && w->filterAnchors[0][0].origin == 0 && w->filterAnchors[0][0].length == (uint32_t)n, "chirp", "depth %u, expected %d", w->depth, n);
        sweep(w, 0, 0, n, fc, fc + bw, "chirp"); gains(w, 0, 0, true);
    } else if (what == 3 || what == 4) {
        const int hops = 1 + mc_choose(14, "hops"); const double bw = fs * mc_choose(4, "bw") / 10; if (what == 4 && bw == 0) mc_skip();
        w = what == 3 ? RKWaveformInitAsFrequencyHops(fs, fc, pw, bw, hops) : RKWaveformInitAsFrequencyHoppingChirp(fs, fc, bw, pw, hops); inside(w);
        const int count = hops == 1 ? 1 : hops > RKMaximumWaveformCount / 2 ? RKMaximumWaveformCount : 2 * hops, distinct = count == 1 ? 1 : count / 2;
        mc_assert(w->count == count && w->depth == (uint32_t)n && w->fs == fs && w->fc == fc, "hops", "%d hops: %d groups of %u, expected %d of %d", hops, w->count, w->depth, count, n);
        double lo[RKMaximumWaveformCount] = {0}; int seen[RKMaximumWaveformCount] = {0};
        for (int k = 0; k < count; k++) {
            const RKFilterAnchor *a = &w->filterAnchors[k][0];
            mc_assert(w->filterCounts[k] == 1 && a->origin == 0 && a->length == (uint32_t)n && a->name < (uint32_t)distinct, "hops", "group %d has %d filters of %u, named %u", k, w->filterCounts[k], a->length, a->name);
            seen[a->name]++; gains(w, k, 0, true);
            const double f = distinct == 1 ? fc - bw / 2 : bw / (distinct - 1) * a->name - bw / 2 + fc;
            if (what == 3 && (distinct > 1 || bw == 0)) { sweep(w, k, 0, n, f, f, "hop"); mc_assert(near(a->subCarrierFrequency, 2 * M_PI * f / fs, 1e-5, 1e-5), "carrier", "%f", a->subCarrierFrequency); }
            if (what == 4) { lo[a->name] = a->lowerBoundFrequency; mc_assert(near(a->upperBoundFrequency - a->lowerBoundFrequency, bw / distinct, 1e-4, 30), "band", "group %d: %f to %f, expected a width of %f", k, a->lowerBoundFrequency, a->upperBoundFrequency, bw / distinct); sweep(w, k, 0, n, a->lowerBoundFrequency, a->upperBoundFrequency, "hop"); }
            if (k & 1) mc_assert(a->name == w->filterAnchors[k - 1][0].name && !memcmp(w->samples[k], w->samples[k - 1], n * sizeof(RKComplex)) && !memcmp(w->iSamples[k], w->iSamples[k - 1], n * sizeof(RKInt16C)), "pair", "groups %d and %d differ", k - 1, k);
        }
        for (int k = 0; k < distinct; k++) mc_assert(seen[k] == (count == 1 ? 1 : 2), "hops", "%d hops: hop %d appears %d times", hops, k, seen[k]);
        if (what == 4) for (int k = 1; k < distinct; k++) mc_assert(near(lo[k] - lo[k - 1], bw / distinct, 1e-3, 30), "band", "hop %d starts at %f, hop %d at %f", k - 1, lo[k - 1], k, lo[k]);
        if (what == 4 && distinct % 2) mc_assert(near(lo[0], fc - bw / 2, 1e-4, 30), "band", "first hop starts at %f, expected %f", lo[0], fc - bw / 2);
    } else if (what == 5) {
        w = RKWaveformInitAsFakeTimeFrequencyMultiplexing(); inside(w); mc_assert(w->count == 1 && w->filterCounts[0] == 2 && w->depth == 4400 && w->filterAnchors[0][1].origin == w->filterAnchors[0][0].length, "fake", "depth %u", w->depth);
        for (int j = 0; j < 2; j++) { gains(w, 0, j, true); mc_assert(near(w->filterAnchors[0][j].filterGain, 0, 0, 1e-3), "unit", "%f dB", w->filterAnchors[0][j].filterGain); }
    } else if (what == 6) {
        const double bw = fs * (1 + mc_choose(3, "bw")) / 10; const int m = round(2e-6 * fs); if (n < 4) mc_skip();
        w = RKWaveformInitAsTimeFrequencyMultiplexing(fs, fc, bw, pw); inside(w);
        const RKFilterAnchor *a = w->filterAnchors[0];
        mc_assert(w->count == 1 && w->depth == (uint32_t)(n + m) && w->fc == fc && w->fs == fs && w->filterCounts[0] == 2 && a[0].origin == 0 && a[0].length == (uint32_t)n && a[1].origin == (uint32_t)n && a[1].length == (uint32_t)m, "tfm", "depth %u, filters %u + %u, %u + %u; expected %d and %d samples", w->depth, a[0].origin, a[0].length, a[1].origin, a[1].length, n, m);
        mc_assert(a[1].inputOrigin == (uint32_t)n && a[1].outputOrigin == 0 && a[1].maxDataLength == a[0].outputOrigin && a[0].outputOrigin == a[0].inputOrigin, "tfm", "input %u %u, output %u %u, length %u", a[0].inputOrigin, a[1].inputOrigin, a[0].outputOrigin, a[1].outputOrigin, a[1].maxDataLength);
        for (int j = 0; j < 2; j++) { double g = 0; for (uint32_t i = 0; i < a[j].length; i++) { const RKComplex x = w->samples[0][a[j].origin + i]; g += x.i * x.i + x.q * x.q; } mc_assert(near(g, 1, 1e-3, 0), "unit", "filter %d of %d samples: energy %f", j, (int)a[j].length, g); }
    } else if (what == 7) {   // arrays, also more of them than there are groups
        static const int counts[] = {1, 2, 3, 21, 22, 23, 24, 40, 255}; const int count = counts[mc_choose(9, "arrays")], m = count < RKMaximumWaveformCount ? count : RKMaximumWaveformCount;
        RKComplex x[255][40]; const RKComplex *p[255];
        for (int k = 0; k < count; k++) { p[k] = x[k]; for (int i = 0; i < 40; i++) x[k][i] = (RKComplex){(k * 37 + i * 11) % 201 - 100, (k * 5 + i * 17) % 301 - 150.5}; }
        const uint32_t d = n > 40 ? 40 : n;
        w = RKWaveformInitFromSampleArrays(p, count, d, mc_choose(2, "name") ? "arrays" : NULL); inside(w);
        mc_assert(w->count == m && w->depth == d, "arrays", "%d groups of %u, expected %d of %u", w->count, w->depth, m, d);
        for (int k = 0; k < m; k++) {
            mc_assert(w->filterCounts[k] == 1 && w->filterAnchors[k][0].origin == 0 && w->filterAnchors[k][0].length == d, "arrays", "group %d", k); gains(w, k, 0, true);
            mc_assert(!memcmp(w->samples[k], x[k], d * sizeof(RKComplex)), "arrays", "samples of group %d", k);
            for (uint32_t i = 0; i < d; i++) mc_assert(w->iSamples[k][i].i == (int16_t)x[k][i].i && w->iSamples[k][i].q == (int16_t)x[k][i].q, "arrays", "integer samples of group %d", k);
        }
    } else {   // windows keep the energy of a constant-modulus waveform, are symmetric and do not amplify the digital samples
        static const RKWindowType T[] = {RKWindowTypeBoxCar, RKWindowTypeHann, RKWindowTypeHamming, RKWindowTypeKaiser, RKWindowTypeTukey, RKWindowTypeTukey}; static const double P[] = {0, 0, 0, 3.5, 0.05, 0.5};
        const int t = mc_choose(6, "window"); if (n < 3) mc_skip();
        w = RKWaveformInitAsSingleTone(fs, fc, pw); RKWaveform *c = RKWaveformCopy(w);
        RKWaveformApplyWindow(w, T[t], P[t], 0.0); inside(w); double g = 0;
        for (int i = 0; i < n; i++) {
            const RKComplex x = w->samples[0][i], y = w->samples[0][n - 1 - i]; const double e = x.i * x.i + x.q * x.q; g += e;
            mc_assert(near(e, y.i * y.i + y.q * y.q, 1e-3, 1e-6), "window", "type %d, %d samples: not symmetric at %d: %g %g", t, n, i, e, y.i * y.i + y.q * y.q);
            mc_assert(fabs(turn(c->samples[0][i], x)) < 1e-3 || e < 1e-12, "window", "type %d: the phase of sample %d is changed", t, i);
            mc_assert(abs(w->iSamples[0][i].i) <= abs(c->iSamples[0][i].i) && abs(w->iSamples[0][i].q) <= abs(c->iSamples[0][i].q), "window", "type %d: digital sample %d is amplified", t, i);
        }
        mc_assert(near(g, 1, 1e-3, 0), "window", "type %d, %d samples: energy %f", t, n, g);
        RKWaveformFree(c);
    }
    RKWaveformFree(w); mc_count(1);
}

// the model of a waveform: everything that a user can see
typedef struct { RKName name; RKWaveformType type; int count; uint32_t depth; double fc, fs; int filters[RKMaximumWaveformCount]; RKFilterAnchor a[RKMaximumWaveformCount][RKMaximumFilterCount]; double x[RKMaximumWaveformCount][256][2]; RKInt16C v[RKMaximumWaveformCount][256]; } Model;
static Model M, N;
static void take(Model *m, const RKWaveform *w) {
    memset(m, 0, sizeof *m); strcpy(m->name, w->name); m->type = w->type; m->count = w->count; m->depth = w->depth; m->fc = w->fc; m->fs = w->fs;
    for (int k = 0; k < w->count; k++) {
        m->filters[k] = w->filterCounts[k]; memcpy(m->a[k], w->filterAnchors[k], sizeof m->a[k]);
        for (uint32_t i = 0; i < w->depth; i++) m->x[k][i][0] = w->samples[k][i].i, m->x[k][i][1] = w->samples[k][i].q, m->v[k][i] = w->iSamples[k][i];
    }
}
enum { DIGITAL = 1 };
static void same(const RKWaveform *w, const Model *m, const char *op, int flags) {
    inside(w);
    mc_assert(w->count == m->count && w->depth == m->depth, "shape", "%s: %d groups of %u, expected %d of %u", op, w->count, w->depth, m->count, m->depth);
    mc_assert(w->fc == m->fc && near(w->fs, m->fs, 1e-12, 0), "frequency", "%s: fc %f fs %f, expected %f %f", op, w->fc, w->fs, m->fc, m->fs);
    mc_assert(w->type == m->type, "type", "%s: %x, expected %x", op, w->type, m->type);
    mc_assert(!strcmp(w->name, m->name), "name", "%s: '%s', expected '%s'", op, w->name, m->name);
    for (int k = 0; k < m->count; k++) {
        mc_assert(w->filterCounts[k] == m->filters[k], "filters", "%s: group %d has %d filters, expected %d", op, k, w->filterCounts[k], m->filters[k]);
        for (uint32_t i = 0; i < m->depth; i++) {
            mc_assert(near(w->samples[k][i].i, m->x[k][i][0], 1e-5, 1e-5) && near(w->samples[k][i].q, m->x[k][i][1], 1e-5, 1e-5), "samples", "%s: sample %u of group %d is %g %g, expected %g %g", op, i, k, w->samples[k][i].i, w->samples[k][i].q, m->x[k][i][0], m->x[k][i][1]);
            if (flags & DIGITAL) mc_assert(w->iSamples[k][i].i == m->v[k][i].i && w->iSamples[k][i].q == m->v[k][i].q, "digital", "%s: sample %u of group %d is %d %d, expected %d %d", op, i, k, w->iSamples[k][i].i, w->iSamples[k][i].q, m->v[k][i].i, m->v[k][i].q);
        }
        for (int j = 0; j < m->filters[k]; j++) {
            const RKFilterAnchor *x = &w->filterAnchors[k][j], *y = &m->a[k][j];
            mc_assert(x->name == y->name && x->origin == y->origin && x->length == y->length && x->inputOrigin == y->inputOrigin && x->outputOrigin == y->outputOrigin && x->maxDataLength == y->maxDataLength, "anchor",
                "%s: filter %d of group %d: name %u origin %u length %u input %u output %u data %u, expected %u %u %u %u %u %u", op, j, k, x->name, x->origin, x->length, x->inputOrigin, x->outputOrigin, x->maxDataLength, y->name, y->origin, y->length, y->inputOrigin, y->outputOrigin, y->maxDataLength);
            mc_assert(near(x->subCarrierFrequency, y->subCarrierFrequency, 1e-5, 1e-6) && x->lowerBoundFrequency == y->lowerBoundFrequency && x->upperBoundFrequency == y->upperBoundFrequency, "anchor", "%s: filter %d of group %d: carrier %f, expected %f", op, j, k, x->subCarrierFrequency, y->subCarrierFrequency);
        }
    }
    mc_count(m->count * m->depth);
}
static RKWaveform *raw(int groups, int depth, bool cplx) {   // several filters per group, arbitrary samples
    RKWaveform *w = RKWaveformInitWithCountAndDepth(groups, depth); w->fs = 4e6; w->fc = 1e6; w->type = cplx ? RKWaveformTypeIsComplex : RKWaveformTypeNone; strcpy(w->name, "raw");
    for (int k = 0; k < groups; k++) {
        for (int i = 0; i < depth; i++) { w->samples[k][i] = (RKComplex){0.5f + (k * 7 + i * 3) % 11 * 0.1f, cplx ? (k + i * 5) % 7 * 0.25f - 0.75f : 0}; w->iSamples[k][i] = (RKInt16C){(k * 1000 + i * 371) % 30000, cplx ? -(i * 77) : 0}; }
        w->filterCounts[k] = k == 0 ? 3 : 1;
        for (int j = 0; j < w->filterCounts[k]; j++) w->filterAnchors[k][j] = (RKFilterAnchor){.name = k * 10 + j, .origin = j * (depth / 3), .length = depth / 3 ? depth / 3 : 1, .inputOrigin = j * 5, .outputOrigin = 7 * (2 - j), .maxDataLength = 100 + j, .subCarrierFrequency = 0.1f * j, .lowerBoundFrequency = j, .upperBoundFrequency = j + 1};
        if (k && depth > 1) w->filterAnchors[k][0] = (RKFilterAnchor){.name = k, .origin = depth - 2, .length = 2, .maxDataLength = 1000};
    }
    for (int k = 0; k < groups; k++) if (depth < 3) { w->filterCounts[k] = 1; w->filterAnchors[k][0].origin = 0; memset(&w->filterAnchors[k][1], 0, 7 * sizeof(RKFilterAnchor)); }
    RKWaveformNormalizeNoiseGain(w);
    return w;
}
enum { BASES = 12 };
static RKWaveform *base(int b) {
    switch (b) {
        case 0: return RKWaveformInitAsImpulse();
        case 1: return RKWaveformInitAsSingleTone(4e6, 1e6, 3e-6);
        case 2: return RKWaveformInitAsLinearFrequencyModulation(4e6, 0, 2.5e-6, 1e6);
        case 3: return RKWaveformInitAsFrequencyHops(4e6, 0, 1.25e-6, 1e6, 3);
        case 4: return RKWaveformInitAsFrequencyHoppingChirp(4e6, 1e6, 1e6, 2e-6, 2);
        case 5: return RKWaveformInitAsTimeFrequencyMultiplexing(4e6, 0, 1e6, 4e-6);
        case 6: return raw(1, 9, true);
        case 7: return raw(3, 7, true);
        case 8: return raw(2, 13, false);
        case 9: return raw(22, 2, true);
        case 10: return raw(1, 1, false);
        default: return raw(1, 64, false);
    }
}
static void operations(void) {
    const int b = mc_choose(BASES, "base"), ops = mc_param("ops", 3); RKWaveform *w = base(b); bool stale = false;
    take(&M, w); same(w, &M, "base", DIGITAL); for (int k = 0; k < w->count; k++) for (int j = 0; j < w->filterCounts[k]; j++) if (b != 5) gains(w, k, j, true);
    for (int n = 0; n < ops; n++) {
        const int op = mc_choose(12, "op"); char what[64]; int flags = DIGITAL;
        snprintf(what, sizeof what, "operation %d: %d", n, op); mc_note("%s", what);
        if (op == 0) { RKWaveform *c = RKWaveformCopy(w); same(w, &M, what, flags); RKWaveformFree(w); w = c; }
        else if (op == 1) { RKWaveformConjugate(w); for (int k = 0; k < M.count; k++) for (uint32_t i = 0; i < M.depth; i++) M.x[k][i][1] *= -1, M.v[k][i].q *= -1; }
        else if (op < 6) {   // decimation
            const uint32_t s = op, d = (M.depth + s - 1) / s; RKWaveformDecimate(w, s); stale = true;
            double g = sqrt(s); if (M.depth > 1 && M.depth % s) { double e = 0; for (uint32_t i = 0; i < M.depth; i += s) e += M.x[0][i][0] * M.x[0][i][0] + M.x[0][i][1] * M.x[0][i][1]; g = sqrt(1 / e); }
            if (!isfinite(g)) mc_skip();
            M.fs /= s; M.depth = d;
            for (int k = 0; k < M.count; k++) {
                for (uint32_t i = 0; i < d; i++) M.x[k][i][0] = g * M.x[k][i * s][0], M.x[k][i][1] = g * M.x[k][i * s][1], M.v[k][i] = M.v[k][i * s];
                for (int j = 0; j < M.filters[k]; j++) {
                    RKFilterAnchor *a = &M.a[k][j]; a->origin /= s; a->length = a->length / s ? a->length / s : 1;
                    a->inputOrigin = (a->inputOrigin + s - 1) / s; a->outputOrigin = (a->outputOrigin + s - 1) / s; a->maxDataLength = a->maxDataLength ? (a->maxDataLength + s - 1) / s : 1; a->subCarrierFrequency *= s;
                }
            }
            same(w, &M, what, flags);
            for (int k = 0; k < w->count; k++) for (int j = 0; j < w->filterCounts[k]; j++) gains(w, k, j, false);
        } else if (op < 9) {   // appending
            RKWaveform *y = base(op == 6 ? 1 : op == 7 ? 2 : 3); const uint32_t t = 10; y->fs = op == 7 && mc_choose(2, "rate") ? w->fs * 2 : w->fs; take(&N, y);
            const RKResult r = RKWaveformAppendWaveform(w, y, t); const bool ok = M.count == 1 && M.filters[0] == 1 && N.fs == M.fs;
            if (op == 8 && ok) mc_skip();   // an appendix of several groups
            mc_assert((r == RKResultSuccess) == ok, "append", "%s: result %x", what, r); same(y, &N, what, DIGITAL);
            if (ok) {
                const RKFilterAnchor *a = w->filterAnchors[0]; 
                for (uint32_t i = 0; i < N.depth; i++) M.x[0][M.depth + i][0] = N.x[0][i][0], M.x[0][M.depth + i][1] = N.x[0][i][1], M.v[0][M.depth + i] = N.v[0][i];
                M.a[0][0].inputOrigin = M.a[0][0].outputOrigin = M.a[0][0].length + t; M.a[0][1] = N.a[0][0];
                M.a[0][1].name = M.a[0][0].name + 1; M.a[0][1].origin += M.depth; M.a[0][1].inputOrigin = M.a[0][0].length; M.a[0][1].outputOrigin = 0; M.a[0][1].maxDataLength = M.a[0][0].length + t;
                M.depth += N.depth; M.filters[0]++; M.type |= RKWaveformTypeTimeFrequencyMultiplexing;
                mc_assert(a[1].filterGain == N.a[0][0].filterGain && a[1].sensitivityGain == N.a[0][0].sensitivityGain && a[1].fullScale == N.a[0][0].fullScale, "append", "%s: gains %f %f %f of the appendix are not kept: %f %f %f", what, N.a[0][0].filterGain, N.a[0][0].sensitivityGain, N.a[0][0].fullScale, a[1].filterGain, a[1].sensitivityGain, a[1].fullScale);
            }
            RKWaveformFree(y);
        } else if (op == 9 || op == 10) {   // writing and reading
            RKWaveform *r;
            if (op == 9) { FILE *f = tmpfile(); const size_t z = RKWaveformWriteToReference(w, f); mc_assert((long)z == ftell(f), "bytes", "%s: reported %zu, wrote %ld", what, z, ftell(f)); fputc('x', f); rewind(f); r = RKWaveformReadFromReference(f); mc_assert(r && ftell(f) == (long)z, "bytes", "%s: wrote %zu bytes, read %ld", what, z, ftell(f)); fclose(f); }
            else { mc_assert(RKWaveformWriteFile(w, "a/b.rkwav") == RKResultSuccess, "write", "%s", what); r = RKWaveformInitFromFile("a/b.rkwav"); mc_assert(r, "read", "%s", what); unlink("a/b.rkwav"); }
            same(w, &M, what, flags);
            for (int k = 0; k < M.count; k++) { M.a[k][0].maxDataLength = RKMaximumGateCount; for (int j = 0; j < M.filters[k]; j++) { bool z = false; for (uint32_t i = 0; i < M.a[k][j].length; i++) if (M.x[k][M.a[k][j].origin + i][0] != 0) z = true; if (z) gains(r, k, j, true); } }
            RKWaveformFree(w); w = r;
        } else {   // down conversion
            for (int k = 0; k < M.count; k++) for (int j = 0; j < M.filters[k]; j++) { double e = 0; for (uint32_t i = 0; i < M.a[k][j].length; i++) e += fabs(M.x[k][M.a[k][j].origin + i][0]) + fabs(M.x[k][M.a[k][j].origin + i][1]); if (e < 1e-6) mc_skip(); }
            const bool cplx = M.type & RKWaveformTypeIsComplex;
            RKWaveformDownConvert(w); 
            for (int k = 0; k < M.count; k++) for (uint32_t i = 0; i < M.depth; i++) {
                const double f = -2 * M_PI * M.fc / M.fs * i, c = cos(f), s = sin(f), x = M.x[k][i][0], y = M.x[k][i][1];
                if (cplx) { M.x[k][i][0] = x * c - y * s; M.x[k][i][1] = x * s + y * c; }
                else {   // the analytic signal keeps the real part
                    const double u = w->samples[k][i].i * c + w->samples[k][i].q * s;
                    mc_assert(near(u, x, 1e-4, 1e-4), "analytic", "%s: sample %u of group %d: %g, was %g", what, i, k, u, x); M.x[k][i][0] = w->samples[k][i].i; M.x[k][i][1] = w->samples[k][i].q;
                }
                M.v[k][i] = w->iSamples[k][i];
            }
            M.type |= RKWaveformTypeIsComplex; M.fc = 0; same(w, &M, what, 0);
            for (int k = 0; k < M.count; k++) for (int j = 0; j < M.filters[k]; j++) {
                double peak = 0; for (uint32_t i = M.a[k][j].origin; i < M.a[k][j].origin + M.a[k][j].length; i++) peak = fmax(peak, hypot(w->iSamples[k][i].i, w->iSamples[k][i].q));
                if (M.filters[k] == 1 && !stale) mc_assert(peak < RKWaveformDigitalAmplitude * 1.02 && peak > RKWaveformDigitalAmplitude * 0.98, "digital", "%s: filter %d of group %d peaks at %f", what, j, k, peak);
            }
        }
        same(w, &M, what, flags);
    }
    RKWaveformFree(w);
}

static uint8_t image[65536]; static size_t size;
static void file(const uint8_t *p, size_t n, const char *what, long at, long value, int expect) {
    FILE *f = n ? fmemopen((void *)p, n, "r") : fopen("/dev/null", "r"); mc_assert(f, "harness", "fmemopen");
    RKWaveform *w = RKWaveformReadFromReference(f);
    mc_assert(fclose(f) == 0, "closed", "%s", what);
    if (w) { inside(w); for (int k = 0; k < w->count; k++) mc_assert(w->filterCounts[k] >= 1, "filters", "group %d has none", k); mc_assert(w->depth >= 1, "depth", "0"); }
    if (expect == 0) mc_assert(!w, "truncated", "%s at %ld of %zu is accepted", what, at, size);
    if (expect == 1) mc_assert(w, "whole", "%s is refused", what);
    if (w) RKWaveformFree(w);
    mc_count(1);
}
static void corruptions(void) {
    const int b = mc_choose(BASES, "base"), part = mc_choose(9, "part"); RKWaveform *w = base(b);
    FILE *f = fmemopen(image, sizeof image, "w"); size = RKWaveformWriteToReference(w, f); fclose(f);
    static uint8_t copy[65536];
    const size_t head = sizeof(RKWaveFileGlobalHeader), group = w->depth * (sizeof(RKComplex) + sizeof(RKInt16C));
    if (part == 0) { for (size_t n = 0; n < size; n++) file(image, n, "truncation", n, 0, 0); file(image, size, "the file", size, 0, 1); RKWaveformFree(w); return; }
    // the fields: the header, and the anchors of every group
    size_t at[1200]; int n = 0;
    for (size_t k = 0; k < 168 + RKMaximumWaveformCount; k++) at[n++] = k;
    size_t p = head; for (int k = 0; k < w->count && n < 1000; k++) { for (size_t i = 0; i < w->filterCounts[k] * sizeof(RKFilterAnchor) && n < 1000; i++) at[n++] = p + i; p += w->filterCounts[k] * sizeof(RKFilterAnchor) + group; }
    if (part <= 4) {
        for (int k = part - 1; k < n; k += 4) { memcpy(copy, image, size); for (int v = 0; v < 256; v++) { copy[at[k]] = v; file(copy, size, "substitution", at[k], v, -1); } }
    } else {   // pairs of 32-bit fields of an anchor, and the number and depth of groups
        const uint32_t d = w->depth; const uint32_t V[] = {0, 1, d - 1, d, d + 1, RKMaximumGateCount, RKMaximumGateCount + 1, 0x7fffffff, 0x80000000, 0xffffffff, 0u - d, 1u - d};
        p = head;
        for (int k = 0; k < w->count; k++) {
            for (int j = 0; j < w->filterCounts[k]; j++) for (int o = 0; o < 36; o++) if ((o & 3) == part - 5) {
                const int x = o / 6, y = o % 6; if (x >= y) continue;
                for (int u = 0; u < 12; u++) for (int v = 0; v < 12; v++) { memcpy(copy, image, size); memcpy(copy + p + j * sizeof(RKFilterAnchor) + 4 * x, &V[u], 4); memcpy(copy + p + j * sizeof(RKFilterAnchor) + 4 * y, &V[v], 4); file(copy, size, "fields", p, u * 12 + v, -1); }
            }
            p += w->filterCounts[k] * sizeof(RKFilterAnchor) + group;
        }
        static const uint32_t D[] = {0, 1, 2, 3, 8, 100, 1000, 262144, 262145, 0x7fffffff, 0x80000000, 0xffffffff};
        for (int c = part - 5; c < 256; c += 4) for (int u = 0; u < 12; u++) for (int fc = 0; fc < 4; fc++) {
            if (u == 7 && c > 2 && c <= RKMaximumWaveformCount) continue;   // much memory
            memcpy(copy, image, size); copy[0] = c; memcpy(copy + offsetof(RKWaveFileGlobalHeader, depth), &D[u], 4); if (fc) memset(copy + offsetof(RKWaveFileGlobalHeader, filterCounts), fc == 1 ? 0 : fc == 2 ? 8 : 9, RKMaximumWaveformCount);
            file(copy, size, "counts", c, u, -1);
        }
    }
    RKWaveformFree(w);
}
static void names(void) {
    static const char *paths[] = {"w.rkwav", "a/w.rkwav", "./a/b/w.rkwav", "a/b/c/d/w"}; const char *path = paths[mc_choose(4, "path")];
    static const int L[] = {0, 1, 2, 64, 126, 127}; const int len = L[mc_choose(6, "length")]; const bool abs = mc_choose(2, "absolute"), longest = mc_choose(2, "long");
    RKWaveform *w = raw(2, 4, true); memset(w->name, 'n', len); w->name[len] = '\0'; char file[1024], cwd[512], tail[256] = "";
    if (longest) { memset(tail, 't', 200); tail[200] = '\0'; }
    mc_assert(getcwd(cwd, sizeof cwd) != NULL, "harness", "cwd"); snprintf(file, sizeof file, "%s%s%s%s", abs ? cwd : "", abs ? "/" : "", path, tail); if (abs && path[0] == '.') mc_skip();
    mc_assert(RKWaveformWriteFile(w, file) == RKResultSuccess, "write", "%s", file); const char *last = strrchr(file, '/');
    char expect[RKNameLength]; snprintf(expect, sizeof expect, "%s", len ? w->name : last ? last + 1 : file);
    mc_assert(!strcmp(w->name, expect), "name", "'%s', expected '%s'", w->name, expect);
    RKWaveform *r = RKWaveformInitFromFile(file); mc_assert(r && !strcmp(r->name, expect), "name", "read back '%s', expected '%s'", r ? r->name : "", expect);
    mc_assert(RKWaveformInitFromFile("nothing") == NULL, "missing", "a missing file is read");
    RKWaveformFree(w); RKWaveformFree(r); unlink(file);
}
static void setup(void) { rkQuiet(); }
static void dir(void) { static pid_t pid; if (pid == getpid()) return; char d[32]; snprintf(d, sizeof d, "p%d", pid = getpid()); mkdir(d, 0700); if (chdir(d)) {}  if (!mc_replaying() && !freopen("/dev/null", "w", stderr)) {} }
static void body(void) { dir(); switch (mc_param("part", 0)) { case 0: generators(); break; case 1: operations(); break; case 2: corruptions(); break; default: names(); } }
int main(int argc, char **argv) { mc_config c = {.name = "c17_waveform", .setup = setup, .body = body, .bound = 0, .shard_depth = 2, .run_seconds = 300}; return mc_main(argc, argv, &c); }
