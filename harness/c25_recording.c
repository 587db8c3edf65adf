// C25: a cut-off or damaged recording is read up to the damage and never beyond.
// part 0: every cut of small files of every version      part 1: every substitution of a byte
// part 2: sizes that do not fit: of pulses, filters, waveforms
#include "rk.h"
#include <setjmp.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
const char *__asan_default_options(void) { return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
static jmp_buf leave; static bool armed; void __real_exit(int) __attribute__((noreturn)); void __wrap_exit(int c) { if (armed) { armed = false; longjmp(leave, c + 1); } __real_exit(c); }
enum { CAP = 64, SLOTS = 3, ROOM = 65536 };
static uint8_t image[ROOM], copy[ROOM]; static size_t size, first; static int pulses; static size_t ends[8]; static RKPulseHeader expect[8]; static bool V1;
typedef struct { int version, type, groups, filters, depth, ratio, gates; } Kind;
static void put(const void *p, size_t n) { mc_assert(size + n <= ROOM, "harness", "room"); memcpy(image + size, p, n); size += n; }
static RKInt16C raw(int k, int c, int g) { return (RKInt16C){k * 100 + c * 50 + g, -(k + g * 3 + c)}; }
static RKComplex cooked(int k, int c, int g) { return (RKComplex){k + 0.25f * c + g * 8, -1.5f * g - k}; }
static void compose(Kind K, int n) {   // the bytes of a recording
    size = 0; pulses = n; V1 = K.version < 7; memset(expect, 0, sizeof expect);
    if (K.version == 5) {
        static RKFileHeaderV1 h; memset(&h, 0, sizeof h); strcpy(h.preface, "RadarKit/IQ"); h.buildNo = 5; h.dataType = K.type; h.desc.pulseToRayRatio = K.ratio; h.desc.pulseCapacity = CAP; strcpy(h.desc.name, "radar"); h.config.i = 42; h.config.sweepElevation = 2.5f; h.config.prt[0] = 1e-3f; h.config.prt[1] = 2e-3f; h.config.pw[0] = 1e-6f; h.config.pw[1] = 3e-6f; h.config.pulseGateCount = 77; h.config.pulseGateSize = 30; h.config.pulseRingFilterGateCount = 9; h.config.noise[1] = 0.5f; h.config.ZCal[RKMaximumFilterCount - 1][1] = 4; h.config.PCal[RKMaximumFilterCount - 1] = 6; h.config.SNRThreshold = 1.5f; h.config.SQIThreshold = 0.25f; strcpy(h.config.waveform, "w"); strcpy(h.config.vcpDefinition, "vcp");
        h.config.filterCount = K.filters; for (int j = 0; j < K.filters; j++) { h.config.filterAnchors[j].origin = j * K.depth; h.config.filterAnchors[j].length = K.depth; h.config.filterAnchors[j].maxDataLength = 64; }
        put(&h, sizeof h);
    } else {
        static RKFileHeader h; memset(&h, 0, sizeof h); strcpy(h.preface, "RadarKit/IQ"); h.version = K.version; h.dataType = K.type; h.desc.pulseToRayRatio = K.ratio; h.desc.pulseCapacity = CAP; strcpy(h.desc.name, "radar"); h.config.i = 42; h.config.sweepElevation = 2.5f; h.config.prt[0] = 1e-3f; h.config.SQIThreshold = 0.25f; h.config.PCal[RKMaximumFilterCount - 1] = 6; strcpy(h.config.waveformName, "w"); strcpy(h.config.vcpDefinition, "vcp"); h.config.waveform = (RKWaveform *)0x1234; h.config.waveformDecimate = (RKWaveform *)0x5678; put(&h, sizeof h);
        static RKWaveFileGlobalHeader w; memset(&w, 0, sizeof w); strcpy(w.name, "w"); w.count = K.groups; w.depth = K.depth; w.type = RKWaveformTypeIsComplex; w.fs = 5e6; for (int k = 0; k < K.groups; k++) w.filterCounts[k] = k ? K.filters : 1; put(&w, sizeof w);
        for (int k = 0; k < K.groups; k++) {
            for (int j = 0; j < w.filterCounts[k]; j++) { RKFilterAnchor a; memset(&a, 0, sizeof a); a.name = j; a.length = w.filterCounts[k] == 1 || K.depth == 1 ? K.depth : j ? K.depth - K.depth / 2 : K.depth / 2; a.origin = j ? K.depth - a.length : 0; a.maxDataLength = 64; put(&a, sizeof a); }
            for (int i = 0; i < K.depth; i++) { RKComplex x = {i + 1 + k, 0.5f * i}; put(&x, sizeof x); }
            for (int i = 0; i < K.depth; i++) { RKInt16C x = {10 * i + k + 1, -i}; put(&x, sizeof x); }
        }
    }
    first = size;
    for (int k = 0; k < n; k++) {
        RKPulseHeader p; memset(&p, 0, sizeof p); p.i = 1000 + k; p.n = 7 + k; p.t = 12345 + k; p.s = 0xff; p.capacity = 4096; p.gateCount = K.gates; p.downSampledGateCount = (K.gates + K.ratio - 1) / K.ratio; p.pulseWidthSampleCount = 5; p.marker = RKMarkerSweepMiddle; p.time = (struct timeval){1700000000 + k, 250000}; p.timeDouble = 1700000000.25 + k; p.rawAzimuth.u32 = 77 + k; p.rawElevation.u32 = 88; p.configIndex = 3; p.configSubIndex = 1; p.gateSizeMeters = 30; p.elevationDegrees = 2.5f; p.azimuthDegrees = k; p.elevationVelocityDegreesPerSecond = 0.5f; p.azimuthVelocityDegreesPerSecond = 18;
        expect[k] = p;
        if (V1) { RKPulseHeaderV1 q; memset(&q, 0, sizeof q);
#define C(f) q.f = p.f;
            C(i) C(n) C(t) C(s) C(capacity) C(gateCount) C(downSampledGateCount) C(marker) C(pulseWidthSampleCount) C(time) C(timeDouble) C(rawAzimuth) C(rawElevation) C(configIndex) C(configSubIndex) C(gateSizeMeters) C(elevationDegrees) C(azimuthDegrees) C(elevationVelocityDegreesPerSecond) C(azimuthVelocityDegreesPerSecond)
            put(&q, sizeof q);
        } else put(&p, sizeof p);
        for (int c = 0; c < 2; c++) if (K.type == RKRawDataTypeFromTransceiver) for (uint32_t g = 0; g < p.gateCount; g++) { RKInt16C x = raw(k, c, g); put(&x, sizeof x); } else for (uint32_t g = 0; g < p.downSampledGateCount; g++) { RKComplex x = cooked(k, c, g); put(&x, sizeof x); }
        ends[k] = size;
    }
}
static RKBuffer pb; static size_t slot;
static RKFileHeader *readHeader(FILE *f) { armed = true; if (setjmp(leave)) return NULL; RKFileHeader *h = RKFileHeaderRead(f); armed = false; return h; }
static void release(RKFileHeader *h) { if (!h) return; for (int i = 0; i < 2; i++) { RKWaveform *w = i ? h->config.waveform : h->config.waveformDecimate; for (int k = 0; k < w->count; k++) { free(w->samples[k]); free(w->iSamples[k]); } } free(h->config.waveform); free(h->config.waveformDecimate); free(h); }
static void checkWaveform(const RKWaveform *w, const char *what) {
    mc_assert(w && w->count >= 1 && w->count <= RKMaximumWaveformCount && memchr(w->name, 0, RKNameLength), "waveform", "%s", what);
    for (int k = 0; k < w->count; k++) for (int j = 0; j < w->filterCounts[k]; j++) mc_assert(w->filterCounts[k] <= RKMaximumFilterCount && (uint64_t)w->filterAnchors[k][j].origin + w->filterAnchors[k][j].length <= w->depth, "waveform", "%s: filter %d of group %d: %u + %u of %u", what, j, k, w->filterAnchors[k][j].origin, w->filterAnchors[k][j].length, w->depth);
}
static void checkHeader(RKFileHeader *h, Kind K) {
    mc_assert(h->config.waveform && h->config.waveformDecimate, "header", "no waveform");
    mc_assert(h->dataType == K.type && h->version == (uint32_t)K.version && h->desc.pulseToRayRatio == K.ratio && h->desc.pulseCapacity == CAP && !strcmp(h->desc.name, "radar"), "header", "type %d version %u ratio %u", h->dataType, h->version, h->desc.pulseToRayRatio);
    mc_assert(h->config.i == 42 && h->config.sweepElevation == 2.5f && h->config.prt[0] == 1e-3f && h->config.SQIThreshold == 0.25f && h->config.PCal[RKMaximumFilterCount - 1] == 6, "header", "config");
    mc_assert(!strcmp(h->config.waveformName, K.version == 5 ? "w-syn" : "w"), "header", "waveform '%s'", h->config.waveformName);
    if (K.version == 5) mc_assert(h->config.prt[1] == 2e-3f && h->config.pw[0] == 1e-6f && h->config.pw[1] == 3e-6f && h->config.pulseGateCount == 77 && h->config.pulseGateSize == 30 && h->config.ringFilterGateCount == 9 && h->config.noise[1] == 0.5f && h->config.ZCal[RKMaximumFilterCount - 1][1] == 4 && h->config.SNRThreshold == 1.5f, "header", "config of version 5");
    else mc_assert(!strcmp(h->config.vcpDefinition, "vcp"), "header", "vcp '%s'", h->config.vcpDefinition);
    const RKWaveform *w = h->config.waveform; const int groups = K.version == 5 ? 1 : K.groups, depth = K.version == 5 ? K.depth * K.filters : K.depth;
    mc_assert(w->count == groups && (int)w->depth == depth, "header", "waveform of %d x %u, expected %d x %d", w->count, w->depth, groups, depth);
    for (int k = 0; k < groups; k++) { mc_assert(w->filterCounts[k] == (k || K.version == 5 ? K.filters : 1), "header", "%d filters in group %d", w->filterCounts[k], k); if (K.version > 5) for (int i = 0; i < depth; i++) mc_assert(w->samples[k][i].i == i + 1 + k && w->iSamples[k][i].i == 10 * i + k + 1, "header", "sample %d of group %d", i, k); }
    checkWaveform(w, "waveform"); checkWaveform(h->config.waveformDecimate, "decimated");
    mc_assert((int)h->config.waveformDecimate->depth == (K.version == 5 ? depth : (depth + K.ratio - 1) / K.ratio), "header", "decimated depth %u", h->config.waveformDecimate->depth);
}
// reads one pulse into the middle slot; nothing but the slot's header and its samples may change
static int readPulse(RKFileHeader *h, FILE *f, int type, int c) {
    RKPulse *p = RKGetPulseFromBuffer(pb, 1);
    memset(pb + slot, 0x5a, slot); p->header.capacity = CAP; p->header.s = RKPulseStatusVacant;
    const int r = RKReadPulseFromFileReference(p, h, f);
    const uint8_t *b = pb; for (size_t k = 0; k < slot; k++) if ((k >= sizeof(RKPulseHeader) && b[k] != 0x5a) || b[2 * slot + k] != 0x5a) mc_fail("beyond", "a byte outside of the pulse, %s %zu", b[2 * slot + k] != 0x5a ? "after" : "before", k);
    mc_assert(p->header.capacity == CAP && p->header.s == RKPulseStatusVacant, "slot", "capacity %u status %x", p->header.capacity, p->header.s);
    if (r == RKResultSuccess) {
        const uint32_t n = type == RKRawDataTypeFromTransceiver ? p->header.gateCount : p->header.downSampledGateCount; mc_assert(n <= CAP && (type == RKRawDataTypeFromTransceiver || type == RKRawDataTypeAfterMatchedFilter), "size", "%u gates of type %d", n, type);
        const uint8_t *d = (uint8_t *)p->data, *x0 = (uint8_t *)RKGetInt16CDataFromPulse(p, 0), *y0 = (uint8_t *)RKGetComplexDataFromPulse(p, 0), *z0 = (uint8_t *)RKGetSplitComplexDataFromPulse(p, 0).i, *e = pb + 2 * slot;
        for (const uint8_t *q = d; q < e; q++) {
            bool in = false; for (int k = 0; k < 2; k++) if (type == RKRawDataTypeFromTransceiver) in |= q >= x0 + k * CAP * 4 && q < x0 + k * CAP * 4 + n * 4; else { in |= q >= y0 + k * CAP * 8 && q < y0 + k * CAP * 8 + n * 8; for (int j = 0; j < 2; j++) in |= q >= z0 + (2 * k + j) * CAP * 4 && q < z0 + (2 * k + j) * CAP * 4 + n * 4; }
            if (!in && *q != 0x5a) mc_fail("slot", "byte %zu of the data of a pulse of %u gates was touched", (size_t)(q - d), n);
        }
    }
    (void)c; mc_count(1); return r;
}
static void comparePulse(int k, Kind K) {
    RKPulse *p = RKGetPulseFromBuffer(pb, 1); const RKPulseHeader *h = &p->header, *e = &expect[k];
#define S(f) mc_assert(!memcmp(&h->f, &e->f, sizeof h->f), "header", "pulse %d: " #f, k);
    S(i) S(n) S(t) S(gateCount) S(pulseWidthSampleCount) S(marker) S(time) S(timeDouble) S(rawAzimuth) S(rawElevation) S(gateSizeMeters) S(elevationDegrees) S(azimuthDegrees) S(elevationVelocityDegreesPerSecond) S(azimuthVelocityDegreesPerSecond)
    if (K.type == RKRawDataTypeAfterMatchedFilter) S(downSampledGateCount)
    if (K.version < 7) { S(configIndex) S(configSubIndex) }
    for (int c = 0; c < 2; c++) {
        if (K.type == RKRawDataTypeFromTransceiver) for (uint32_t g = 0; g < h->gateCount; g++) { const RKInt16C x = RKGetInt16CDataFromPulse(p, c)[g], y = raw(k, c, g); mc_assert(x.i == y.i && x.q == y.q, "samples", "pulse %d channel %d gate %u", k, c, g); }
        else for (uint32_t g = 0; g < h->downSampledGateCount; g++) { const RKComplex x = RKGetComplexDataFromPulse(p, c)[g], y = cooked(k, c, g); const RKIQZ z = RKGetSplitComplexDataFromPulse(p, c); mc_assert(x.i == y.i && x.q == y.q && z.i[g] == y.i && z.q[g] == y.q, "samples", "pulse %d channel %d gate %u", k, c, g); }
    }
}
static Kind choose(bool small) {
    static const int D[] = {1, 3, 8}, R[] = {1, 2, 4}, G[] = {0, 1, 5, 64}; Kind K;
    K.version = 5 + mc_choose(3, "version"); K.type = 1 + mc_choose(2, "type");
    if (small) { K.groups = 2; K.filters = 2; K.depth = 3; K.ratio = 2; K.gates = 3; return K; }
    K.groups = K.version == 5 ? 1 : 1 + mc_choose(2, "groups"); K.filters = 1 + mc_choose(2, "filters"); K.depth = D[mc_choose(3, "depth")]; K.ratio = R[mc_choose(3, "ratio")]; K.gates = G[mc_choose(4, "gates")];
    return K;
}
static void cuts(void) {
    const Kind K = choose(false); compose(K, mc_choose(4, "pulses"));
    const long step = mc_param("step", 61); bool whole = false;
    for (size_t n = 1; n <= size; n += whole || n >= first - 40 || n + 40 >= size ? 1 : step) {   // every cut from the end of the header on, and one in so many before
        if (n > first) whole = true;
        FILE *f = fmemopen(image, n, "r"); mc_assert(f, "harness", "fmemopen");
        RKFileHeader *h = readHeader(f); mc_assert(!!h == (n >= first), "header", "%s: cut at %zu of %zu", h ? "accepted" : "refused", n, first);
        if (h) {
            checkHeader(h, K);
            int k = 0; for (; k < 9 && readPulse(h, f, K.type, k) == RKResultSuccess; k++) { mc_assert(k < pulses && ends[k] <= n, "beyond", "pulse %d from a file cut at %zu, it ends at %zu", k, n, k < pulses ? ends[k] : 0); comparePulse(k, K); }
            int whole = 0; while (whole < pulses && ends[whole] <= n) whole++;
            mc_assert(k == whole, "lost", "cut at %zu: %d pulses, %d are complete", n, k, whole);
            release(h);
        }
        fclose(f);
    }
}
static void tryAll(int type, const char *what) {   // any content: no memory fault, an end, and pulses that fit
    FILE *f = fmemopen(copy, size, "r"); RKFileHeader *h = readHeader(f);
    if (h) {
        checkWaveform(h->config.waveform, what); checkWaveform(h->config.waveformDecimate, what); mc_assert(h->version < 6 || h->desc.pulseToRayRatio > 0, "ratio", "%s", what);
        mc_assert(memchr(h->config.waveformName, 0, RKNameLength) || h->version > 5, "terminated", "%s", what);
        int k = 0; for (; k < 1000 && readPulse(h, f, h->dataType, k) == RKResultSuccess; k++); mc_assert(k < 1000, "end", "%s: no end", what);
        release(h);
    }
    fclose(f); (void)type;
}
static void substitutions(void) {
    const Kind K = choose(true); compose(K, 2); const int step = mc_choose(64, "part");
    static const uint8_t V[] = {0xff, 0, 1, 2, 0x7f, 0x80, 8, 23}; const int nv = mc_param("values", 4);
    for (size_t n = step; n < size; n += 64) for (int v = 0; v < nv; v++) if (image[n] != V[v]) {
        memcpy(copy, image, size); copy[n] = V[v]; mc_note("%d at %zu", V[v], n); char what[40]; snprintf(what, sizeof what, "%d at %zu", V[v], n); tryAll(K.type, what);
        if (K.version < 6 ? n >= sizeof(RKFileHeaderV1) : n >= first) {   // the header is whole: so are the pulses before the damage
            FILE *f = fmemopen(copy, size, "r"); RKFileHeader *h = readHeader(f); mc_assert(h, "refused", "%zu", n); checkHeader(h, K);
            for (int k = 0; k < pulses && ends[k] <= n; k++) { mc_assert(readPulse(h, f, K.type, k) == RKResultSuccess, "lost", "pulse %d, damage at %zu", k, n); comparePulse(k, K); }
            release(h); fclose(f);
        }
    }
}
static void sizes(void) {
    Kind K = choose(true); const int what = mc_choose(12, "what"), value = mc_choose(9, "value"); static const uint32_t U[] = {0, 1, 63, 64, 65, 128, 262145, 0x7fffffff, 0xffffffff};
    compose(K, 2); memset(image + size, 0x33, 8192); size += 8192; memcpy(copy, image, size); const uint32_t u = U[value]; const uint16_t u16 = u; const uint8_t u8 = u;
    char note[40]; snprintf(note, sizeof note, "what %d value %u", what, u); mc_note("%s", note);
    if (what < 2) {   // the gates of the second pulse
        uint8_t *p = copy + ends[0]; memcpy(p + (V1 ? (what ? offsetof(RKPulseHeaderV1, downSampledGateCount) : offsetof(RKPulseHeaderV1, gateCount)) : (what ? offsetof(RKPulseHeader, downSampledGateCount) : offsetof(RKPulseHeader, gateCount))), &u, 4);
        FILE *f = fmemopen(copy, size, "r"); RKFileHeader *h = readHeader(f); mc_assert(h, "header", "refused"); mc_assert(readPulse(h, f, K.type, 0) == RKResultSuccess, "lost", "first pulse"); comparePulse(0, K);
        const int r = readPulse(h, f, K.type, 1); const bool counts = what == (K.type == RKRawDataTypeAfterMatchedFilter);
        mc_assert((r == RKResultSuccess) == (!counts || u <= CAP), "size", "a pulse of %u gates: %d", u, r); release(h); fclose(f);
        return;
    }
    bool good = true;   // whether the value can stay as it is
    if (K.version == 5) {
        if (what == 2) { copy[offsetof(RKFileHeaderV1, config.filterCount)] = u8; good = u8 >= 1 && u8 <= 2; if (u8 > RKMaximumFilterCount || u8 == 0) good = false; else if (u8 > 2) good = true; }
        else if (what == 3) { memcpy(copy + offsetof(RKFileHeaderV1, config.filterAnchors) + offsetof(RKFilterAnchor, length), &u, 4); good = u <= 64 && u >= 1; if (u > RKMaximumGateCount) good = false; else if (u < RKMaximumGateCount) good = u + 3 >= 3 + 3; }
        else if (what == 4) { memcpy(copy + offsetof(RKFileHeaderV1, config.filterAnchors) + offsetof(RKFilterAnchor, origin), &u, 4); good = u <= 3; }
        else if (what == 5) memset(copy + offsetof(RKFileHeaderV1, config.waveform), 'x', RKNameLength);
        else mc_skip();
        if (what == 3 && u < 3) good = false;   // the second filter starts behind the samples
    } else {
        const size_t w = sizeof(RKFileHeader), a = w + sizeof(RKWaveFileGlobalHeader);
        if (what == 2) { copy[w + offsetof(RKWaveFileGlobalHeader, count)] = u8; good = u8 == 1; if (u8 != 0 && u8 <= RKMaximumWaveformCount) { tryAll(K.type, note); return; } }
        else if (what == 3) { memcpy(copy + w + offsetof(RKWaveFileGlobalHeader, depth), &u, 4); good = false; if (u && u <= 128) { tryAll(K.type, note); return; } }
        else if (what == 4) { copy[w + offsetof(RKWaveFileGlobalHeader, filterCounts)] = u8; good = u8 == 1; if (u8 != 0 && u8 <= RKMaximumFilterCount) { tryAll(K.type, note); return; } }
        else if (what == 5) { memcpy(copy + a + offsetof(RKFilterAnchor, length), &u, 4); good = u <= 3; }
        else if (what == 6) { memcpy(copy + a + offsetof(RKFilterAnchor, origin), &u, 4); good = u == 0; }
        else if (what == 7) { memcpy(copy + offsetof(RKFileHeader, desc.pulseToRayRatio), &u16, 2); good = u16 != 0; }
        else if (what == 8) { copy[offsetof(RKFileHeader, dataType)] = u8; FILE *f = fmemopen(copy, size, "r"); RKFileHeader *h = readHeader(f); mc_assert(h, "header", "refused"); const int r = readPulse(h, f, u8, 0); mc_assert((r == RKResultSuccess) == (u8 == RKRawDataTypeFromTransceiver || u8 == RKRawDataTypeAfterMatchedFilter), "type", "type %d: %d", u8, r); release(h); fclose(f); return; }
        else if (what == 9) { memset(copy + offsetof(RKFileHeader, config.waveformName), 'x', RKNameLength); memset(copy + w + offsetof(RKWaveFileGlobalHeader, name), 'y', RKNameLength); }
        else if (what == 10) { copy[offsetof(RKFileHeader, version)] = u8; good = u8 == 63 || u8 >= 64; if (u8 < 5) good = false; if (u8 >= 6) good = true; }
        else mc_skip();
    }
    FILE *f = fmemopen(copy, size, "r"); RKFileHeader *h = readHeader(f); mc_assert(!!h == good, "header", "%s: %s", note, h ? "accepted" : "refused"); release(h); fclose(f);
    tryAll(K.type, note);
}
static void setup(void) { rkQuiet(); mc_assert(RKPulseBufferAlloc(&pb, CAP, SLOTS), "harness", "alloc"); slot = (uint8_t *)RKGetPulseFromBuffer(pb, 1) - (uint8_t *)pb; }
static void body(void) {
    if (!mc_replaying() && !freopen("/dev/null", "w", stderr)) {}
    memset(pb, 0x5a, slot); memset(pb + 2 * slot, 0x5a, slot); ((RKPulse *)pb)->header.capacity = CAP;   // the accessors look at the first slot
    memset(pb + sizeof(RKPulseHeader), 0x5a, slot - sizeof(RKPulseHeader));
    switch (mc_param("part", 0)) { case 0: cuts(); break; case 1: substitutions(); break; default: sizes(); }
    RKReadPulseFromFileReference(NULL, NULL, NULL);
}
int main(int argc, char **argv) { mc_config c = {.name = "c25_recording", .setup = setup, .body = body}; return mc_main(argc, argv, &c); }
