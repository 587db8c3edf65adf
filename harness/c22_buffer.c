// C22: buffer slots never overlap, are aligned, and are cleared completely.
// All capacities, depths, slots, channels and moments within bounds; every area is filled through its accessor.
#include "rk.h"
#include <malloc.h>
#include <string.h>
#include <stdlib.h>
typedef struct { uint8_t *p; size_t n; const char *name; int k, c; } Area;
static Area A[4096]; static int na;
static void area(void *p, size_t n, const char *name, int k, int c) { mc_assert(na < 4096, "harness", "areas"); A[na++] = (Area){p, n, name, k, c}; }
static int cmp(const void *a, const void *b) { const Area *x = a, *y = b; return x->p < y->p ? -1 : x->p > y->p; }
static void disjoint(const void *mem, size_t bytes) {
    qsort(A, na, sizeof *A, cmp);
    for (int i = 0; i < na; i++) {
        if (mem) mc_assert(A[i].p >= (uint8_t *)mem && A[i].p + A[i].n <= (uint8_t *)mem + bytes, "outside", "%s %d of slot %d is at %ld..%ld of %zu", A[i].name, A[i].c, A[i].k, (long)(A[i].p - (uint8_t *)mem), (long)(A[i].p - (uint8_t *)mem + A[i].n), bytes);
        if (i) mc_assert(A[i - 1].p + A[i - 1].n <= A[i].p, "overlap", "%s %d of slot %d and %s %d of slot %d", A[i - 1].name, A[i - 1].c, A[i - 1].k, A[i].name, A[i].c, A[i].k);
    }
    for (int i = 0; i < na; i++) memset(A[i].p, 1 + i % 251, A[i].n);   // also seen by the address sanitizer
    for (int i = 0; i < na; i++) for (size_t b = 0; b < A[i].n; b++) mc_assert(A[i].p[b] == 1 + i % 251, "overlap", "%s %d of slot %d is changed by another", A[i].name, A[i].c, A[i].k);
    mc_count(na);
}
static void aligned(const void *p, size_t a, const char *name, int k, int c) { mc_assert(((uintptr_t)p & (a - 1)) == 0, "align", "%s %d of slot %d is at %p", name, c, k, p); }
enum { VEC = RKMemoryAlignSize };
static int capacity(void) { static const int big[] = {128, 1008, 4096, 65536}; const int n = mc_param("caps", 130); int c = mc_choose(n + 4, "capacity"); return c < n ? c : big[c - n]; }
static void pulses(void) {
    const int cap = capacity(), count = 1 + mc_choose(5, "count"); RKBuffer b = NULL;
    mc_note("pulses of %d gates, %d slots", cap, count);
    size_t bytes = RKPulseBufferAlloc(&b, cap, count);
    if (cap % (RKMemoryAlignSize / sizeof(RKFloat))) { mc_assert(bytes == 0 && !b, "refuse", "capacity %d accepted", cap); return; }
    mc_assert(bytes && b && malloc_usable_size(b) >= bytes, "size", "%zu bytes", bytes);
    for (int k = 0; k < count; k++) {
        RKPulse *p = RKGetPulseFromBuffer(b, k);
        mc_assert(p->header.capacity == (uint32_t)cap && p->header.s == RKPulseStatusVacant && p->header.i == (RKIdentifier)(k - count), "fresh", "slot %d of %d: capacity %u status %x number %ld", k, count, p->header.capacity, p->header.s, (long)p->header.i);
        mc_assert(sizeof(RKPulseHeader) + sizeof(RKPulseParameters) <= sizeof p->headerBytes, "header", "%zu + %zu", sizeof(RKPulseHeader), sizeof(RKPulseParameters));
    }
    // areas, with the headers' capacities kept for the accessors
    na = 0;
    for (int k = 0; k < count; k++) {
        RKPulse *p = RKGetPulseFromBuffer(b, k);
        aligned(p, VEC, "pulse", k, 0);
        area(p, offsetof(RKPulseHeader, capacity), "header", k, 0); area(&p->header.gateCount, sizeof p->headerBytes - offsetof(RKPulseHeader, gateCount), "header", k, 1);
        for (int c = 0; c < 2; c++) {
            RKIQZ z = RKGetSplitComplexDataFromPulse(p, c);
            area(RKGetInt16CDataFromPulse(p, c), cap * sizeof(RKInt16C), "int16", k, c); aligned(RKGetInt16CDataFromPulse(p, c), VEC, "int16", k, c);
            area(RKGetComplexDataFromPulse(p, c), cap * sizeof(RKComplex), "complex", k, c); aligned(RKGetComplexDataFromPulse(p, c), VEC, "complex", k, c);
            area(z.i, cap * sizeof(RKFloat), "i", k, c); aligned(z.i, VEC, "i", k, c);
            area(z.q, cap * sizeof(RKFloat), "q", k, c); aligned(z.q, VEC, "q", k, c);
        }
    }
    disjoint(b, bytes);
    // vacating slots in turn
    uint32_t index = 0; uint64_t number[8];
    for (int k = 0; k < count; k++) { RKPulse *p = RKGetPulseFromBuffer(b, k); number[k] = p->header.i = 100 + k; p->header.s = RKPulseStatusProcessed; p->header.gateCount = p->header.downSampledGateCount = cap / 2; }
    for (int t = 0; t < 2 * count + 1; t++) {
        const int k = t % count; void *keep = malloc(bytes); memcpy(keep, b, bytes);
        RKPulse *p = RKGetVacantPulseFromBuffer(b, &index, count);
        number[k] += count;
        mc_assert(p == RKGetPulseFromBuffer(b, k) && index == (uint32_t)((k + 1) % count), "turn", "turn %d of %d gives index %u", t, count, index);
        mc_assert(p->header.s == RKPulseStatusVacant && p->header.i == number[k] && p->header.timeDouble == 0 && p->header.time.tv_sec == 0 && p->header.time.tv_usec == 0 && p->header.positionIndex == (uint32_t)-1 && p->header.capacity == (uint32_t)cap, "vacant", "turn %d: status %x number %ld", t, p->header.s, (long)p->header.i);
        size_t from = (uint8_t *)p - (uint8_t *)b, to = from + sizeof p->headerBytes;
        mc_assert(!memcmp(keep, b, from) && !memcmp((uint8_t *)keep + to, (uint8_t *)b + to, bytes - to), "touched", "turn %d changes other data", t);
        free(keep);
    }
    // copies
    float v = 0;
    for (int k = 0; k < count; k++) { RKPulse *p = RKGetPulseFromBuffer(b, k); for (int c = 0; c < 2; c++) { RKComplex *x = RKGetComplexDataFromPulse(p, c); for (int g = 0; g < cap; g++) x[g] = (RKComplex){v++, -v}; } }
    if (cap) for (int start = 0; start < count; start++) for (int n = 0; n <= count; n++) {
        RKComplex *x = RKPulseBufferAllocCopyFromBuffer(b, start, n, count);
        for (int k = 0; k < n; k++) for (int c = 0; c < 2; c++) mc_assert(!memcmp(x + (k * 2 + c) * (cap / 2), RKGetComplexDataFromPulse(RKGetPulseFromBuffer(b, (start + k) % count), c), cap / 2 * sizeof(RKComplex)), "copy", "pulse %d from %d channel %d", k, start, c);
        free(x);
    }
    for (int n = 0; n < 2; n++) {
        RKPulse *p = RKGetPulseFromBuffer(b, count - 1); p->header.gateCount = n ? cap : cap / 2; RKPulseDuplicateSplitComplex(p);
        for (int c = 0; c < 2; c++) { RKComplex *x = RKGetComplexDataFromPulse(p, c); RKIQZ z = RKGetSplitComplexDataFromPulse(p, c); for (int g = 0; g < (int)p->header.gateCount; g++) mc_assert(z.i[g] == x[g].i && z.q[g] == x[g].q, "split", "gate %d channel %d", g, c); }
    }
    // clearing
    for (int n = 1; n <= count; n++) {
        for (int i = 0; i < na; i++) memset(A[i].p, 0xA5, A[i].n);
        RKClearPulseBuffer(b, n);
        for (int k = 0; k < count; k++) {
            RKPulse *p = RKGetPulseFromBuffer(b, k);
            if (k < n) mc_assert(p->header.s == RKPulseStatusVacant && p->header.gateCount == 0 && p->header.capacity == (uint32_t)cap && p->header.i == (RKIdentifier)((long)k - n), "clear", "slot %d of %d", k, n);
            else mc_assert(p->header.s == 0xA5A5A5A5, "clear", "slot %d is cleared with %d slots", k, n);
        }
        for (int i = 0; i < na; i++) if (strcmp(A[i].name, "header")) for (size_t j = 0; j < A[i].n; j++) mc_assert(A[i].p[j] == (A[i].k < n ? 0 : 0xA5), "clear", "byte %zu of %s %d of slot %d, %d slots cleared", j, A[i].name, A[i].c, A[i].k, n);
    }
    RKPulseBufferFree(b);
    mc_outcome(cap * 10 + count);
}
static void rays(void) {
    const int cap = capacity(), count = 1 + mc_choose(5, "count"); RKBuffer b = NULL;
    mc_note("rays of %d gates, %d slots", cap, count);
    size_t bytes = RKRayBufferAlloc(&b, cap, count);
    if (cap % (RKMemoryAlignSize / sizeof(RKFloat))) { mc_assert(bytes == 0 && !b, "refuse", "capacity %d accepted", cap); return; }
    mc_assert(bytes && b, "size", "%zu bytes", bytes);
    na = 0;
    for (int k = 0; k < count; k++) {
        RKRay *r = RKGetRayFromBuffer(b, k);
        mc_assert(r->header.capacity == (uint32_t)cap && r->header.s == RKRayStatusVacant && r->header.i == (RKIdentifier)(k - count), "fresh", "slot %d of %d: capacity %u status %x number %ld", k, count, r->header.capacity, r->header.s, (long)r->header.i);
        mc_assert(sizeof(RKRayHeader) <= sizeof r->headerBytes, "header", "%zu", sizeof(RKRayHeader));
        aligned(r, VEC, "ray", k, 0);
        area(&r->header.s, sizeof r->headerBytes - offsetof(RKRayHeader, s), "header", k, 0);
        for (int m = 0; m < RKMomentCount; m++) { area(RKGetInt16DataFromRay(r, m), cap * sizeof(int16_t), "int16", k, m); aligned(RKGetInt16DataFromRay(r, m), 2, "int16", k, m); }
        for (int m = 0; m < RKBaseProductCount; m++) { area(RKGetUInt8DataFromRay(r, m), cap, "uint8", k, m); area(RKGetFloatDataFromRay(r, m), cap * sizeof(float), "float", k, m); aligned(RKGetFloatDataFromRay(r, m), VEC, "float", k, m); }
    }
    disjoint(b, bytes);
    uint32_t index = 0; uint64_t number[8];
    for (int k = 0; k < count; k++) { RKRay *r = RKGetRayFromBuffer(b, k); number[k] = r->header.i = 100 + k; r->header.s = RKRayStatusReady; }
    for (int t = 0; t < 2 * count + 1; t++) {
        const int k = t % count; void *keep = malloc(bytes); memcpy(keep, b, bytes);
        RKRay *r = RKGetVacantRayFromBuffer(b, &index, count);
        number[k] += count;
        mc_assert(r == RKGetRayFromBuffer(b, k) && index == (uint32_t)((k + 1) % count), "turn", "turn %d of %d gives index %u", t, count, index);
        mc_assert(r->header.s == RKRayStatusVacant && r->header.i == number[k] && r->header.capacity == (uint32_t)cap && !r->header.startTime.tv_sec && !r->header.endTime.tv_sec, "vacant", "turn %d: status %x number %ld", t, r->header.s, (long)r->header.i);
        size_t from = (uint8_t *)r - (uint8_t *)b, to = from + sizeof r->headerBytes;
        mc_assert(!memcmp(keep, b, from) && !memcmp((uint8_t *)keep + to, (uint8_t *)b + to, bytes - to), "touched", "turn %d changes other data", t);
        free(keep);
    }
    for (int n = 1; n <= count; n++) {
        for (int i = 0; i < na; i++) memset(A[i].p, 0xA5, A[i].n);
        RKClearRayBuffer(b, n);
        for (int k = 0; k < count; k++) {
            RKRay *r = RKGetRayFromBuffer(b, k);
            if (k < n) mc_assert(r->header.s == RKRayStatusVacant && r->header.gateCount == 0 && r->header.capacity == (uint32_t)cap && r->header.i == (RKIdentifier)((long)k - n), "clear", "slot %d of %d", k, n);
            else mc_assert(r->header.s == 0xA5A5A5A5, "clear", "slot %d is cleared with %d slots", k, n);
        }
        for (int i = 0; i < na; i++) if (strcmp(A[i].name, "header")) for (size_t j = 0; j < A[i].n; j++) mc_assert(A[i].p[j] == (A[i].k < n ? 0 : 0xA5), "clear", "byte %zu of %s %d of slot %d, %d slots cleared", j, A[i].name, A[i].c, A[i].k, n);
    }
    RKRayBufferFree(b);
    mc_outcome(cap * 10 + count);
}
static void F(void *p, size_t n, const char *name, int c) { mc_assert(p, "null", "%s %d", name, c); aligned(p, VEC, name, 0, c); area(p, n, name, 0, c); }
#define PF(x) F(s->x, cap * sizeof(RKFloat), #x, 0)
#define PF2(x) for (int k = 0; k < 2; k++) F(s->x[k], cap * sizeof(RKFloat), #x, k)
#define PZ(x, k) do { F((x).i, cap * sizeof(RKFloat), #x ".i", k); F((x).q, cap * sizeof(RKFloat), #x ".q", k); } while (0)
static void scratch(void) {
    const int c0 = mc_choose(70, "capacity"), cap = c0 < 66 ? c0 : (c0 - 65) * 1008, kind = mc_choose(2, "kind"); na = 0;
    mc_note("scratch %d of %d", kind, cap);
    if (kind == 0) {
        RKCompressionScratch *s = NULL; size_t bytes = RKCompressionScratchAlloc(&s, cap, 0, "name");
        if (cap == 0 || cap % 16) { mc_assert(!bytes, "refuse", "capacity %d accepted", cap); return; }
        mc_assert(bytes && s->capacity == (uint32_t)cap, "size", "%zu", bytes);
        size_t nfft = 1; while (nfft < (size_t)cap) nfft *= 2;
        F(s->inBuffer, nfft * sizeof(fftwf_complex), "inBuffer", 0); F(s->outBuffer, nfft * sizeof(fftwf_complex), "outBuffer", 0);
        PF(user1); PF(user2); PF(user3); PF(user4);
        F(s->userComplex1, cap * sizeof(RKComplex), "userComplex", 1); F(s->userComplex2, cap * sizeof(RKComplex), "userComplex", 2); F(s->userComplex3, cap * sizeof(RKComplex), "userComplex", 3); F(s->userComplex4, cap * sizeof(RKComplex), "userComplex", 4);
        disjoint(NULL, 0);
        RKCompressionScratchFree(s);
    } else {
        if (cap > 200) mc_skip();
        RKMomentScratch *s = NULL; size_t bytes = RKMomentScratchAlloc(&s, cap, 0, "name");
        if (cap == 0 || cap % 16) { mc_assert(!bytes, "refuse", "capacity %d accepted", cap); return; }
        mc_assert(bytes && s->capacity == (uint32_t)cap, "size", "%zu", bytes);
        for (int k = 0; k < 2; k++) {
            PZ(s->mX[k], k); PZ(s->vX[k], k); for (int l = 0; l < RKMaximumLagCount; l++) { PZ(s->R[k][l], k); PZ(s->RX[k][l], k); F(s->aR[k][l], cap * 4, "aR", k); F(s->aRX[k][l], cap * 4, "aRX", k); }
            for (int l = 0; l < 2 * RKMaximumLagCount - 1; l++) { PZ(s->CX[k][l], k); F(s->aCX[k][l], cap * 4, "aCX", k); }
        }
        for (int l = 0; l < 2 * RKMaximumLagCount - 1; l++) { PZ(s->C[l], l); F(s->aC[l], cap * 4, "aC", l); }
        for (int k = 0; k < 2; k++) for (int g = 0; g < cap; g++) mc_assert(s->S2Z[k][g] == 0 && s->dcal[g] == 0 && s->pcal[g] == 0, "clear", "calibration of gate %d", g);
        PF2(S); PF2(Z); PF2(V); PF2(W); PF2(Q); PF2(L); PF2(RhoXP); PF2(PhiXP); PF2(SNR); PF2(S2Z); PZ(s->sC, 0); PZ(s->ts, 0);
        PF(ZDR); PF(PhiDP); PF(RhoHV); PF(KDP); PF(user1); PF(user2); PF(user3); PF(user4); PF(dcal); PF(pcal); PF(gC); F(s->mask, cap, "mask", 0);
        size_t nfft = 1; while (nfft < RKMaximumPulsesPerRay) nfft *= 2;
        for (int g = 0; g < cap; g++) { F(s->inBuffer[g], nfft * 8, "inBuffer", g); F(s->outBuffer[g], nfft * 8, "outBuffer", g); F(s->fC[g], nfft * 8, "fC", g); for (int k = 0; k < 2; k++) F(s->fS[k][g], nfft * 8, "fS", g); }
        disjoint(NULL, 0);
        for (int g = 0; g < cap; g++) { free(s->fC[g]); free(s->fS[0][g]); free(s->fS[1][g]); }
        free(s->fC); free(s->fS[0]); free(s->fS[1]);
        RKMomentScratchFree(s);
    }
    mc_outcome(cap * 2 + kind);
}
static void products(void) {
    const int depth = 1 + mc_choose(4, "depth"), nr = 1 + mc_choose(12, "rays"), ng = 1 + mc_choose(40, "gates"); RKProduct *b = NULL; na = 0;
    size_t bytes = RKProductBufferAlloc(&b, depth, nr, ng); mc_assert(bytes && b, "size", "%zu", bytes);
    for (int k = 0; k < depth; k++) {
        RKProduct *p = &b[k];
        mc_assert(p->capacity == (uint32_t)(nr * ng) && (int)p->header.rayCount == nr && (int)p->header.gateCount == ng && !p->flag, "fresh", "product %d", k);
        for (int j = 0; j < nr * ng; j++) mc_assert(p->data[j] == 0, "fresh", "value %d of product %d", j, k);
        area(p, sizeof *p, "product", k, 0);
    }
    RKFloat *q[4][5]; for (int k = 0; k < depth; k++) { RKProduct *p = &b[k]; RKFloat *x[] = {p->startAzimuth, p->endAzimuth, p->startElevation, p->endElevation, p->data}; memcpy(q[k], x, sizeof x); }
    RKProduct keep[4]; memcpy(keep, b, depth * sizeof *b);
    for (int k = 0; k < depth; k++) { for (int j = 0; j < 4; j++) area(q[k][j], nr * sizeof(RKFloat), "angles", k, j); area(q[k][4], nr * ng * sizeof(RKFloat), "data", k, 4); }
    disjoint(NULL, 0);
    memcpy(b, keep, depth * sizeof *b);
    RKProductBufferFree(b, depth);
    mc_outcome((depth * 100 + nr) * 100 + ng);
}
static void indices(void) {   // index arithmetic
    const uint32_t S = 1 + mc_choose(64, "size");
    for (uint32_t i = 0; i < S; i++) {
        const uint32_t n = RKNextModuloS(i, S), p = RKPreviousModuloS(i, S);
        mc_assert(n == (i + 1) % S && p == (i + S - 1) % S, "index", "next and previous of %u of %u are %u and %u", i, S, n, p);
        for (uint32_t N = 0; N <= S; N++) {
            const uint32_t nn = RKNextNModuloS(i, N, S), pp = RKPreviousNModuloS(i, N, S);
            mc_assert(nn == (i + N) % S && pp == (i + S - N) % S, "index", "%u +- %u of %u are %u and %u", i, N, S, nn, pp);
        }
    }
    mc_outcome(S);
}
static void body(void) {
    switch (mc_param("part", 0)) { case 0: pulses(); break; case 1: rays(); break; case 2: scratch(); break; case 3: products(); break; default: indices(); }
}
static void setup(void) { rkQuiet(); }
int main(int argc, char **argv) {
    mc_config c = {.name = "c22_buffer", .setup = setup, .body = body, .bound = 0, .shard_depth = 1};
    return mc_main(argc, argv, &c);
}
