// C16: every pulse offered while recording is on can be read back, whole and in order.
// part 0: histories of pulses, changes of configuration, switches, stops     part 1: schedules of a switch and a stop
// part 2: short and failing calls of the file system
#include "rk.h"
#include <sys/stat.h>
#include <ftw.h>
#include <dirent.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <fcntl.h>
#include <unistd.h>
enum { CAP = 64, DEPTH = 16, MAXP = 64, T0 = 1700000000 };
static void dir(void) { static pid_t pid; if (pid == getpid()) return; char d[32]; snprintf(d, sizeof d, "p%d", pid = getpid()); mkdir(d, 0700); if (chdir(d)) {} }
static RKRadarDesc desc; static RKConfig *configs; static uint32_t configIndex; static RKBuffer pulses; static uint32_t pulseIndex; static RKWaveform *W[2]; static RKFileManager *manager; static RKRawDataRecorder *rec; static RKBuffer pr;
enum { NEVER, MAY, MUST };
static struct { int want; uint64_t config; RKRawDataType type; RKPulseHeader h; } offered[MAXP]; static int n; static int maxDepth; static bool faulty, refused;
static int got, lastGot; static struct { char name[256]; off_t size; } files[MAXP]; static int nf;
static void setup(void) {
    rkQuiet(); configs = calloc(10, sizeof(RKConfig)); RKPulseBufferAlloc(&pulses, CAP, DEPTH); RKPulseBufferAlloc(&pr, CAP, 1); manager = calloc(1, sizeof(RKFileManager));
    for (int k = 0; k < 2; k++) {
        W[k] = RKWaveformInitWithCountAndDepth(k ? 1 : 3, k ? 7 : 10); snprintf(W[k]->name, RKNameLength, k ? "w" : "waveform-of-three"); W[k]->type = RKWaveformTypeIsComplex; W[k]->fc = 2.5e6 * k; W[k]->fs = 5e6;
        for (int g = 0; g < W[k]->count; g++) { W[k]->filterCounts[g] = g ? 2 : 1; for (int j = 0; j < W[k]->filterCounts[g]; j++) { W[k]->filterAnchors[g][j] = (RKFilterAnchor){.name = j, .origin = j * 5, .length = 5, .maxDataLength = j ? 100 : RKMaximumGateCount, .filterGain = 0.5f}; } for (int i = 0; i < (int)W[k]->depth; i++) { W[k]->samples[g][i] = (RKComplex){i + k, g + 0.5f}; W[k]->iSamples[g][i] = (RKInt16C){100 * i + k, -g}; } }
    }
}
static uint32_t gates(int k) { return 1 + (k * 7) % 13; }
static RKInt16C raw(int k, int c, int g) { return (RKInt16C){k * 100 + c * 50 + g, -(k + g * 3 + c)}; }
static RKComplex cooked(int k, int c, int g) { return (RKComplex){k + 0.25f * c + g * 8, -1.5f * g - k}; }
static void newConfig(void) { const uint32_t next = (configIndex + 1) % 10; RKConfig *c = &configs[next]; const uint64_t i = configs[configIndex].i + 1; memset(c, 0, sizeof *c); c->i = i; c->waveform = W[i & 1]; c->sweepElevation = 0.5f * (i % 100); snprintf(c->vcpDefinition, sizeof c->vcpDefinition, "vcp %d", (int)i); strcpy(c->waveformName, W[i & 1]->name); c->prt[0] = 1e-3f * (i & 3); configIndex = next; }
static void readBack(const char *name, bool partial) {   // what a file says
    FILE *f = fopen(name, "r"); mc_assert(f, "announced", "%s is not there", name);
    RKFileHeader *h = RKFileHeaderRead(f); mc_assert(h, "header", "%s has no header", name); int count = 0;
    while (true) {
        RKPulse *p = RKGetPulseFromBuffer(pr, 0); p->header.capacity = CAP;
        const int r = RKReadPulseFromFileReference(p, h, f); if (r != RKResultSuccess) { mc_assert(partial || r == RKResultNothingToRead, "cut", "%s ends within a pulse after %d", name, count); break; }
        const int k = (int)p->header.i - 1000; mc_assert(k >= 0 && k < n, "content", "%s: pulse %lu was not offered", name, (unsigned long)p->header.i);
        mc_assert(k > lastGot, "order", "%s: pulse %d after %d", name, k, lastGot); if (!partial && !refused) for (int j = lastGot + 1; j < k; j++) mc_assert(offered[j].want != MUST, "lost", "pulse %d was lost before %d in %s", j, k, name);
        lastGot = k; got++; count++; mc_count(1);
        mc_assert(offered[k].want != NEVER, "off", "pulse %d is in %s although recording was off", k, name);
        mc_assert(h->config.i == offered[k].config, "config", "pulse %d of configuration %lu is in %s of configuration %lu", k, (unsigned long)offered[k].config, name, (unsigned long)h->config.i);
        const RKPulseHeader *e = &offered[k].h, *a = &p->header; const int cooked_ = h->dataType == RKRawDataTypeAfterMatchedFilter;
        mc_assert(a->n == e->n && a->t == e->t && a->gateCount == e->gateCount && a->downSampledGateCount == (cooked_ ? e->downSampledGateCount : 0) && a->marker == e->marker && a->time.tv_sec == e->time.tv_sec && a->time.tv_usec == e->time.tv_usec && a->timeDouble == e->timeDouble && a->rawAzimuth.u32 == e->rawAzimuth.u32 && a->gateSizeMeters == e->gateSizeMeters && a->elevationDegrees == e->elevationDegrees && a->azimuthDegrees == e->azimuthDegrees && a->pulseWidthSampleCount == e->pulseWidthSampleCount, "content", "%s: header of pulse %d: n %lu t %lu gates %u %u time %ld.%06ld %f", name, k, (unsigned long)a->n, (unsigned long)a->t, a->gateCount, a->downSampledGateCount, (long)a->time.tv_sec, (long)a->time.tv_usec, a->timeDouble);
        for (int c = 0; c < 2; c++) for (int g = 0; g < (int)(cooked_ ? a->downSampledGateCount : a->gateCount); g++) {
            if (cooked_) { const RKComplex x = RKGetComplexDataFromPulse(p, c)[g], y = cooked(k, c, g); mc_assert(x.i == y.i && x.q == y.q, "content", "%s: pulse %d channel %d gate %d", name, k, c, g); }
            else { const RKInt16C x = RKGetInt16CDataFromPulse(p, c)[g], y = raw(k, c, g); mc_assert(x.i == y.i && x.q == y.q, "content", "%s: pulse %d channel %d gate %d", name, k, c, g); }
        }
        if (count == 1) {
            mc_assert(h->dataType == offered[k].type, "header", "%s: type %d", name, h->dataType);
            const RKWaveform *w = W[h->config.i & 1], *v = h->config.waveform; char vcp[32]; snprintf(vcp, sizeof vcp, "vcp %d", (int)h->config.i);
            mc_assert(!strcmp(h->config.vcpDefinition, vcp) && h->config.sweepElevation == 0.5f * (h->config.i % 100) && !strcmp(h->desc.name, "radar") && h->desc.pulseCapacity == CAP && h->version == RKRawDataVersion, "header", "%s: '%s' '%s'", name, h->config.vcpDefinition, h->desc.name);
            mc_assert(v && v->count == w->count && v->depth == w->depth && v->type == w->type && v->fc == w->fc && v->fs == w->fs && !strcmp(v->name, w->name), "waveform", "%s: waveform", name);
            for (int g = 0; g < w->count; g++) { mc_assert(v->filterCounts[g] == w->filterCounts[g], "waveform", "%s: filters of group %d", name, g); for (int j = 0; j < w->filterCounts[g]; j++) mc_assert(!memcmp(&v->filterAnchors[g][j], &w->filterAnchors[g][j], offsetof(RKFilterAnchor, sensitivityGain)), "waveform", "%s: filter %d of group %d", name, j, g); mc_assert(!memcmp(v->samples[g], w->samples[g], w->depth * sizeof(RKComplex)) && !memcmp(v->iSamples[g], w->iSamples[g], w->depth * sizeof(RKInt16C)), "waveform", "%s: samples of group %d", name, g); }
            char e[256]; time_t t = offered[k].h.time.tv_sec; strftime(e, sizeof e, "/%Y%m%d/P-%Y%m%d-%H%M%S", gmtime(&t)); snprintf(e + strlen(e), 16, ".%03d.%s", (int)offered[k].h.time.tv_usec / 1000, h->dataType == RKRawDataTypeFromTransceiver ? "rkr" : "rkc");
            mc_assert(strlen(name) > strlen(e) && !strcmp(name + strlen(name) - strlen(e), e), "name", "%s starts with a pulse of %s", name, e);
        }
    }
    if (!partial) mc_assert(count > 0 && count <= (maxDepth ? maxDepth : 1), "rotation", "%s has %d pulses, at most %d", name, count, maxDepth);
    for (int i = 0; i < 2; i++) RKWaveformFree(i ? h->config.waveform : h->config.waveformDecimate);
    free(h); fclose(f);
}
static bool damaged;   // a write failed in the file at hand
int __wrap_RKFileManagerAddFile(RKFileManager *m, const char *name, RKFileType t) {
    mc_assert(m == manager && t == RKFileTypeIQ, "announced", "type %d", t); mc_assert(nf < MAXP, "harness", "files");
    for (int k = 0; k < nf; k++) mc_assert(strcmp(files[k].name, name), "announced", "%s was announced twice", name);
    struct stat s; mc_assert(!stat(name, &s), "announced", "%s is not there", name);
    snprintf(files[nf].name, sizeof files[nf].name, "%s", name); files[nf++].size = s.st_size;
    if (!damaged) readBack(name, false);
    damaged = false; return RKResultSuccess;
}
int __real_open(const char *, int, ...); ssize_t __real_write(int, const void *, size_t);
int __wrap_open(const char *p, int fl, ...) { if ((fl & O_WRONLY) && mc_is_active() && faulty && mc_fault(2, "open")) { refused = true; errno = EACCES; return -1; } return __real_open(p, fl, 0644); }
ssize_t __wrap_write(int fd, const void *b, size_t z) {
    if (fd > 2 && mc_is_active() && faulty && z > 1) switch (mc_fault(5, "write")) { case 1: z = 1; break; case 2: z = z - 1; break; case 3: z = z / 2; break; case 4: errno = EINTR; return -1; }
    return __real_write(fd, b, z);
}
static void pulse(int want, uint64_t step) {
    RKPulse *p = RKGetPulseFromBuffer(pulses, pulseIndex); RKPulseHeader *h = &p->header; const int k = n; mc_assert(k < MAXP, "harness", "pulses");
    memset(h, 0, sizeof *h); h->i = 1000 + k; h->n = 7 + k; h->t = 12345 + k; h->capacity = CAP; h->gateCount = gates(k); h->downSampledGateCount = (gates(k) + 1) / 2; h->pulseWidthSampleCount = 5; h->marker = RKMarkerSweepMiddle; const uint64_t us = 100000 + k * step; h->time = (struct timeval){T0 + us / 1000000, us % 1000000}; h->timeDouble = T0 + us * 1e-6; h->rawAzimuth.u32 = 77 + k; h->configIndex = configIndex; h->gateSizeMeters = 30; h->elevationDegrees = 2.5f; h->azimuthDegrees = k;
    for (int c = 0; c < 2; c++) for (int g = 0; g < CAP; g++) { RKGetInt16CDataFromPulse(p, c)[g] = raw(k, c, g); RKGetComplexDataFromPulse(p, c)[g] = cooked(k, c, g); }
    offered[k].want = configs[configIndex].i > 1003 ? want : NEVER; offered[k].config = configs[configIndex].i; offered[k].h = *h; offered[k].type = rec->rawDataType;
    n++; pulseIndex = (pulseIndex + 1) % DEPTH; h->s = RKPulseStatusProcessed | RKPulseStatusRingProcessed | RKPulseStatusHasPosition | RKPulseStatusHasIQData | RKPulseStatusUsedForMoments;
}
static int base;   // pulses before the recorder was started
static void settle(void) { for (int k = 0; rec->tic + base < (uint64_t)n + 1; k++) { mc_assert(k < 400, "stuck", "%lu of %d pulses were handled", (unsigned long)rec->tic - 1 + base, n); mc_sleep_us(5000); } }
static int gone(const char *p, const struct stat *s, int t, struct FTW *f) { return remove(p); }
static void wipe(void) { nftw("data", gone, 8, FTW_DEPTH | FTW_PHYS); }
static void wired(int cache) {
    n = nf = got = base = 0; lastGot = -1; memset(offered, 0, sizeof offered); damaged = false; pulseIndex = 0; configIndex = 0; memset(configs, 0, 10 * sizeof(RKConfig)); memset(&desc, 0, sizeof desc); desc.pulseCapacity = CAP; desc.pulseBufferDepth = DEPTH; desc.pulseToRayRatio = 2; desc.configBufferDepth = 10; strcpy(desc.name, "radar"); strcpy(desc.filePrefix, "P"); strcpy(desc.dataPath, "data");
    for (int k = 0; k < DEPTH; k++) RKGetPulseFromBuffer(pulses, k)->header.s = RKPulseStatusVacant;
    rec = RKRawDataRecorderInit(); RKRawDataRecorderSetEssentials(rec, &desc, manager, configs, &configIndex, pulses, &pulseIndex); RKRawDataRecorderSetCacheSize(rec, cache); RKRawDataRecorderSetMaximumRecordDepth(rec, maxDepth);
}
static void folder(void) {   // the files there are the ones that were announced
    int there = 0; DIR *d = opendir("data/iq"); if (d) { struct dirent *e, *q; while ((e = readdir(d))) if (e->d_name[0] != '.') { char s[300]; snprintf(s, sizeof s, "data/iq/%s", e->d_name); DIR *u = opendir(s); if (!u) continue; while ((q = readdir(u))) if (q->d_name[0] != '.') { there++; bool in = false; char w[600]; snprintf(w, sizeof w, "%s/%s", s, q->d_name); for (int k = 0; k < nf; k++) in |= !strcmp(files[k].name, w); mc_assert(in, "announced", "%s was left and not announced", w); } closedir(u); } closedir(d); }
    for (int k = 0; k < nf; k++) { struct stat s; mc_assert(!stat(files[k].name, &s) && s.st_size == files[k].size, "complete", "%s was announced with %ld bytes and has %ld", files[k].name, (long)files[k].size, (long)s.st_size); }
    mc_assert(there == nf, "announced", "%d files, %d announced", there, nf);
}
static void finish(void) {
    for (int j = lastGot + 1; j < n && !refused; j++) mc_assert(offered[j].want != MUST, "lost", "pulse %d was lost, of %d", j, n);
    folder(); for (int k = 0; k < nf; k++) mc_outcome(files[k].size); mc_outcome(got);
    RKRawDataRecorderFree(rec); wipe();
}
// sizes of the cache: smaller than anything, the file header's own, one that ends on a boundary, between, everything
static int cacheOf(int c, RKRawDataType t) { static const int C[] = {64, 4096, 0, 6000, 65536}; if (C[c]) return C[c]; int z = sizeof(RKFileHeader) + sizeof(RKWaveFileGlobalHeader); for (int g = 0; g < W[1]->count; g++) z += W[1]->filterCounts[g] * sizeof(RKFilterAnchor) + W[1]->depth * (sizeof(RKComplex) + sizeof(RKInt16C)); return z + sizeof(RKPulseHeader) + (t == RKRawDataTypeFromTransceiver ? 8 : 16); }
static void histories(void) {
    static const int D[] = {1, 2, 100}; RKRawDataType type = mc_choose(2, "type") ? RKRawDataTypeFromTransceiver : RKRawDataTypeAfterMatchedFilter;
    const int cache = cacheOf(mc_choose(5, "cache"), type); maxDepth = D[mc_choose(3, "depth")]; const int N = mc_param("events", 6); const int first = 1002 + mc_choose(2, "first");   // near the first configuration that is recorded
    wired(cache); configs[0].i = first; configs[0].waveform = W[first & 1]; newConfig(); if (mc_choose(2, "slot")) while (configIndex) newConfig();
    RKRawDataRecorderSetRawDataType(rec, type); bool on = mc_choose(2, "on"); RKRawDataRecorderSetRecord(rec, on);
    mc_assert(RKRawDataRecorderStart(rec) == RKResultSuccess, "start", "start failed");
    for (int e = 0; e < N; e++) {
        switch (mc_choose(5, "event")) {
            case 4: type = type == RKRawDataTypeFromTransceiver ? RKRawDataTypeAfterMatchedFilter : RKRawDataTypeFromTransceiver; RKRawDataRecorderSetRawDataType(rec, type); break;
            case 1: newConfig(); /* fallthrough */
            case 0: pulse(on ? MUST : NEVER, 1000); settle(); break;
            case 2: on = !on; RKRawDataRecorderSetRecord(rec, on); break;
            case 3: mc_assert(RKRawDataRecorderStop(rec) == RKResultSuccess, "stop", "stop failed"); folder(); base = n; mc_assert(RKRawDataRecorderStart(rec) == RKResultSuccess, "start", "start failed"); mc_sleep_us(20000); break;
        }
    }
    mc_assert(RKRawDataRecorderStop(rec) == RKResultSuccess, "stop", "stop failed"); finish();
}
static void schedules(void) {
    static const int C[] = {64, 6000, 65536}; maxDepth = mc_choose(2, "depth") ? 2 : 100; wired(C[mc_choose(3, "cache")]); configs[0].i = 2000; configs[0].waveform = W[0]; newConfig(); const bool on = mc_choose(2, "on"); const int what = mc_choose(3, "what");
    RKRawDataRecorderSetRecord(rec, on); mc_assert(RKRawDataRecorderStart(rec) == RKResultSuccess, "start", "start failed");
    mc_watch(&rec->record, sizeof rec->record); mc_watch((void *)&rec->state, sizeof rec->state); mc_watch(&pulseIndex, sizeof pulseIndex);
    bool now = on; mc_explore(true);
    pulse(now ? MUST : NEVER, 1000); if (what != 2) pulse(now ? MUST : NEVER, 1000);
    if (what == 0) {   // switched while pulses are on their way
        for (int k = 0; k < n; k++) if ((uint64_t)k + 1 >= rec->tic) offered[k].want = MAY;
        const int before = n; RKRawDataRecorderSetRecord(rec, now = !now); pulse(now ? MUST : NEVER, 1000);
        if (!now) for (int k = 0; k < before; k++) if (on && (uint64_t)k + 1 >= rec->tic) offered[k].want = MAY;
        pulse(now ? MUST : NEVER, 1000); settle();
    } else if (what == 1) {   // settled and switched
        settle(); RKRawDataRecorderSetRecord(rec, now = !now); pulse(now ? MUST : NEVER, 1000); newConfig(); pulse(now ? MUST : NEVER, 1000); settle();
    } else pulse(now ? MUST : NEVER, 1000);
    // stopped at any moment: what it had taken is there
    const int sure = (int)rec->tic - 1; for (int k = 0; k < n; k++) if (k >= sure && offered[k].want == MUST) offered[k].want = MAY;
    mc_assert(RKRawDataRecorderStop(rec) == RKResultSuccess, "stop", "stop failed");
    mc_explore(false); mc_watch_clear(); finish();
}
static void faults(void) {
    static const int C[] = {64, 4096, 6000, 65536}; faulty = true; maxDepth = mc_choose(2, "depth") ? 2 : 100; wired(C[mc_choose(4, "cache")]); configs[0].i = 2000; configs[0].waveform = W[0]; newConfig(); if (mc_choose(2, "type")) RKRawDataRecorderSetRawDataType(rec, RKRawDataTypeFromTransceiver);
    RKRawDataRecorderSetRecord(rec, true); mc_assert(RKRawDataRecorderStart(rec) == RKResultSuccess, "start", "start failed");
    for (int k = 0; k < 5; k++) { if (k == 3) newConfig(); pulse(MUST, 1000); settle(); }
    mc_assert(RKRawDataRecorderStop(rec) == RKResultSuccess, "stop", "stop failed"); finish(); faulty = false;
}
static void body(void) {
    static bool q; if (!q) { q = true; dir(); if (!mc_replaying() && !freopen("/dev/null", "w", stderr)) {} }
    wipe(); faulty = refused = false; const int part = mc_param("part", 0); if (part == 0) histories(); else if (part == 1) schedules(); else faults();
}
int main(int argc, char **argv) {
    mc_config cfg = {.name = "c16_record", .setup = setup, .body = body, .bound = 0, .shard_depth = 7, .run_seconds = 20, .vt_limit_us = 60000000, .step_limit = 400000};
    return mc_main(argc, argv, &cfg);
}
