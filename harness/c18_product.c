// C18: a product file read back is the product that was written.
// part 0: headers and geometries        part 1: every assignment of a value alphabet to small arrays
// part 2: truncations and corruptions   part 3: collections    part 4: sweeps    part 5: refusals and faults of writing
#include "rk.h"
#include <math.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/stat.h>
static void dir(void) { static pid_t pid; if (pid == getpid()) return; char d[32]; snprintf(d, sizeof d, "p%d", pid = getpid()); mkdir(d, 0700); if (chdir(d)) {} }
static bool near(double x, double y, double rel) { return fabs(x - y) <= rel * fabs(y); }
static RKProduct *make(int rays, int gates, int scan, const char *symbol, const char *name) {
    RKProduct *p; mc_assert(RKProductBufferAlloc(&p, 1, rays, gates), "harness", "alloc"); RKProductHeader *h = &p->header;
    strcpy(p->desc.name, name); strcpy(p->desc.unit, "dBZ"); strcpy(p->desc.colormap, "Reflectivity"); strcpy(p->desc.symbol, symbol);
    strcpy(h->radarName, "radar"); strcpy(h->waveformName, "s01"); strcpy(h->vcpDefinition, "vol 2,4,6 160,18");
    h->isPPI = scan == 0; h->isRHI = scan == 1; h->startTime = 1700000000; h->endTime = h->startTime + 20; h->gateSizeMeters = 37.5f; h->prt[0] = 1e-3f; h->pw[0] = 1.5e-6f; h->wavelength = 0.03f;
    h->latitude = 35.25; h->longitude = -97.5; h->heading = 12.5f; h->radarHeight = 401; h->sweepElevation = 4.5f; h->sweepAzimuth = 271.25f;
    for (int k = 0; k < rays; k++) { p->startAzimuth[k] = scan == 1 ? 271.25f : fmodf(355.5f + k, 360); p->endAzimuth[k] = scan == 1 ? 271.25f : fmodf(356.5f + k, 360); p->startElevation[k] = scan == 1 ? 0.5f * k : 4.5f; p->endElevation[k] = scan == 1 ? 0.5f * k + 0.5f : 4.5f; }
    return p;
}
typedef struct { RKProductDesc desc; RKProductHeader header; RKFloat *a[5]; uint32_t capacity; } Snap;
static Snap snap(const RKProduct *p) {
    Snap s = {.desc = p->desc, .header = p->header, .capacity = p->capacity}; const RKFloat *a[] = {p->startAzimuth, p->endAzimuth, p->startElevation, p->endElevation, p->data};
    for (int k = 0; k < 5; k++) { const size_t n = (k == 4 ? p->capacity : p->header.rayCount) * sizeof(RKFloat); s.a[k] = malloc(n); memcpy(s.a[k], a[k], n); }
    return s;
}
static void unaltered(const RKProduct *p, Snap *s) {
    const RKFloat *a[] = {p->startAzimuth, p->endAzimuth, p->startElevation, p->endElevation, p->data}; static const char *names[] = {"start azimuth", "end azimuth", "start elevation", "end elevation", "data"};
    mc_assert(!memcmp(&p->desc, &s->desc, sizeof s->desc) && !memcmp(&p->header, &s->header, sizeof s->header) && p->capacity == s->capacity, "altered", "the header is altered by writing");
    for (int k = 0; k < 5; k++) { mc_assert(!memcmp(a[k], s->a[k], (k == 4 ? p->capacity : p->header.rayCount) * sizeof(RKFloat)), "altered", "the %s is altered by writing", names[k]); free(s->a[k]); }
}
static bool lost(float x) { return !isfinite(x) || x == (float)W2_MISSING_DATA || x == (float)W2_RANGE_FOLDED; }
static void compare(const RKProduct *w, const RKProduct *r, const char *symbol) {
    const RKProductHeader *a = &w->header, *b = &r->header;
    mc_assert(a->rayCount == b->rayCount && a->gateCount == b->gateCount, "geometry", "%u x %u, wrote %u x %u", b->rayCount, b->gateCount, a->rayCount, a->gateCount);
    mc_assert(a->isPPI == b->isPPI && a->isRHI == b->isRHI, "scan", "PPI %d RHI %d, wrote %d %d", b->isPPI, b->isRHI, a->isPPI, a->isRHI);
    mc_assert(!strcmp(w->desc.name, r->desc.name) && !strcmp(w->desc.unit, r->desc.unit) && !strcmp(w->desc.colormap, r->desc.colormap) && !strcmp(symbol, r->desc.symbol), "description", "'%s' '%s' '%s' '%s', wrote '%s' '%s' '%s' '%s'", r->desc.name, r->desc.unit, r->desc.colormap, r->desc.symbol, w->desc.name, w->desc.unit, w->desc.colormap, symbol);
    mc_assert(!strcmp(a->radarName, b->radarName) && !strcmp(a->waveformName, b->waveformName) && !strcmp(a->vcpDefinition, b->vcpDefinition), "names", "'%s' '%s' '%s', wrote '%s' '%s' '%s'", b->radarName, b->waveformName, b->vcpDefinition, a->radarName, a->waveformName, a->vcpDefinition);
    mc_assert(a->latitude == b->latitude && a->longitude == b->longitude && a->heading == b->heading && a->radarHeight == b->radarHeight, "location", "%f %f %f %f", b->latitude, b->longitude, b->heading, b->radarHeight);
    mc_assert(a->startTime == b->startTime, "time", "%ld, wrote %ld", (long)b->startTime, (long)a->startTime);
    mc_assert(a->gateSizeMeters == b->gateSizeMeters, "gate size", "%f, wrote %f", b->gateSizeMeters, a->gateSizeMeters);
    if (a->isPPI) mc_assert(a->sweepElevation == b->sweepElevation, "sweep elevation", "%f, wrote %f", b->sweepElevation, a->sweepElevation);
    if (a->isRHI) mc_assert(a->sweepAzimuth == b->sweepAzimuth, "sweep azimuth", "%f, wrote %f", b->sweepAzimuth, a->sweepAzimuth);
    mc_assert(fabs(1 / b->prt[0] - 1 / a->prt[0]) < 0.51, "prf", "%f Hz, wrote %f Hz", 1 / b->prt[0], 1 / a->prt[0]);
    mc_assert(near(b->wavelength, a->wavelength, 1e-5), "wavelength", "%g, wrote %g", b->wavelength, a->wavelength);
    mc_assert(near(b->pw[0], a->pw[0], 1e-5), "pulse width", "%g, wrote %g", b->pw[0], a->pw[0]);
    mc_assert(!memcmp(a->noise, b->noise, sizeof a->noise) && !memcmp(a->systemZCal, b->systemZCal, sizeof a->systemZCal) && a->systemDCal == b->systemDCal && a->systemPCal == b->systemPCal && a->SNRThreshold == b->SNRThreshold && a->SQIThreshold == b->SQIThreshold, "parameters", "noise %f %f, system %f %f %f %f, thresholds %f %f", b->noise[0], b->noise[1], b->systemZCal[0], b->systemZCal[1], b->systemDCal, b->systemPCal, b->SNRThreshold, b->SQIThreshold);
    for (int i = 0; i < 2; i++) mc_assert(a->ZCal[i][0] == b->ZCal[i][0] && a->ZCal[i][1] == b->ZCal[i][1] && a->DCal[i] == b->DCal[i] && a->PCal[i] == b->PCal[i], "calibration", "filter %d", i);
    for (uint32_t k = 0; k < a->rayCount; k++) {
        mc_assert(w->startAzimuth[k] == r->startAzimuth[k] && w->startElevation[k] == r->startElevation[k], "angles", "ray %u of %u: azimuth %f elevation %f, wrote %f %f", k, a->rayCount, r->startAzimuth[k], r->startElevation[k], w->startAzimuth[k], w->startElevation[k]);
        for (uint32_t g = 0; g < a->gateCount; g++) {
            const float x = w->data[k * a->gateCount + g], y = r->data[k * a->gateCount + g];
            if (lost(x)) mc_assert(isnan(y), "missing", "ray %u gate %u: %g, wrote %g", k, g, y, x); else mc_assert(x == y, "value", "ray %u gate %u: %g, wrote %g", k, g, y, x);
        }
    }
    mc_count(a->rayCount * a->gateCount);
}
static void roundtrip(RKProduct *p, const char *file, const char *symbol) {
    Snap s = snap(p); const int r = RKProductFileWriterNC(p, file); mc_assert(r == RKResultSuccess, "write", "result %x", r); unaltered(p, &s);
    RKProduct *q = RKProductFileReaderNC(file, false); mc_assert(q, "read", "NULL"); compare(p, q, symbol); RKProductBufferFree(q, 1);
}
static void headers(void) {
    static const int R[] = {1, 2, 3, 7, 90, 361, 1500}, G[] = {1, 2, 3, 63, 100, 1001}; static const float PRT[] = {1e-3f, 0.5e-3f, 1.f / 3000, 0.3e-3f, 1.f / 1100, 2e-3f, 1.f / 7}, PW[] = {1e-6f, 0.4e-6f, 100e-6f, 1.234e-6f}, WL[] = {0.0319f, 0.1f, 0.0086f};
    const int scan = mc_choose(3, "scan"), R0 = R[mc_choose(7, "rays")], G0 = G[mc_choose(6, "gates")], what = mc_choose(7, "what");
    static const struct { const char *name, *symbol; } D[] = {{"Intensity", "Z"}, {"KDP", "K"}, {"Co-cross_Differential_Phase_V", "Pxv"}, {"Gate", "Y"}, {"Beam", "user789"}}; const int d = what == 0 ? mc_choose(5, "product") : 0;
    RKProduct *p = make(R0, G0, scan, D[d].symbol, D[d].name); RKProductHeader *h = &p->header;
    for (int k = 0; k < R0 * G0; k++) p->data[k] = (k * 37 % 1999) * 0.5f - 400;
    if (what == 1) h->prt[0] = PRT[mc_choose(7, "prt")], h->wavelength = WL[mc_choose(3, "wavelength")];
    if (what == 2) h->pw[0] = PW[mc_choose(4, "pw")];
    if (what == 3) { static const int L[] = {0, 1, 126, 127}; const int n = L[mc_choose(4, "length")], f = mc_choose(6, "field"); char *t = f == 0 ? h->radarName : f == 1 ? h->waveformName : f == 2 ? p->desc.unit : f == 3 ? p->desc.colormap : f == 4 ? h->vcpDefinition : p->desc.name; if (f == 5 && n == 0) mc_skip(); memset(t, 'a', n); t[n] = 0; if (f == 4 && n == 127) memset(t, 'v', RKMaximumCommandLength - 1), t[RKMaximumCommandLength - 1] = 0; }
    if (what == 4) { h->latitude = mc_choose(2, "south") ? -89.123456789 : 0; h->longitude = mc_choose(2, "west") ? -179.987654321 : 180; h->heading = 359.99f; h->radarHeight = -3; h->startTime = (time_t[]){1, 2147483647, 1700000001}[mc_choose(3, "time")]; }
    if (what == 5) { float *f[] = {&h->noise[0], &h->noise[1], &h->systemZCal[0], &h->systemZCal[1], &h->systemDCal, &h->systemPCal, &h->ZCal[0][0], &h->ZCal[0][1], &h->ZCal[1][0], &h->ZCal[1][1], &h->DCal[0], &h->DCal[1], &h->PCal[0], &h->PCal[1], &h->SNRThreshold, &h->SQIThreshold}; const int m = mc_choose(17, "parameter"); for (int k = 0; k < 16; k++) *f[k] = m == 16 || m == k ? 0.37f * (k + 1) - 3 : 0; }
    if (what == 6) { h->gateSizeMeters = (float[]){0.1f, 15, 250, 1000}[mc_choose(4, "size")]; h->sweepElevation = mc_choose(2, "negative") ? -1.5f : 179.5f; h->sweepAzimuth = 0; }
    static const char *F[] = {"RADAR-20231114-221320-E4.5-%s.nc", "./a.b/RADAR-20231114-221320-E4.5-%s.nc", "R-%s.nc"}; char file[256]; snprintf(file, sizeof file, F[mc_choose(what == 0 ? 3 : 1, "file")], D[d].symbol); RKPreparePath(file);
    roundtrip(p, file, D[d].symbol); RKProductBufferFree(p, 1); unlink(file);
}
static void values(void) {
    static const float A[] = {0, 1.5f, -32.25f, NAN, INFINITY, -INFINITY, W2_MISSING_DATA, W2_RANGE_FOLDED, 3.4e38f, 1e-42f, -99899.f, -99902.f};
    static const int S[][2] = {{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}}; const int s = mc_choose(mc_param("shapes", 5), "shape"), scan = mc_choose(3, "scan"), n = S[s][0] * S[s][1];
    RKProduct *p = make(S[s][0], S[s][1], scan, "Z", "Intensity");
    for (int k = 0; k < n; k++) p->data[k] = A[mc_choose(12, "value")];
    roundtrip(p, "R-Z.nc", "Z"); RKProductBufferFree(p, 1);
}
// a corrupted count makes the NetCDF library ask for gigabytes: it gets none
const char *__asan_default_options(void) { return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=64"; }
static uint8_t image[16384], copy[16384]; static long size;
static void put(const char *file, const uint8_t *d, long n) { FILE *f = fopen(file, "w"); mc_assert(f && (n == 0 || fwrite(d, n, 1, f) == 1) && fclose(f) == 0, "harness", "write"); }
#include <netcdf.h>
#include <setjmp.h>
#include <signal.h>
static sigjmp_buf escape; static void escaped(int sig) { siglongjmp(escape, sig); }
static bool large(const char *file) {   // more than this check wants to spend, or a file that the NetCDF library itself crashes on
    static const int G[] = {SIGSEGV, SIGBUS, SIGFPE}; struct sigaction sa = {.sa_handler = escaped, .sa_flags = SA_ONSTACK}, was[3]; static bool l; int nc, nd = 0; l = false;
    for (int k = 0; k < 3; k++) sigaction(G[k], &sa, &was[k]);
    const int opened = sigsetjmp(escape, 1) ? 1 : nc_open(file, NC_NOWRITE, &nc) == NC_NOERR ? 0 : 2;
    for (int k = 0; k < 3; k++) sigaction(G[k], &was[k], NULL);
    if (opened == 1) return true;
    if (opened == 2) return false; 
    size_t v = 1, x; nc_inq_ndims(nc, &nd); for (int k = 0; k < nd; k++) if (nc_inq_dimlen(nc, k, &x) == NC_NOERR) { if (x > 10000) l = true; v *= x ? x : 1; if (v > 40000) l = true; }
    nc_close(nc); return l;
}
static void attempt(const char *file, const char *what, long at) {
    if (large(file)) return;
    mc_note("%s at %ld", what, at);
    RKProduct *q = RKProductFileReaderNC(file, false);
    if (q) { volatile float sum = 0; mc_assert(q->capacity == q->header.rayCount * q->header.gateCount, "geometry", "%s at %ld", what, at); for (uint32_t k = 0; k < q->capacity; k++) sum += q->data[k]; mc_assert(memchr(q->desc.name, 0, RKNameLength) && memchr(q->header.radarName, 0, RKNameLength) && memchr(q->header.vcpDefinition, 0, RKMaximumCommandLength), "terminated", "%s at %ld", what, at); RKProductBufferFree(q, 1); }
    RKSweep *s = RKSweepFileRead(file); if (s) RKSweepFree(s);
    mc_count(1);
}
static void corruptions(void) {
    const int scan = mc_choose(3, "scan"), step = mc_choose(64, "part"); RKProduct *p = make(3, 4, scan, "Z", "Intensity"); for (int k = 0; k < 12; k++) p->data[k] = k - 3; p->data[5] = NAN;
    mc_assert(RKProductFileWriterNC(p, "R-Z.nc") == RKResultSuccess, "write", "-"); RKProductBufferFree(p, 1);
    FILE *f = fopen("R-Z.nc", "r"); size = fread(image, 1, sizeof image, f); fclose(f); mc_assert(size > 1000 && size < (long)sizeof image, "harness", "size %ld", size);
    for (long n = step; n < size; n += 64) { put("R-Z.nc", image, n); attempt("R-Z.nc", "truncation", n); }
    static const uint8_t V[] = {0, 1, 2, 3, 4, 5, 6, 0x7f, 0x80, 0xff, 0x0a, 0x0b, 0x0c, 'A'}; const int nv = mc_param("values", 6);
    for (long n = step; n < size; n += 64) for (int v = 0; v < nv; v++) { memcpy(copy, image, size); if (copy[n] == V[v]) continue; copy[n] = V[v]; put("R-Z.nc", copy, size); attempt("R-Z.nc", "substitution", n); }
    // attributes of another type or length, and variables of another shape
    if (step < 32) {
        static const char *att[] = {"TypeName", "Unit-value", "ColorMap-value", "ScanType", "radarName-value", "Waveform", "RadarKit-VCP-Definition", "LatitudeDouble", "LongitudeDouble", "Heading", "Height", "Elevation", "Azimuth", "GateSize", "Time", "Wavelength-value", "PRF-value", "Nyquist_Vel-value", "PulseWidth-value", "PulseWidth-unit", "NoiseH-ADU", "SystemZCalV-dB", "ZCalH2-dB", "PCal1-Radians", "SNRThreshold-dB", "Latitude", "Longitude"};
        for (int a = step; a < 27; a += 32) for (int t = 0; t < 10; t++) {
            put("R-Z.nc", image, size); int nc; mc_assert(nc_open("R-Z.nc", NC_WRITE, &nc) == NC_NOERR, "harness", "open"); nc_redef(nc); static double d[2000]; static char text[4000]; memset(text, 'x', sizeof text);
            if (t == 0) nc_del_att(nc, NC_GLOBAL, att[a]);
            else if (t < 5) nc_put_att_text(nc, NC_GLOBAL, att[a], (int[]){0, 1, 128, 3999}[t - 1], text);
            else { static const double z[] = {0, 0, -1, 1e30}; d[0] = t == 5 ? 0 : t == 6 ? NAN : z[t % 4]; nc_put_att_double(nc, NC_GLOBAL, att[a], t % 2 ? NC_DOUBLE : NC_INT, t < 8 ? 1 : t == 8 ? 2 : 2000, d); }
            nc_enddef(nc); nc_close(nc); attempt("R-Z.nc", att[a], t);
        }
    } else {
        static const char *var[] = {"Azimuth", "Elevation", "Beamwidth", "GateWidth", "Intensity"};
        for (int a = 0; a < 5; a++) for (int t = step - 32; t < 48; t += 32) {   // shape of the variable: none, ray, gate, ray x gate, gate x ray, more; as floats or text
            int nc, d[4], v[5]; mc_assert(nc_create("R-Z.nc", NC_CLOBBER, &nc) == NC_NOERR, "harness", "create"); nc_def_dim(nc, t % 2 ? "Azimuth" : "Beam", 3, &d[0]); nc_def_dim(nc, "Gate", 4, &d[1]); nc_def_dim(nc, "other", 50, &d[2]); nc_def_dim(nc, "more", 2, &d[3]);
            nc_put_att_text(nc, NC_GLOBAL, "TypeName", 9, "Intensity");
            const int dims[8][3] = {{0}, {d[0]}, {d[1]}, {d[2]}, {d[0], d[1]}, {d[1], d[0]}, {d[2], d[1]}, {d[0], d[1], d[3]}}, nd[8] = {0, 1, 1, 1, 2, 2, 2, 3};
            for (int k = 0; k < 5; k++) { const int shape = k == a ? t / 2 % 8 : k == 4 ? 4 : 1; nc_def_var(nc, var[k], k == a && t >= 32 ? NC_CHAR : NC_FLOAT, nd[shape], dims[shape], &v[k]); }
            nc_enddef(nc); nc_close(nc); attempt("R-Z.nc", var[a], t);
        }
    }
}
static const char *SYM[] = {"Z", "V", "W", "D", "P", "R", "K", "Sh", "Sv", "Q", "Lh", "Lv", "Rxh", "Rxv", "Pxh", "Pxv"}; static const char *NAME[] = {"Intensity", "Radial_Velocity", "Width", "Differential_Reflectivity", "PhiDP", "RhoHV", "KDP", "Signal_Power_H", "Signal_Power_V", "SQI", "Linear_Depolarization_Ratio_H", "Linear_Depolarization_Ratio_V", "Rxh", "Rxv", "Pxh", "Pxv"};
static void collection(void) {   // a set of siblings, in a folder of their own, one possibly of another shape or damaged
    const int set = mc_choose(5, "set"), scan = mc_choose(3, "scan"), odd = mc_choose(6, "odd"); int first = -1, n = 0; char file[64]; bool in[16] = {0};
    for (int k = 0; k < 16; k++) if (set == 0 ? k == 0 : set == 1 ? k < 7 : set == 2 ? true : set == 3 ? k % 3 == 1 : k == 9 || k == 2) { in[k] = true; n++; }
    const char *folder = mc_choose(2, "folder") ? "c.d" : "."; if (folder[0] == 'c') mkdir(folder, 0700);
    RKProduct *p[16] = {0};
    for (int k = 0; k < 16; k++) { snprintf(file, sizeof file, "%s/X-20231114-221320-E4.5-%s.nc", folder, SYM[k]); unlink(file); if (!in[k]) continue; const bool o = odd == 1 && k == 2; p[k] = make(o ? 5 : 3, o ? 7 : 4, scan, SYM[k], NAME[k]); for (uint32_t i = 0; i < p[k]->capacity; i++) p[k]->data[i] = k * 100 + i; RKProductFileWriterNC(p[k], file); if (odd == 2 && k == 2) put(file, (const uint8_t *)"junk", 4); if (odd == 3 && k == 2) { p[k]->header.rayCount = 2; RKProductFileWriterNC(p[k], file); p[k]->header.rayCount = 3; } if (odd < 4 && first < 0 && (k != 2 || odd == 0)) first = k; if (odd == 4) first = k; if (odd == 5 && k == 1) first = k; }
    if (first < 0) { for (int k = 0; k < 16; k++) if (p[k]) RKProductBufferFree(p[k], 1); mc_skip(); }
    snprintf(file, sizeof file, "%s/X-20231114-221320-E4.5-%s.nc", folder, SYM[first]);
    RKProductCollection *c = RKProductCollectionInitWithFilename(folder[0] == '.' ? file + 2 : file); mc_assert(c, "collection", "NULL"); mc_assert((int)c->count == n, "collection", "%u products, expected %d", c->count, n);
    int base = 0; for (uint32_t i = 0; i < c->count; i++) {
        int k; for (k = 0; k < 16; k++) if (in[k] && !strcmp(SYM[k], c->products[i].desc.symbol)) break;
        if (k == 16) { mc_assert(odd >= 1 && odd <= 3, "collection", "product %u is '%s'", i, c->products[i].desc.symbol); continue; }
        if (!(odd && odd <= 3 && k == 2)) { compare(p[k], &c->products[i], SYM[k]); in[k] = false; if (set == 1 && odd == 0) { mc_assert(k >= base, "order", "%s after %s", SYM[k], SYM[base]); base = k; } }
    }
    for (int k = 0; k < 16; k++) mc_assert(!in[k] || (odd >= 1 && odd <= 3 && k == 2), "collection", "%s is not there", SYM[k]);
    RKProductCollectionFree(c); for (int k = 0; k < 16; k++) if (p[k]) RKProductBufferFree(p[k], 1);
}
static void sweeps(void) {   // from the rays of a sweep to files and back into rays
    static const int R[] = {1, 2, 5, 90, 360}, G[] = {1, 63, 64, 65, 100, 130}; const int rays = R[mc_choose(5, "rays")], gates = G[mc_choose(6, "gates")], scan = mc_choose(3, "scan"), mask = 1 + mc_choose(mc_param("masks", 127), "products"), again = mc_choose(4, "again"), pre = again & 1;
    static const RKBaseProductIndex I[] = {RKBaseProductIndexZ, RKBaseProductIndexV, RKBaseProductIndexW, RKBaseProductIndexD, RKBaseProductIndexP, RKBaseProductIndexR, RKBaseProductIndexK}; static const RKBaseProductList L[] = {RKBaseProductListFloatZ, RKBaseProductListFloatV, RKBaseProductListFloatW, RKBaseProductListFloatD, RKBaseProductListFloatP, RKBaseProductListFloatR, RKBaseProductListFloatK};
    static RKSweep s; memset(&s, 0, sizeof s); RKRayBufferAlloc(&s.rayBuffer, 192, rays); s.header.rayCount = rays; s.header.gateCount = gates; s.header.gateSizeMeters = 60; s.header.startTime = 1700000000; s.header.isPPI = scan == 0; s.header.isRHI = scan == 1; strcpy(s.header.desc.name, "radar"); s.header.desc.wavelength = 0.1f; s.header.desc.latitude = 35; s.header.desc.longitude = -97; s.header.config.prt[0] = 5e-4f; s.header.config.pw[0] = 2e-6f; s.header.config.sweepElevation = 2.5f; s.header.config.sweepAzimuth = 33; strcpy(s.header.config.waveformName, "h2005"); strcpy(s.header.config.vcpDefinition, "ppi 2.5"); s.header.config.noise[0] = 2; s.header.config.SNRThreshold = 3;
    for (int k = 0; k < rays; k++) {
        RKRay *r = s.rays[k] = RKGetRayFromBuffer(s.rayBuffer, k); r->header.startAzimuth = scan == 1 ? 33 : fmodf(k + 200.5f, 360); r->header.endAzimuth = scan == 1 ? 33 : fmodf(k + 201.5f, 360); r->header.startElevation = scan == 1 ? 0.25f * k : 2.5f; r->header.endElevation = scan == 1 ? 0.25f * k + 0.25f : 2.5f; r->header.gateCount = gates;
        for (int m = 0; m < 7; m++) { RKFloat *x = RKGetFloatDataFromRay(r, I[m]); for (int g = 0; g < 192; g++) x[g] = (k * 7 + g * 3 + m) % 11 == 0 ? NAN : (k * 5 + g * 13 + m * 31) % 301 - 150; }
    }
    for (int m = 0; m < 7; m++) {
        char file[64]; snprintf(file, sizeof file, "S-%s.nc", SYM[m]); unlink(file); if (!(mask >> m & 1)) continue;
        RKProduct *p; mc_assert(RKProductBufferAlloc(&p, 1, pre ? rays + 3 : rays, pre ? 500 : 1), "harness", "alloc"); strcpy(p->desc.name, NAME[m]); strcpy(p->desc.symbol, SYM[m]);
        if (again & 2) { memset(&p->header, 0x41, sizeof p->header); p->header.isPPI = p->header.isRHI = true; for (uint32_t i = 0; i < p->capacity; i++) p->data[i] = -7; for (int i = 0; i < rays; i++) p->startAzimuth[i] = p->endAzimuth[i] = p->startElevation[i] = p->endElevation[i] = -7; }   // the slot of an earlier product of any kind
        mc_assert(RKProductInitFromSweep(p, &s) == RKResultSuccess, "init", "%s", SYM[m]);
        mc_assert(p->header.isPPI == s.header.isPPI && p->header.isRHI == s.header.isRHI && (int)p->header.rayCount == rays && (int)p->header.gateCount == gates && p->header.startTime == s.header.startTime && p->header.gateSizeMeters == 60, "init", "header: PPI %d RHI %d, %u x %u", p->header.isPPI, p->header.isRHI, p->header.rayCount, p->header.gateCount);
        for (int k = 0; k < rays; k++) { const RKFloat *x = RKGetFloatDataFromRay(s.rays[k], I[m]); mc_assert(!memcmp(p->data + k * gates, x, gates * sizeof(RKFloat)), "init", "%s ray %d", SYM[m], k); mc_assert(p->endAzimuth[k] == s.rays[k]->header.endAzimuth && p->startElevation[k] == s.rays[k]->header.startElevation, "init", "angles of ray %d", k); }
        roundtrip(p, file, SYM[m]); RKProductBufferFree(p, 1);
    }
    for (int m = 0; m < 7; m++) if (mask >> m & 1) {
        char file[64]; snprintf(file, sizeof file, "%sS-%s.nc", mask % 2 ? "./" : "", SYM[m]); RKSweep *q = RKSweepFileRead(file); mc_assert(q, "sweep", "%s: NULL", file);
        RKBaseProductList list = 0; for (int k = 0; k < 7; k++) if (mask >> k & 1) list |= L[k];
        mc_assert((int)q->header.rayCount == rays && (int)q->header.gateCount == gates && q->header.gateSizeMeters == 60 && q->header.baseProductList == list, "sweep", "%u x %u of %f m, products %x, expected %d x %d of 60, %x", q->header.rayCount, q->header.gateCount, q->header.gateSizeMeters, q->header.baseProductList, rays, gates, list);
        mc_assert(!strcmp(q->header.desc.name, "radar") && near(q->header.desc.wavelength, 0.1, 1e-4) && near(q->header.config.prt[0], 5e-4, 1e-4) && q->header.desc.latitude == 35 && q->header.desc.longitude == -97, "sweep", "'%s' %f %f", q->header.desc.name, q->header.desc.wavelength, q->header.config.prt[0]);
        mc_assert(scan == 0 ? (q->header.config.startMarker & RKMarkerScanTypePPI) && q->header.config.sweepElevation == 2.5f : scan == 2 ? true : (q->header.config.startMarker & RKMarkerScanTypeRHI) && q->header.config.sweepAzimuth == 33, "sweep", "scan type %x", q->header.config.startMarker);
        for (int k = 0; k < rays; k++) {
            RKRay *r = q->rays[k]; mc_assert(r->header.startAzimuth == s.rays[k]->header.startAzimuth && r->header.startElevation == s.rays[k]->header.startElevation && (int)r->header.gateCount == gates && r->header.s == RKRayStatusReady, "sweep", "ray %d: azimuth %f elevation %f gates %u status %x", k, r->header.startAzimuth, r->header.startElevation, r->header.gateCount, r->header.s);
            for (int i = 0; i < 7; i++) if (mask >> i & 1) { const RKFloat *x = RKGetFloatDataFromRay(s.rays[k], I[i]), *y = RKGetFloatDataFromRay(r, I[i]); for (int g = 0; g < gates; g++) mc_assert(isnan(x[g]) ? isnan(y[g]) : x[g] == y[g], "sweep", "%s ray %d gate %d: %f, wrote %f", SYM[i], k, g, y[g], x[g]); }
        }
        mc_count(rays * gates); RKSweepFree(q); break;
    }
    free(s.rayBuffer);
}
static void refusals(void) {
    const int what = mc_choose(9, "what"), scan = mc_choose(3, "scan"); RKProduct *p = make(3, 4, scan, "Z", "Intensity"); const char *file = "N-Z.nc"; unlink(file);
    if (what == 0) p->desc.name[0] = 0; if (what == 1) p->header.rayCount = 0; if (what == 2) p->header.gateCount = 0; if (what == 3) p->header.startTime = 0; if (what == 4) p->header.gateSizeMeters = 0; if (what == 5) file = "no/such/folder/N-Z.nc"; if (what == 6) { mkdir("N-D.nc", 0700); file = "N-D.nc"; }
    if (what == 7) { mc_assert(RKProductFileReaderNC("N-absent.nc", false) == NULL && RKSweepFileRead("N-Z.nc") == NULL && RKProductCollectionInitWithFilename("N-Z.nc") == NULL && RKProductCollectionInitWithFilename("nowhere/N-Z.nc") == NULL, "absent", "a missing file is read"); }
    else if (what == 8) { put(file, (const uint8_t *)"older and longer content that is not a product", 46); roundtrip(p, file, "Z"); roundtrip(p, file, "Z"); }   // an existing file is replaced
    else { const int r = RKProductFileWriterNC(p, file); mc_assert(r != RKResultSuccess, "refuse", "case %d is written", what); mc_assert(what == 6 || access(file, F_OK), "refuse", "case %d leaves a file", what); }
    RKProductBufferFree(p, 1); mc_count(1);
}
static void setup(void) { rkQuiet(); }
static void body(void) {
    static bool q; if (!q) { q = true; dir(); if (!mc_replaying() && !freopen("/dev/null", "w", stderr)) {} }
    switch (mc_param("part", 0)) { case 0: headers(); break; case 1: values(); break; case 2: corruptions(); break; case 3: collection(); break; case 4: sweeps(); break; default: refusals(); }
}
int main(int argc, char **argv) { mc_config c = {.name = "c18_product", .setup = setup, .body = body, .bound = 0, .shard_depth = 2, .run_seconds = 300}; return mc_main(argc, argv, &c); }
