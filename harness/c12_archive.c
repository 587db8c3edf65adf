// C12: an archive stays under its limit, by deleting only its own oldest files.  The file system is a table.
// part 0: small archives and sequences of new files     1: many folders     2: schedules     3: logs
#include "rk.h"
#include <dirent.h>
#include <sys/stat.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#ifndef VP_FORK
#define VP_FORK 0
#endif
enum { ENTS = 8000, LIST = 128 };
typedef struct { bool used, dir, counted; int arch; size_t size; time_t t, ctime; char path[120]; } ent;
static ent E[ENTS]; static int nE, reversed, unknown, capacity, removed; static char root[40]; static RKFileManager *M; static size_t limit[3]; static const char *const A[] = {RKDataFolderIQ, RKDataFolderMoment, RKDataFolderHealth, RKLogFolder}; static bool exploring;
static ent *find(const char *p) { char q[200]; int n = 0; for (const char *c = p; *c && n < 199; c++) if (!(*c == '/' && n && q[n - 1] == '/')) q[n++] = *c; while (n && q[n - 1] == '/') n--; q[n] = 0; for (int k = 0; k < nE; k++) if (E[k].used && !strcmp(E[k].path, q)) return &E[k]; return NULL; }
static ent *put(const char *p, bool dir, int arch, size_t size, time_t t) { ent *e = NULL; for (int k = 0; k < nE && !e; k++) if (!E[k].used) e = &E[k]; if (!e) { mc_assert(nE < ENTS, "harness", "entries"); e = &E[nE++]; } memset(e, 0, sizeof *e); e->used = true; e->dir = dir; e->arch = arch; e->size = size; e->t = t; snprintf(e->path, sizeof e->path, "%s", p); return e; }
static bool holds(const char *dir) { const size_t n = strlen(dir); for (int k = 0; k < nE; k++) if (E[k].used && !strncmp(E[k].path, dir, n) && E[k].path[n] == '/') return true; return false; }
static size_t usage(int a) { size_t u = 0; for (int k = 0; k < nE; k++) if (E[k].used && !E[k].dir && E[k].arch == a && E[k].counted) u += E[k].size; return u; }
// --- the file system
typedef struct { bool open; char path[120]; int at; struct dirent d; } sdir; static sdir D[8];
DIR *__wrap_opendir(const char *p) { if (exploring) mc_yield("opendir"); ent *e = find(p); if (!e) { errno = ENOENT; return NULL; } if (!e->dir) { errno = ENOTDIR; return NULL; } for (int k = 0; k < 8; k++) if (!D[k].open) { D[k].open = true; D[k].at = 0; strcpy(D[k].path, e->path); return (DIR *)&D[k]; } mc_fail("harness", "open directories"); }
int __wrap_closedir(DIR *d) { sdir *s = (sdir *)d; mc_assert(s->open, "closed-twice", "directory"); s->open = false; return 0; }
struct dirent *__wrap_readdir(DIR *d) {
    sdir *s = (sdir *)d; const size_t n = strlen(s->path);
    while (s->at < nE + 2) {
        const int k = s->at++; const char *name;
        if (k < 2) { s->d.d_type = DT_DIR; strcpy(s->d.d_name, k ? ".." : "."); return &s->d; }
        const ent *e = &E[reversed ? nE + 1 - k : k - 2]; if (!e->used || strncmp(e->path, s->path, n) || e->path[n] != '/' || strchr(name = e->path + n + 1, '/')) continue;
        s->d.d_type = unknown ? DT_UNKNOWN : e->dir ? DT_DIR : DT_REG; strcpy(s->d.d_name, name); return &s->d;
    }
    return NULL;
}
int __wrap_stat(const char *p, struct stat *b) { ent *e = find(p); const size_t n = strlen(p); if (!e && n > 1 && p[n - 1] == '.') { memset(b, 0, sizeof *b); b->st_mode = S_IFDIR; b->st_size = 4096; return 0; } if (!e) { errno = ENOENT; return -1; } memset(b, 0, sizeof *b); b->st_mode = e->dir ? S_IFDIR : S_IFREG; b->st_size = e->dir ? 4096 : e->size; b->st_ctime = b->st_mtime = e->ctime; return 0; }
int __wrap_lstat(const char *p, struct stat *b) { return __wrap_stat(p, b); }
static void delete(ent *e) {
    mc_note("deletes %s, usage %zu limit %zu", e->path, e->arch < 3 ? usage(e->arch) : 0, e->arch < 3 ? limit[e->arch] : 0);
    mc_assert(e->arch <= 3, "outside", "%s is not in the archive", e->path);
    if (e->arch == 3) { mc_assert(mc_now_us() / 1000000 - e->ctime > M->maximumLogAgeInDays * 86400L, "log", "%s is %.2f days old", e->path, (mc_now_us() / 1000000 - e->ctime) / 86400.0); e->used = false; removed++; return; }
    mc_assert(e->counted, "content", "%s is none of the files that are managed", e->path);
    mc_assert(usage(e->arch) > limit[e->arch], "within-limit", "%s is deleted while the usage is %zu of %zu", e->path, usage(e->arch), limit[e->arch]);
    for (int k = 0; k < nE; k++) mc_assert(!(E[k].used && !E[k].dir && E[k].counted && E[k].arch == e->arch && E[k].t < e->t), "order", "%s is deleted while %s is older", e->path, E[k].path);
    e->used = false; removed++; mc_count(1);
}
int __wrap_remove(const char *p) { if (exploring) mc_yield("remove"); ent *e = find(p); if (!e) { errno = ENOENT; return -1; } if (e->dir) { if (holds(e->path)) { errno = ENOTEMPTY; return -1; } e->used = false; return 0; } delete(e); return 0; }
int __wrap_unlink(const char *p) { return __wrap_remove(p); }
int __wrap_rmdir(const char *p) { if (exploring) mc_yield("rmdir"); ent *e = find(p); if (!e) { errno = ENOENT; return -1; } if (holds(e->path)) { errno = ENOTEMPTY; return -1; } e->used = false; return 0; }
int __wrap_system(const char *c) {   // only what a shell would make of rm -rf
    if (exploring) mc_yield("system"); char b[600]; snprintf(b, sizeof b, "%s", c); char *w = strtok(b, " "); mc_assert(w && !strcmp(w, "rm"), "harness", "command '%s'", c);
    while ((w = strtok(NULL, " "))) { if (*w == '-') continue; ent *e = find(w); mc_assert(!e || (e->dir && !holds(e->path)), "folder", "'%s' removes a folder that still holds files", c); mc_assert(e || !holds(w), "folder", "'%s' removes a folder that still holds files", c); if (e) e->used = false; } return 0;
}
void mc_thread_hook(void *(*fn)(void *), void *arg) { RKFileRemover *r = arg; if (M && M->workers && r >= M->workers && r < M->workers + 3 && (char *)arg == (char *)(M->workers + (r - M->workers))) r->capacity = capacity; }
// --- archives
static time_t when(int day, int sec) { return 1490000000 + day * 86400L + sec; }
static char *dayname(int day) { static char b[16]; time_t t = when(day, 0); struct tm m; gmtime_r(&t, &m); strftime(b, sizeof b, "%Y%m%d", &m); return b; }
static char *filename(int arch, int day, int sec) { static char b[120]; char n[40]; time_t t = when(day, sec); struct tm m; gmtime_r(&t, &m); strftime(n, sizeof n, "%Y%m%d-%H%M%S", &m); char d[16]; strftime(d, sizeof d, "%Y%m%d", &m); snprintf(b, sizeof b, "%s/%s/%s/RK-%s-E1.0.rkr", root, A[arch], d, n); return b; }
static size_t unit = 1;
static ent *add(int arch, int day, int sec, size_t size) { char d[80]; snprintf(d, sizeof d, "%s/%s/%s", root, A[arch], dayname(day)); if (!find(d)) put(d, true, arch, 0, 0); ent *e = put(filename(arch, day, sec), false, arch, size * unit, when(day, sec)); e->counted = true; return e; }
static void fresh(void) { nE = 0; removed = 0; M = NULL; memset(D, 0, sizeof D); reversed = unknown = 0; exploring = false; unit = 1; capacity = 100; strcpy(root, "data"); for (int k = 0; k < 3; k++) limit[k] = (size_t)1 << 30; mc_set_clock_us(1700000000LL * 1000000); }
static void roots(void) { put(root, true, 9, 0, 0); for (int a = 0; a < 4; a++) { char b[60]; snprintf(b, sizeof b, "%s/%s", root, A[a]); put(b, true, a, 0, 0); } ent *o = put("other", true, 9, 0, 0); o = put("other/file", false, 9, 10, 5); o->counted = false; (void)o; }
static void start(int how, size_t raw) {   // how the limit is given
    M = RKFileManagerInit(); RKFileManagerSetPathToMonitor(M, root);
    if (how == 0) { RKFileManagerSetRawDataLimit(M, raw); limit[0] = raw; }
    else if (how == 1) { RKFileManagerSetDiskUsageLimit(M, raw * 14 / 8); limit[0] = raw * 14 / 8 * 8 / 14; limit[1] = raw * 14 / 8 * 5 / 14; limit[2] = raw * 14 / 8 / 14; }
    else { RKFileManagerSetRawDataLimit(M, raw); RKFileManagerSetMomentDataLimit(M, 7); RKFileManagerSetHealthDataLimit(M, 3); limit[0] = raw; limit[1] = 7; limit[2] = 3; }
    RKFileManagerStart(M);
}
static void settle(void) { for (int k = 0; k < 8; k++) mc_sleep_us(500000); for (int a = 0; a < 3; a++) mc_assert(usage(a) <= limit[a], "over-limit", "%zu bytes in %s, the limit is %zu", usage(a), A[a], limit[a]); }
static void registered(ent *e) { const int r = RKFileManagerAddFile(M, e->path, e->arch); mc_assert(!mc_mutex_busy(&M->mutex) || exploring, "locked", "the lock is still held"); (void)r; }
static void stop(void) { RKFileManagerFree(M); mc_assert(mc_live_threads() == 0, "thread", "still there"); M = NULL; }
static void infolder(void) { for (int d = 0; d < 20; d++) { char b[80]; const int n = snprintf(b, sizeof b, "%s/iq/%s/", root, dayname(d)); int c = 0; for (int k = 0; k < nE; k++) if (E[k].used && !E[k].dir && !strncmp(E[k].path, b, n)) c++; if (c >= capacity) mc_skip(); } }   // a folder on its own does not exceed the list
static void histories(void) {
    fresh(); static const int CAP[] = {100, 6, 4}; const int depth = mc_param("events", 3), c = mc_choose(3, "capacity"), how = mc_choose(3, "limits"); if (c && how) mc_skip(); capacity = CAP[c]; static const size_t LIM[] = {4, 9}; size_t lim = LIM[mc_choose(2, "limit")]; reversed = mc_choose(2, "order of folders"); const int misc = c || how ? 0 : mc_choose(7, "special"); unknown = misc == 1; if (misc == 6) unit = 3000000000UL; if (misc == 2) strcpy(root, "da ta"); 
    lim *= unit; limit[1] = limit[2] = (size_t)1 << 50; roots(); if (misc == 2) { put("da", true, 9, 0, 0); put("da/x", false, 9, 3, 3); }
    static const int Q[][4] = {{0, 0, 0, 0}, {1, 0, 0, 0}, {2, 0, 0, 0}, {1, 1, 0, 0}, {2, 2, 0, 0}, {1, 0, 1, 0}, {2, 1, 2, 0}, {3, 2, 0, 0}, {1, 1, 1, 1}}; static const size_t Z[] = {1, 3, 2, 5, 1, 4}; const int q = mc_choose(9, "archive"), zs = mc_choose(3, "sizes"); int n = 0, last = 0, sec = 0;
    for (int d = 0; d < 4; d++) for (int k = 0; k < Q[q][d]; k++) { const int kk = reversed ? Q[q][d] - 1 - k : k; add(0, d, kk * 10, Z[(n++ + zs * 2) % 6]); last = d; sec = 30; }
    if (misc == 3) { char b[90]; snprintf(b, sizeof b, "%s/iq/%s", root, dayname(-3)); put(b, true, 0, 0, 0); strcat(b, "/.hidden"); put(b, false, 0, 7, 1); }
    if (misc == 4) { char b[90]; snprintf(b, sizeof b, "%s/iq/%s", root, dayname(-3)); put(b, true, 0, 0, 0); strcat(b, "/sub"); put(b, true, 0, 0, 0); strcat(b, "/file"); put(b, false, 0, 7, 1); }
    if (misc == 5) { char b[90]; snprintf(b, sizeof b, "%s/iq/%s", root, dayname(-3)); put(b, true, 0, 0, 0); }
    for (int a = 1; a < 3; a++) for (int k = 0; k < 2; k++) add(a, k, 5, 2);
    infolder(); start(how, lim); settle();
    for (int ev = 0; ev < depth; ev++) {
        const int x = mc_choose(9, "event");
        switch (x) {
            case 0: case 1: case 2: case 3: { if (x >= 2) { last++; sec = 0; } ent *e = add(0, last, sec += 10, x & 1 ? 4 : 2); infolder(); registered(e); break; }
            case 4: settle(); break;
            case 5: { registered(put("other/20170401/RK-20170401-000000-E1.0.rkr", false, 0, 3, 1)); find("other/20170401/RK-20170401-000000-E1.0.rkr")->arch = 9; break; }   // not in this archive
            case 6: { char b[90]; snprintf(b, sizeof b, "%s/iq2", root); if (!find(b)) put(b, true, 9, 0, 0); strcat(b, "/RK-20170401-000000-E1.0.rkr"); ent *e = find(b); if (!e) { e = put(b, false, 0, 3, 1); } e->arch = 0; registered(e); e->arch = 9; break; }
            case 7: { if (c) mc_skip(); stop(); ent *e = add(0, last, sec += 10, 1); start(how, lim); e->size = 2 * unit; registered(e); break; }   // was being written while the manager started
            default: { ent *e = add(1, 5, ev * 10 + 1, 3); registered(e); }
        }
    }
    settle(); for (int k = 0; k < nE; k++) if (E[k].used && E[k].arch == 9 && E[k].dir == false && !strncmp(E[k].path, "other/2017", 10)) E[k].used = false;
    stop(); mc_outcome(removed); mc_outcome(usage(0)); for (int k = 0; k < nE; k++) if (E[k].arch == 9) mc_assert(E[k].used || !strncmp(E[k].path, "other/2017", 10), "outside", "%s is gone", E[k].path);
}
static void folders(void) {   // one file a day for a long time
    static const int N[] = {3, 58, 61, 75}; fresh(); static const int CAP[] = {400, 200, 50, 70}; capacity = CAP[mc_choose(4, "capacity")]; reversed = mc_choose(2, "order of folders"); roots(); const int before = N[mc_choose(4, "before")], after = mc_choose(2, "after") ? 140 : 5; const size_t lim = mc_choose(2, "limit") ? 20 : 64; const int every = 1 + mc_choose(2, "files a day");
    for (int k = 0; k < before; k++) add(0, k / every, k % every * 60, 1);
    start(0, lim); settle();
    for (int k = 0; k < after; k++) { registered(add(0, (before + k) / every, (before + k) % every * 60, 1)); if (k % 7 == 6) settle(); }
    settle(); mc_outcome(removed); mc_outcome(usage(0)); mc_assert(usage(0) == lim || before + after < (int)lim, "too-many", "%zu bytes are left of %zu", usage(0), lim); stop();
}
static void decade(void) {   // more folders than the list of folders holds
    fresh(); capacity = 8000; roots(); const int before = 3600 + mc_choose(4, "before") * 17; const size_t lim = mc_choose(2, "limit") ? 3590 : 5000;
    for (int k = 0; k < before; k++) add(0, k, 0, 1);
    start(0, lim); settle(); for (int k = 0; k < 30; k++) { registered(add(0, before + k, 60, 1)); if (k % 11 == 6) settle(); } settle(); mc_outcome(removed); mc_outcome(usage(0)); stop();
}
static struct { int arch, n, day; } W[2];
static void *writer(void *in) { const int p = (int)(intptr_t)in; for (int k = 0; k < W[p].n; k++) { const bool was = exploring; exploring = false; ent *e = add(W[p].arch, W[p].day, 10 + k * 10, 3); exploring = was; RKFileManagerAddFile(M, e->path, e->arch); if (k == 0 && p == 0) mc_sleep_us(1200000); } return NULL; }
static void schedules(void) {
    fresh(); static const int CAP[] = {100, 6, 4}; capacity = CAP[mc_choose(3, "capacity")]; roots(); for (int k = 0; k < 3; k++) add(0, k / 2, k % 2 * 5, 2); add(1, 0, 0, 2);
    W[0].arch = 0; W[0].n = 3; W[0].day = 2; W[1].arch = mc_choose(2, "other archive"); W[1].n = 1; W[1].day = W[1].arch ? 1 : 2; if (!W[1].arch) { W[0].n = 2; W[1].day = 2; }
    start(2, 5); exploring = true; mc_explore(true); pthread_t t[2]; for (int p = 0; p < 1 + W[1].arch; p++) pthread_create(&t[p], NULL, writer, (void *)(intptr_t)p); for (int p = 0; p < 1 + W[1].arch; p++) pthread_join(t[p], NULL);
    mc_explore(false); exploring = false; settle(); stop(); mc_outcome(removed);
}
static void logs(void) {
    fresh(); roots(); static const int64_t AGE[] = {0, 86399, 86400, 86401, 86400 * 2 + 5, 86400 * 29, 86400 * 31}; const int days = 1 + mc_choose(2, "days") * 29, n = 1 + mc_choose(3, "logs"); int keep = 0; ent *e[3]; const int64_t now = mc_now_us() / 1000000;
    for (int k = 0; k < n; k++) { char b[60]; snprintf(b, sizeof b, "data/log/trxd-2017040%d.log", k); e[k] = put(b, false, 3, 5, 1); e[k]->ctime = now - AGE[mc_choose(7, "age")]; }
    ent *s = put("data/log/sub", true, 9, 0, 0); s->ctime = 0; put("data/log/sub/x", false, 9, 1, 1);
    M = RKFileManagerInit(); RKFileManagerSetPathToMonitor(M, root); RKFileManagerSetMaximumLogAgeInDays(M, days); RKFileManagerStart(M); mc_sleep_us(130000000);
    for (int k = 0; k < n; k++) { const bool old = mc_now_us() / 1000000 - e[k]->ctime > days * 86400L + 100; if (old) mc_assert(!e[k]->used, "log", "a log of %.2f days is kept", (now - e[k]->ctime) / 86400.0); else keep++; }
    stop(); mc_outcome(removed); mc_outcome(keep); mc_count(1);
}
static void setup(void) { rkQuiet(); setenv("TZ", "UTC", 1); }
static void body(void) {
    static bool q; if (!q) { q = true; if (mc_param("quiet", 1) && !mc_replaying() && !freopen("/dev/null", "w", stderr)) {} }
    switch (mc_param("part", 0)) { case 0: histories(); break; case 1: folders(); break; case 2: schedules(); break; case 4: decade(); break; default: logs(); }
}
int main(int argc, char **argv) {
    mc_config cfg = {.name = "c12_archive", .setup = setup, .body = body, .fork_runs = VP_FORK, .bound = 0, .shard_depth = 5, .run_seconds = 30, .vt_limit_us = 1200000000, .step_limit = 4000000};
    return mc_main(argc, argv, &cfg);
}
