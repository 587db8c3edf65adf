// C21: health logs hold every consolidated record, in the file of its minute.
// part 0: histories of records, clock steps, switches and restarts     part 1: schedules of a switch and a stop
#include "rk.h"
#include <sys/stat.h>
#include <ftw.h>
#include <dirent.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
enum { DEPTH = 8, MAXR = 40 };
static void dir(void) { static pid_t pid; if (pid == getpid()) return; char d[32]; snprintf(d, sizeof d, "p%d", pid = getpid()); mkdir(d, 0700); if (chdir(d)) {} }
static int gone(const char *p, const struct stat *s, int t, struct FTW *f) { return remove(p); }
static void wipe(void) { nftw("data", gone, 8, FTW_DEPTH | FTW_PHYS); }
static RKRadarDesc desc; static RKHealth healths[DEPTH]; static uint32_t healthIndex; static RKFileManager manager; static RKHealthLogger *log_;
enum { NEVER, MAY, MUST };
static struct { int want, seen; time_t t; bool dated; } rec[MAXR]; static int n, base;
static struct { char name[200]; off_t size; } files[MAXR]; static int nf;
static int last;   // the last record that was seen in a log
static void text(char *s, int k) { int i = sprintf(s, "{\"Node\":{\"Value\":%d,\"Enum\":0}, \"Text\":\"%d %% %%d %.*s\"", k, k, 1 + (k * 37) % 60, "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"); if (k % 3 == 2) { s[i++] = ','; s[i++] = '"'; s[i++] = 'x'; s[i++] = '"'; s[i++] = ':'; s[i++] = '"'; for (int j = 0; j < 3000; j++) s[i++] = 'a' + (j + k) % 26; s[i++] = '"'; s[i] = 0; } if (rec[k].dated) sprintf(s + i, ", \"Log Time\":%ld}", (long)rec[k].t); else strcpy(s + i, "}"); }
static void readBack(const char *name, bool sure) {   // every line of a log is a record that was due, of this minute, after the one before
    FILE *f = fopen(name, "r"); mc_assert(f, "announced", "%s is not there", name); static char line[2 * RKMaximumStringLength], e[RKMaximumStringLength]; int k = -1, lines = 0; time_t minute = 0, first = 0;
    while (fgets(line, sizeof line, f)) {
        mc_assert(strlen(line) && line[strlen(line) - 1] == '\n', "cut", "%s ends within a line", name); line[strlen(line) - 1] = 0;
        mc_assert(sscanf(line, "{\"Node\":{\"Value\":%d", &k) == 1 && k >= 0 && k < n, "content", "%s has '%.60s'", name, line);
        text(e, k); mc_assert(!strcmp(e, line), "content", "%s: record %d is '%.200s'", name, k, line); mc_assert(rec[k].want != NEVER, "off", "record %d is in %s although recording was off", k, name);
        if (!lines++) { minute = rec[k].t / 60; first = rec[k].t; } mc_assert(rec[k].t / 60 == minute, "minute", "record %d of %ld is in %s", k, (long)rec[k].t, name);
        mc_count(1);
        if (sure) { if (k <= last) { mc_assert(rec[k].seen, "order", "record %d after %d in %s", k, last, name); continue; } for (int j = last + 1; j < k; j++) mc_assert(rec[j].want != MUST || rec[j].seen, "lost", "record %d was lost before %d in %s", j, k, name); mc_assert(!rec[k].seen, "twice", "record %d again in %s", k, name); rec[k].seen++; last = k; }
    }
    fclose(f); char w[80]; strftime(w, sizeof w, "data/health/%Y%m%d/P-%Y%m%d-%H%M%S.json", gmtime(&first)); mc_assert(lines, "empty", "%s is empty", name); mc_assert(!strcmp(w, name), "name", "%s starts with a record of %s", name, w);
}
int __wrap_RKFileManagerAddFile(RKFileManager *m, const char *name, RKFileType t) {
    mc_assert(m == &manager && t == RKFileTypeHealth, "announced", "type %d", t); struct stat s; mc_assert(!stat(name, &s), "announced", "%s is not there", name); mc_assert(log_->fid == NULL || log_->fid == (FILE *)-1, "announced", "%s is still open", name);
    int k = 0; while (k < nf && strcmp(files[k].name, name)) k++; if (k < nf) mc_assert(s.st_size > files[k].size, "announced", "%s was announced twice", name); else nf++;
    snprintf(files[k].name, sizeof files[k].name, "%s", name); files[k].size = s.st_size; readBack(name, true); return RKResultSuccess;
}
static time_t now;
static void put(int want, bool dated) {
    RKHealth *h = &healths[healthIndex]; const int k = n; mc_assert(k < MAXR, "harness", "records"); rec[k].want = want; rec[k].t = dated ? now : (time_t)(mc_now_us() / 1000000); rec[k].dated = dated; rec[k].seen = 0; n++; text(h->string, k); h->flag = RKHealthFlagReady; const uint32_t next = (healthIndex + 1) % DEPTH; healths[next].string[0] = 0; healths[next].flag = RKHealthFlagVacant; healthIndex = next;
}
static void settle(void) { for (int k = 0; log_->tic + base < (uint64_t)n + 1; k++) { mc_assert(k < 100, "stuck", "%lu of %d records were handled", (unsigned long)log_->tic - 1 + base, n); mc_sleep_us(50000); } }
static void folder(void) {
    int there = 0; DIR *d = opendir("data/health"); if (d) { struct dirent *e, *q; while ((e = readdir(d))) if (e->d_name[0] != '.') { char s[300]; snprintf(s, sizeof s, "data/health/%s", e->d_name); DIR *u = opendir(s); if (!u) continue; while ((q = readdir(u))) if (q->d_name[0] != '.') { there++; bool in = false; char w[600]; snprintf(w, sizeof w, "%s/%s", s, q->d_name); for (int k = 0; k < nf; k++) in |= !strcmp(files[k].name, w); mc_assert(in, "announced", "%s was left and not announced", w); } closedir(u); } closedir(d); }
    for (int k = 0; k < nf; k++) { struct stat s; mc_assert(!stat(files[k].name, &s) && s.st_size == files[k].size, "complete", "%s was announced with %ld bytes and has %ld", files[k].name, (long)files[k].size, (long)s.st_size); readBack(files[k].name, false); }
    mc_assert(there == nf, "announced", "%d files, %d announced", there, nf);
    for (int k = 0; k < n; k++) mc_assert(rec[k].want != MUST || rec[k].seen, "lost", "record %d was lost, of %d", k, n);
}
static void start(void) { mc_assert(RKHealthLoggerStart(log_) == RKResultSuccess, "start", "start failed"); }
static void stop(void) { mc_assert(RKHealthLoggerStop(log_) == RKResultSuccess, "stop", "stop failed"); mc_assert(log_->fid == NULL, "stop", "a file is open after the stop"); }
static void wired(void) {
    n = nf = base = 0; last = -1; healthIndex = 0; memset(healths, 0, sizeof healths); memset(&desc, 0, sizeof desc); desc.healthBufferDepth = DEPTH; strcpy(desc.name, "radar"); strcpy(desc.filePrefix, "P"); strcpy(desc.dataPath, "data");
    log_ = RKHealthLoggerInit(); RKHealthLoggerSetEssentials(log_, &desc, &manager, healths, &healthIndex); mc_set_clock_us(1700000000ll * 1000000); now = 1700000000;
}
// 1700000000 is 22:13:20: the next minute is 40 s away
static const int STEP[] = {0, 1, 45, 3600, -30, 86400 - 20};
static void histories(void) {
    wired(); const int N = mc_param("events", 5); bool on = mc_choose(2, "on"); RKHealthLoggerSetRecord(log_, on); RKHealthLoggerSetVerbose(log_, mc_choose(2, "verbose")); start();
    for (int e = 0; e < N; e++) {
        const int what = mc_choose(9, "event");
        if (what < 6) { now += STEP[what]; put(on ? MUST : NEVER, true); settle(); }
        else if (what == 6) RKHealthLoggerSetRecord(log_, on = !on);
        else if (what == 7) { stop(); folder(); base = n; start(); mc_sleep_us(200000); }
        else { mc_sleep_us(20000000); mc_sleep_us(1300000 - mc_now_us() % 1000000); put(on ? MUST : NEVER, false); settle(); }
    }
    stop(); folder(); for (int k = 0; k < nf; k++) mc_outcome(files[k].size); RKHealthLoggerFree(log_);
}
static void schedules(void) {
    wired(); const bool on = mc_choose(2, "on"); const int what = mc_choose(3, "what"), step = STEP[1 + mc_choose(2, "step")]; RKHealthLoggerSetRecord(log_, on); start();
    mc_watch(&log_->record, sizeof log_->record); mc_watch((void *)&log_->state, sizeof log_->state); mc_watch(&healthIndex, sizeof healthIndex); mc_watch(&log_->fid, sizeof log_->fid);
    mc_explore(true); put(on ? MUST : NEVER, true); now += step; put(on ? MUST : NEVER, true);
    if (what == 0) { const int before = n; RKHealthLoggerSetRecord(log_, !on); for (int k = 0; k < before; k++) if ((uint64_t)k + 1 >= log_->tic) rec[k].want = MAY; put(!on ? MUST : NEVER, true); settle(); }
    else if (what == 1) { settle(); RKHealthLoggerSetRecord(log_, !on); now += step; put(!on ? MUST : NEVER, true); settle(); }
    const int sure = (int)log_->tic - 1; for (int k = sure; k < n; k++) if (rec[k].want == MUST) rec[k].want = MAY;
    stop(); mc_explore(false); mc_watch_clear(); folder(); for (int k = 0; k < nf; k++) mc_outcome(files[k].size); RKHealthLoggerFree(log_);
}
static void body(void) {
    static bool q; if (!q) { q = true; dir(); if (!mc_replaying() && !freopen("/dev/null", "w", stderr)) {} }
    wipe(); if (mc_param("part", 0)) schedules(); else histories();
}
int main(int argc, char **argv) {
    mc_config cfg = {.name = "c21_hlog", .setup = rkQuiet, .body = body, .bound = 0, .shard_depth = 4, .run_seconds = 20, .vt_limit_us = 400000000000ll, .step_limit = 400000};
    return mc_main(argc, argv, &cfg);
}
