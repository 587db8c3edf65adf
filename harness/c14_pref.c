// C14: preference files are read as written.
#include "rk.h"
#include <unistd.h>
#include <fcntl.h>
typedef struct { const char *text, *key, *value; int num; double d[4]; int isb; bool b[4]; const char *label, *command; } Line;   // num: -1 not numeric; isb: words read as booleans
static char longValue[400], longLine[440], longWord[300];
static Line L[] = {
    {"Alpha 12", "Alpha", "12", 1, {12}},
    {"Alpha\t-0.5 2 3e2 4 ", "Alpha", "-0.5 2 3e2 4", 4, {-0.5, 2, 300, 4}},
    {"ALPHA   text with  blanks   # comment", "ALPHA", "text with  blanks", -1},
    {"Beta true false YES no", "Beta", "true false YES no", -1, {0}, 1, {1, 0, 1, 0}},
    {"Beta north", "Beta", "north", -1, {0}, 1, {0}},
    {"Beta .25 -7", "Beta", ".25 -7", 2, {.25, -7}},
    {"# Alpha 99", NULL},
    {"", NULL},
    {"   ", NULL},
    {"  # Beta 4", NULL},
    {"  Alpha 7", "Alpha", "7", 1, {7}},
    {"\tBeta\t \"quoted text\" \t", "Beta", "\"quoted text\"", -1},
    {"Gamma", "Gamma", "", -1},
    {"Gamma  \t", "Gamma", "", -1},
    {"Beta 1.5# 2.5", "Beta", "1.5", 1, {1.5}},
    {"Control 'Go' \"t w; v\"", "Control", "'Go' \"t w; v\"", -1, {0}, 0, {0}, "Go", "t w; v"},
    {"Control 'Go", "Control", "'Go", -1, {0}, 0, {0}, "", ""},
    {"Control  \"it's\" x 'y z'", "Control", "\"it's\" x 'y z'", -1, {0}, 0, {0}, "it's", "y z"},
    {"WaveformCal s01 2 1 2 3 4  5 6 7 8", "WaveformCal", "s01 2 1 2 3 4  5 6 7 8", -1},
    {"Alpha 5\r", "Alpha", "5", 1, {5}},
    {longLine, "Beta", longValue, -1},
    {"x", NULL},
    {"AlphaBeta 3", "AlphaBeta", "3", 1, {3}},
    {"Beta +3 word", "Beta", "+3 word", 1, {3}},
    {"Alpha 5000000000 -5e10", "Alpha", "5000000000 -5e10", 2, {5e9, -5e10}},
    {"Control \"Only label\"", "Control", "\"Only label\"", -1, {0}, 0, {0}, "Only label", ""},
    {longWord, "Gamma", longWord + 6, -1},
};
enum { NL = sizeof L / sizeof *L };
static const char *Q[] = {"Alpha", "beta", "GAMMA", "Control", "WaveformCal", "AlphaBeta", "Nope", "Alph"};
static char fn[64]; static int pick[1200], np;
static void setup(void) {
    rkQuiet();
    for (int k = 0; k < 300; k++) longValue[k] = "abcdefghij "[k % 11];
    longValue[299] = 'z'; snprintf(longLine, sizeof longLine, "Beta %s", longValue);
    strcpy(longWord, "Gamma no"); memset(longWord + 8, 'o', 200);
}
static void put(bool reverse, bool endl) {
    FILE *f = fopen(fn, "w");
    for (int k = 0; k < np; k++) fprintf(f, "%s%s", L[pick[reverse ? np - 1 - k : k]].text, k < np - 1 || endl ? "\n" : "");
    fclose(f);
}
static int lowest(void) { int f = open("/dev/null", O_RDONLY); close(f); return f; }
static int nth(const char *key, int n, bool reverse) { // index into L of the n-th line with the keyword, or -1
    int found = 0;
    for (int k = 0; k < np && found < RKPreferenceObjectCount; k++) { int i = pick[reverse ? np - 1 - k : k]; if (L[i].key && !strcasecmp(L[i].key, key) && n-- == 0) return i; }
    return -1;
}
static void object(RKPreferenceObject *o, int i, const char *what) {
    if (i < 0) { mc_assert(!o, "absent", "%s: found '%s %s', which the file does not have", what, o->keyword, o->valueString); return; }
    mc_assert(o, "missing", "%s: not found", what);
    mc_assert(!strcmp(o->keyword, L[i].key), "keyword", "%s: keyword '%s', written '%s'", what, o->keyword, L[i].key);
    mc_assert(!strcmp(o->valueString, L[i].value), "value", "%s: value '%s', written '%s'", what, o->valueString, L[i].value);
    mc_assert(o->isNumeric == (L[i].num >= 0), "numeric", "%s: '%s' numeric = %d", what, L[i].value, o->isNumeric);
    if (L[i].num >= 0) { mc_assert((int)o->numericCount == L[i].num, "numeric", "%s: '%s' has %d numbers", what, L[i].value, o->numericCount); for (int k = 0; k < L[i].num; k++) mc_assert(o->doubleValues[k] == L[i].d[k], "numeric", "%s: '%s' is %g", what, L[i].value, o->doubleValues[k]); }
    for (int k = 0; k < 4; k++) mc_assert(!L[i].isb || o->boolValues[k] == L[i].b[k], "boolean", "%s: word %d of '%s' is %d", what, k, L[i].value, o->boolValues[k]);
}
static int count(const char *key) { int n = 0; while (nth(key, n, false) >= 0) n++; return n; }
static double clip(double x, double lo) { return x < lo ? lo : x > 1e9 ? 1e9 : x; }
static void values(const char *key) {
    for (int type = RKParameterTypeInt; type <= RKParameterTypeWaveformCalibration; type++) {
        RKPreference *p = RKPreferenceInitWithFile(fn);
        union { int i[4]; unsigned u[4]; bool b[4]; float f[4]; double d[4]; char s[24]; } v; RKControl c; RKWaveformCalibration w;
        strcpy(c.label, "old label"); strcpy(c.command, "old command");
        for (int n = 0;; n++) {
            int i = nth(key, n, false); char what[100]; snprintf(what, sizeof what, "value %d of %s as type %d", n, key, type);
            if (i >= 0 && type == RKParameterTypeControl && !L[i].label) break;
            if (i >= 0 && type == RKParameterTypeWaveformCalibration && strcasecmp(key, "WaveformCal")) break;
            memset(&v, 0x55, sizeof v);
            void *t = type == RKParameterTypeControl ? (void *)&c : type == RKParameterTypeWaveformCalibration ? (void *)&w : &v;
            int r = RKPreferenceGetValueOfKeyword(p, 0, key, t, type, type == RKParameterTypeString ? 20 : 4);
            if (i < 0) { mc_assert(r == RKResultPreferenceKeywordNotFound, "absent", "%s: result %d", what, r); break; }
            const double *d = L[i].d; const int m = L[i].num < 0 ? 0 : L[i].num;
            if (type == RKParameterTypeControl) {
                const bool whole = L[i].label[0] && L[i].command[0];
                mc_assert((r == RKResultSuccess) == whole, "control", "%s: '%s' gives result %d", what, L[i].value, r);
                if (whole) mc_assert(!strcmp(c.label, L[i].label) && !strcmp(c.command, L[i].command), "control", "%s: '%s' read as '%s' '%s'", what, L[i].value, c.label, c.command);
                continue;
            }
            mc_assert(r == RKResultSuccess, "missing", "%s: result %d", what, r);
            for (int k = 0; k < m; k++) {
                if (type == RKParameterTypeInt) mc_assert(v.i[k] == (int)clip(d[k], -1e9), "int", "%s: %d for %g", what, v.i[k], d[k]);
                if (type == RKParameterTypeUInt) mc_assert(v.u[k] == (unsigned)clip(d[k], 0), "uint", "%s: %u for %g", what, v.u[k], d[k]);
                if (type == RKParameterTypeFloat) mc_assert(v.f[k] == (float)clip(d[k], -1e9), "float", "%s: %g for %g", what, v.f[k], d[k]);
                if (type == RKParameterTypeDouble) mc_assert(v.d[k] == clip(d[k], -1e9), "double", "%s: %g for %g", what, v.d[k], d[k]);
            }
            if (type == RKParameterTypeBool && L[i].isb) for (int k = 0; k < 4; k++) mc_assert(v.b[k] == L[i].b[k], "boolean", "%s: word %d of '%s'", what, k, L[i].value);
            if (type == RKParameterTypeString) { mc_assert(memchr(v.s, 0, 20) && !strncmp(v.s, L[i].value, 19) && strlen(v.s) == MIN(19, strlen(L[i].value)), "string", "%s: '%.20s' for '%s'", what, v.s, L[i].value); mc_assert(v.s[20] == 0x55, "string", "%s: written past the end", what); }
            if (type == RKParameterTypeWaveformCalibration) { mc_assert(!strcmp(w.name, "s01") && w.count == 2, "calibration", "%s: '%s' %d", what, w.name, w.count); for (int k = 0; k < 2; k++) mc_assert(w.ZCal[k][0] == 4 * k + 1 && w.ZCal[k][1] == 4 * k + 2 && w.DCal[k] == 4 * k + 3 && w.PCal[k] == 4 * k + 4, "calibration", "%s: constants of tone %d", what, k); }
            mc_count(1);
        }
        RKPreferenceFree(p);
    }
}
static void body(void) {
    snprintf(fn, sizeof fn, "pref-%d.conf", (int)getpid());
    const int large = mc_param("large", 0); uint64_t h = 0; bool endl = true;
    if (large) {   // long files
        static const int N[] = {126, 127, 128, 129, 140, 300, 998, 999};
        np = N[mc_choose(8, "lines")]; int a = mc_choose(NL, "line"), b = mc_choose(3, "other");
        for (int k = 0; k < np; k++) pick[k] = k % 5 == 0 ? a : (int[]){0, 6, 15}[b];
        int ob = 0; for (int k = 0; k < np; k++) { if (L[pick[k]].key && ob++ >= RKPreferenceObjectCount) { np = k; break; } }
        int keep = np; np = N[0] < 0 ? 0 : keep; endl = true;
    } else {
        np = mc_choose(mc_param("lines", 3) + 1, "lines");
        for (int k = 0; k < np; k++) { pick[k] = mc_choose(NL, "line"); h = h * 31 + pick[k]; }
        endl = np ? mc_choose(2, "newline") == 0 : true;
    }
    const int fd = lowest();
    put(false, endl);
    RKPreference *p = RKPreferenceInitWithFile(fn);
    mc_assert(lowest() == fd, "file-left-open", "the file is still open after it has been read");
    int total = 0; for (int k = 0; k < np; k++) total += L[pick[k]].key != NULL;
    mc_assert((int)p->count == total, "count", "%u lines are read, the file has %d", p->count, total);
    for (int pass = 0; pass < 2; pass++) {
        const bool rev = pass;
        if (pass) {   // update after the file has changed, in the middle of looking for a keyword
            RKPreferenceFindKeyword(p, Q[0]);
            put(true, true); mc_assert(RKPreferenceUpdate(p) == RKResultSuccess, "update", "update failed");
            mc_assert((int)p->count == total, "count", "%u lines are read after an update, the file has %d", p->count, total);
        }
        for (int q = 0; q < 8; q++) {
            int n = count(Q[q]); char what[80];
            mc_assert(RKPreferenceGetKeywordCount(p, Q[q]) == n, "count", "%s counted %d times, written %d times", Q[q], RKPreferenceGetKeywordCount(p, Q[q]), n);
            for (int k = 0; k <= n; k++) { snprintf(what, sizeof what, "occurrence %d of %s%s", k, Q[q], pass ? " after an update" : ""); object(RKPreferenceFindKeyword(p, Q[q]), nth(Q[q], k, rev), what); }
            if (n) object(RKPreferenceFindKeyword(p, Q[q]), -1, "after the last");
            mc_count(n + 1);
        }
        // a query for another keyword starts over; one for an absent keyword changes nothing
        for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) if (a != b && count(Q[a])) {
            RKPreferenceFindKeyword(p, Q[b]);
            RKPreferenceFindKeyword(p, Q[a]);
            RKPreferenceObject *o = RKPreferenceFindKeyword(p, Q[b]);
            if (count(Q[b])) object(o, nth(Q[b], 0, rev), "first again"); else object(o, -1, "absent");
        }
    }
    RKPreferenceFree(p);
    put(false, endl);
    for (int q = 0; q < 7; q++) values(Q[q]);
    unlink(fn);
    p = RKPreferenceInitWithFile(fn); mc_assert(p && p->count == 0 && !RKPreferenceFindKeyword(p, "Alpha"), "no-file", "something is found in a file that is not there"); RKPreferenceFree(p);
    mc_outcome(h * 2 + endl + np * 1000003);
}
int main(int argc, char **argv) {
    mc_config c = {.name = "c14_pref", .setup = setup, .body = body, .bound = 0};
    return mc_main(argc, argv, &c);
}
