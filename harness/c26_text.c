// C26: stream subscriptions and text conversions are faithful both ways.
#include "rk.h"
#include <string.h>
#include <stdlib.h>
#include <time.h>
static char *room(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
// --- streams: the letters and what they stand for
static const struct { char c; RKStream s; } FLAG[] = {
    {'x', RKStreamStatusTerminalChange}, {'!', RKStreamStatusProcessorStatus}, {'h', RKStreamHealthInJSON},
    {'z', RKStreamDisplayZ}, {'v', RKStreamDisplayV}, {'w', RKStreamDisplayW}, {'d', RKStreamDisplayD}, {'p', RKStreamDisplayP}, {'r', RKStreamDisplayR}, {'k', RKStreamDisplayK}, {'s', RKStreamDisplaySh}, {'t', RKStreamDisplaySv}, {'i', RKStreamDisplayIQ},
    {'Z', RKStreamProductZ}, {'V', RKStreamProductV}, {'W', RKStreamProductW}, {'D', RKStreamProductD}, {'P', RKStreamProductP}, {'R', RKStreamProductR}, {'K', RKStreamProductK}, {'S', RKStreamProductSh}, {'T', RKStreamProductSv}, {'I', RKStreamProductIQ},
    {'Y', RKStreamSweepZ}, {'U', RKStreamSweepV}, {'X', RKStreamSweepW}, {'C', RKStreamSweepD}, {'O', RKStreamSweepP}, {'Q', RKStreamSweepR}, {'J', RKStreamSweepK}, {'H', RKStreamSweepQ}, {'A', RKStreamSweepSh}, {'B', RKStreamSweepSv}};
enum { NF = sizeof FLAG / sizeof *FLAG };
static RKStream meaning(const char *s) {
    RKStream f = 0;
    for (; *s; s++) { if (*s >= '0' && *s <= '8') f = (f & ~15ULL) | (RKStream)(*s - '0' + 1); for (int k = 0; k < NF; k++) if (FLAG[k].c == *s) f |= FLAG[k].s; }
    return f;
}
static void trip(RKStream s) {
    char text[64]; memset(text, 0x7f, sizeof text);
    int n = RKStringFromStream(text, s);
    mc_assert(n == (int)strlen(text), "stream-length", "%d characters reported for '%s'", n, text);
    mc_assert(RKStreamFromString(text) == s, "stream-round-trip", "%016llx gives '%s', which gives %016llx", (unsigned long long)s, text, (unsigned long long)RKStreamFromString(text));
    mc_assert(!strcmp(RKStringOfStream(s), text), "stream-string", "'%s' and '%s'", text, RKStringOfStream(s)); mc_count(1);
}
static void streams(void) {
    int status = mc_choose(10, "status"), a = mc_choose(NF, "flag"); RKStream all = 0; for (int k = 0; k < NF; k++) all |= FLAG[k].s;
    trip(status); trip(status | all);
    for (int b = a; b < NF; b++) for (int c = b; c < NF; c++) { RKStream s = FLAG[a].s | FLAG[b].s | FLAG[c].s; for (int d = c; d < (mc_param("deep", 0) ? NF : c + 1); d++) { s |= FLAG[d].s; trip(s | status); trip((all & ~s) | status); } }
    mc_outcome(status * 64 + a);
}
static void letters(void) {   // every text of three characters
    int a = 32 + mc_choose(95, "first"), b = 32 + mc_choose(95, "second"); char t[4] = {a, b, 0, 0};
    mc_assert(RKStreamFromString(t) == meaning(t), "stream-text", "'%s' gives %016llx", t, (unsigned long long)RKStreamFromString(t));
    for (int c = 32; c < 127; c++) { t[2] = c; mc_assert(RKStreamFromString(t) == meaning(t), "stream-text", "'%s' gives %016llx", t, (unsigned long long)RKStreamFromString(t)); mc_count(1); }
    mc_outcome(a * 128 + b);
}
// --- lists of numbers
static const struct { const char *t; double d; int64_t i; uint64_t u; } NUMB[] = {{"0", 0, 0, 0}, {"-32", -32, -32, -32}, {"0.5", .5, 0, 0}, {"-1.25e2", -125, -1, -1}, {"  7", 7, 7, 7}, {"2147483647", 2147483647., 2147483647, 2147483647}, {"4294967295", 4294967295., 4294967295LL, 4294967295ULL}, {"9223372036854775807", 9223372036854775807., INT64_MAX, INT64_MAX}, {"18446744073709551615", 18446744073709551615., 0, UINT64_MAX}, {"+3 ", 3, 3, 3}};
static void numbers(void) {
    enum { NN = sizeof NUMB / sizeof *NUMB };
    int n = mc_choose(4, "items"), idx[4], form = mc_choose(6, "form"), type = mc_choose(6, "type"); char text[200], *w = text;
    static const char *OPEN[] = {"", "[", "[ ", "x] [", "", "["}, *SEP[] = {",", ", ", " ,", ",", ", ", ","}, *CLOSE[] = {"", "]", " ]", "]", " ", "] [9]"};
    w += sprintf(w, "%s", OPEN[form]);
    for (int k = 0; k < n; k++) { idx[k] = mc_choose(NN, "number"); w += sprintf(w, "%s%s", k ? SEP[form] : "", NUMB[idx[k]].t); }
    strcpy(w, CLOSE[form]); if (form == 4 && n == 0) text[0] = 0; if (n == 0 && form == 2) strcpy(text, "[]");
    const RKValueType T[] = {RKValueTypeFloat, RKValueTypeDouble, RKValueTypeInt32, RKValueTypeUInt32, RKValueTypeInt64, RKValueTypeUInt64}; const int size[] = {4, 8, 4, 4, 8, 8};
    char *t = room(text);
    for (int cap = 0; cap <= 4; cap++) {
        char *v = malloc(cap * size[type] + 1) ; memset(v, 0x55, cap * size[type] + 1);
        size_t got = RKParseNumericArray(v, T[type], cap, t); const int want = MIN(cap, n);
        mc_assert((int)got == want, "number-count", "%zu numbers of '%s' with room for %d", got, text, cap);
        for (int k = 0; k < want; k++) {
            bool ok = true; char *p = v + k * size[type]; double d = NUMB[idx[k]].d; int64_t i = NUMB[idx[k]].i; uint64_t u = NUMB[idx[k]].u;
            switch (type) { case 0: ok = *(float *)p == (float)d; break; case 1: ok = *(double *)p == d; break; case 2: if (idx[k] < 6 || idx[k] > 8) ok = *(int32_t *)p == i; break; case 3: if (idx[k] < 7 || idx[k] > 8) ok = *(uint32_t *)p == (uint32_t)u; break; case 4: if (idx[k] != 8) ok = *(int64_t *)p == i; break; case 5: ok = *(uint64_t *)p == u; }
            mc_assert(ok, "number", "item %d of '%s' as type %d", k, text, type);
        }
        for (int k = want * size[type]; k < cap * size[type] + 1; k++) mc_assert(v[k] == 0x55, "number-overrun", "byte %d after %d numbers of '%s' is written", k, want, text);
        free(v); mc_count(1);
    }
    free(t); mc_outcome(((n * 6 + form) * 6 + type) * 1000 + (n > 0 ? idx[0] : 0) * 100 + (n > 1 ? idx[1] : 0) * 10 + (n > 2 ? idx[2] : 0));
}
// --- quoted words
static void quoted(void) {
    static const char *WORD[] = {"go", "", "two words", "it's", "a\"b", "x"}; static const char *SEP[] = {"", " ", " junk ", ",\t"};
    int n = mc_choose(4, "words"), given = mc_choose(4, "destinations"), sep = mc_choose(4, "separator"), tail = mc_choose(3, "tail"), idx[4]; char text[200], *w = text;
    for (int k = 0; k < n; k++) { idx[k] = mc_choose(6, "word"); char q = idx[k] == 3 ? '"' : idx[k] == 4 ? '\'' : k & 1 ? '\'' : '"'; w += sprintf(w, "%s%c%s%c", SEP[sep], q, WORD[idx[k]], q); }
    strcpy(w, ((const char *[]){"", " rest", " \"open"})[tail]);
    char *d[4], *t = room(text); for (int k = 0; k < 4; k++) { const char *s = k < n ? WORD[idx[k]] : "?"; d[k] = malloc(strlen(s) + 1 + !*s); strcpy(d[k], "?"); if (!*s) d[k][0] = '?'; else { memset(d[k], '?', strlen(s)); d[k][strlen(s)] = 0; } }
    switch (given) { case 0: RKParseQuotedStrings(t, NULL); break; case 1: RKParseQuotedStrings(t, d[0], NULL); break; case 2: RKParseQuotedStrings(t, d[0], d[1], NULL); break; case 3: RKParseQuotedStrings(t, d[0], d[1], d[2], NULL); break; }
    for (int k = 0; k < given; k++) mc_assert(k < n ? !strcmp(d[k], WORD[idx[k]]) : !strcmp(d[k], "?"), "quoted", "word %d of <%s> is '%s'", k, text, d[k]);
    for (int k = 0; k < 4; k++) free(d[k]); free(t);
    mc_outcome((((n * 4 + given) * 4 + sep) * 3 + tail) * 216 + (n > 0 ? idx[0] : 0) + (n > 1 ? idx[1] * 6 : 0) + (n > 2 ? idx[2] * 36 : 0));
}
// --- paths
static void onepath(const char *p) {
    char *t = room(p), ref[64];
    // reference: where the parts begin
    size_t len = strlen(p); size_t last = 0; for (size_t k = 0; k < len; k++) if (p[k] == '/') last = k + 1;
    mc_assert(RKLastPartOfPath(t) == t + last, "last-part", "'%s' of '%s'", RKLastPartOfPath(t), p);
    if (len) for (int n = 1; n <= 4; n++) {   // the slash number n from the end, or the start without leading slashes
        int seen = 0; size_t at = 0; for (size_t k = len; k-- > 0;) if (p[k] == '/' && ++seen == n) { at = k + 1; break; }
        while (p[at] == '/') at++;
        mc_assert(RKLastNPartsOfPath(t, n) == t + at, "last-parts", "last %d parts of '%s' are '%s'", n, p, RKLastNPartsOfPath(t, n));
        if (n == 2) mc_assert(RKLastTwoPartsOfPath(t) == t + at, "last-two", "last two parts of '%s' are '%s'", p, RKLastTwoPartsOfPath(t));
    }
    if (last == 0) strcpy(ref, "."); else if (last == 1) strcpy(ref, "/"); else { memcpy(ref, p, last - 1); ref[last - 1] = 0; }
    mc_assert(!strcmp(RKFolderOfFilename(t), ref), "folder", "folder of '%s' is '%s'", p, RKFolderOfFilename(t));
    ref[0] = 0; for (size_t k = last; k < len; k++) if (p[k] == '.') strcpy(ref, p + k);
    mc_assert(!strcmp(RKFileExtension(t), ref), "extension", "extension of '%s' is '%s'", p, RKFileExtension(t));
    if (p[0] != '~') mc_assert(!strcmp(RKPathStringByExpandingTilde(t), p), "tilde", "'%s' gives '%s'", p, RKPathStringByExpandingTilde(t));
    else if (p[1] == '/' || !p[1]) { snprintf(ref, sizeof ref, "/h/u/%s", p[1] ? p + 2 : ""); mc_assert(!strcmp(RKPathStringByExpandingTilde(t), ref), "tilde", "'%s' gives '%s'", p, RKPathStringByExpandingTilde(t)); }
    else RKPathStringByExpandingTilde(t);
    free(t); mc_count(1);
}
static void paths(void) {
    static const char A[] = "a/.~-"; char p[16]; int first = mc_choose(5, "first"), second = mc_choose(6, "second"), third = mc_choose(6, "third"); const int max = mc_param("length", 7);
    setenv("HOME", mc_choose(2, "home") ? "/h/u/" : "/h/u", 1);
    p[0] = A[first]; p[1] = second < 5 ? A[second] : 0; p[2] = second < 5 && third < 5 ? A[third] : 0; p[3] = 0;
    if (second == 5 || third == 5) { if (second == 5 && third) mc_skip(); onepath(p); if (second == 5) onepath(""); mc_outcome(first * 64 + second * 8 + third); return; }
    for (int n = 3; n <= max; n++) { long total = 1; for (int k = 3; k < n; k++) total *= 5; for (long c = 0; c < total; c++) { long v = c; for (int k = 3; k < n; k++) { p[k] = A[v % 5]; v /= 5; } p[n] = 0; onepath(p); } }
    char l[200]; memset(l, 'b', 199); l[199] = 0; l[100] = '.'; l[40] = '/'; char *t = room(l); mc_assert(!strncmp(RKFileExtension(t), l + 100, strlen(RKFileExtension(t))) && strlen(RKFileExtension(t)) == 15, "extension", "of a long name"); free(t);
    mc_outcome(first * 64 + second * 8 + third);
}
// --- numbers in words
static void group(const char *s, const char *plain) {
    char d[64], *w = d; for (const char *c = s; *c; c++) if (*c != ',') *w++ = *c; *w = 0;
    mc_assert(!strcmp(d, plain), "comma", "%s written as %s", plain, s);
    const char *c = s; if (*c == '-') c++; int k = 0; while (c[k] >= '0' && c[k] <= '9') k++; mc_assert(k >= 1 && k <= 3, "comma", "%s", s); c += k;
    while (*c == ',') { for (k = 1; k < 4; k++) mc_assert(c[k] >= '0' && c[k] <= '9', "comma", "%s", s); c += 4; }
    mc_assert(!*c || *c == '.', "comma", "%s", s); mc_count(1);
}
static void integers(void) {
    int digits = mc_choose(20, "digits"), lead = mc_choose(9, "lead"), sign = mc_choose(2, "sign"); char plain[64];
    unsigned long long p = 1; for (int k = 0; k < digits; k++) p *= 10;
    for (int d = -12; d <= 12; d++) {
        unsigned long long u = p * (lead + 1) + d; if (sign == 0) { sprintf(plain, "%llu", u); group(RKUIntegerToCommaStyleString(u), plain); }
        long long v = sign ? -(long long)(u >> 1) : (long long)(u >> 1); sprintf(plain, "%lld", v); group(RKIntegerToCommaStyleString(v), plain);
        sprintf(plain, "0x%04llx", v); mc_assert(!strcmp(plain, RKIntegerToHexStyleString(v)), "hex", "%s", plain);
        if (digits < 15) { double f = (sign ? -1 : 1) * ((double)u + d * 0.125) / 8; sprintf(plain, "%.3f", f); group(RKFloatToCommaStyleString(f), plain); }
    }
    mc_outcome(digits * 32 + lead * 2 + sign);
}
static void times(void) {
    static const int F[] = {1080, 860, 800, 80, 60}; static const char *N[] = {"%Y/%m/%d %H:%M:%S", "%Y%m%d-%H%M%S", "%Y%m%d", "%H:%M:%S", "%H%M%S"};
    static const long S[] = {0, 59, 86399, 951782400, 1700000000, 2147483648L, 4102444799L}, U[] = {0, 1, 9, 99999, 100000, 500000, 999999};
    int f = mc_choose(5, "format"), n = mc_choose(7, "digits"), s = mc_choose(7, "seconds"), u = mc_choose(7, "microseconds"); struct timeval tv = {S[s], U[u]}; char ref[64];
    strftime(ref, sizeof ref, N[f], localtime(&tv.tv_sec)); if (n) { char d[8]; sprintf(d, "%06ld", U[u]); d[n] = 0; strcat(ref, "."); strcat(ref, d); }
    mc_assert(!strcmp(RKTimevalToString(tv, F[f] + n), ref), "time", "%s written as %s", ref, RKTimevalToString(tv, F[f] + n)); mc_outcome(((f * 7 + n) * 7 + s) * 7 + u);
}
// --- payloads in words
static void payload(void) {
    int n = mc_choose(70, "size"), kind = mc_choose(5, "content"); uint8_t *p = malloc(n ? n : 1); char *d = malloc(4 * n + 80), *c;
    for (int k = 0; k < n; k++) p[k] = kind == 0 ? 'a' + k % 26 : kind == 1 ? k * 37 : kind == 2 ? "\\'\"x"[k % 4] : kind == 3 ? (k ? '0' + k % 10 : 7) : 255 - k;
    c = RKBinaryString(d, p, n); mc_assert(*c == 0 && d[0] == 'b' && d[1] == '\'' && c[-1] == '\'', "binary", "%d bytes give %s", n, d);
    char *r = d + 2; for (int k = 0; k < n; k++) { int v; if (*r == '\\' && r[1] == 'x') { sscanf(r + 2, "%2x", &v); r += 4; } else if (*r == '\\') { v = (uint8_t)r[1]; r += 2; } else v = (uint8_t)*r++; mc_assert(v == p[k], "binary", "byte %d of %s", k, d); }
    mc_assert(r == c - 1, "binary", "%d bytes give %s", n, d);
    c = RKBytesInHex(d, p, n); mc_assert((int)strlen(d) == 3 * n + 2 && *c == 0, "hex", "%d bytes give %s", n, d);
    for (int k = 0; k < n; k++) { int v; sscanf(d + 2 + 3 * k, "%2x", &v); mc_assert(v == p[k], "hex", "byte %d of %s", k, d); }
    if (n) { RKRadarHubPayloadString(d, p, n); mc_assert(strlen(d) < (size_t)(4 * n + 80), "payload", "%s", d); }
    free(p); free(d); mc_outcome(n * 5 + kind);
}
// --- product descriptions
static void product(void) {
    static const char *NAME[] = {"name", "symbol", "unit", "colormap"}; static const char *VALUE[] = {"U", "Zdr", "deg per km", "a, b: {c}", ""};
    int have = mc_choose(128, "fields"), q = mc_choose(2, "quotes"), v = mc_choose(5, "value"), np = mc_choose(4, "pieces"); const char Q = "'\""[q]; char text[600], *w = text;
    w += sprintf(w, "{"); bool any = false;
    const int pieces = np == 0 ? 1 : np == 3 ? 8 : np;
#define SEP (any ? ", " : "")
    if (have & 1) { w += sprintf(w, "%ckey%c: 17", Q, Q); any = true; }
    for (int k = 0; k < 4; k++) if (have & (k == 0 ? 2 : k == 1 ? 4 : 8)) { w += sprintf(w, "%s%c%s%c: %c%s%c", SEP, Q, NAME[k], Q, Q, k == 1 ? "SY" : VALUE[(v + k) % 5], Q); any = true; }
    if (np) { w += sprintf(w, "%s%cPieceCount%c: %d", SEP, Q, Q, pieces); any = true; }
    if (have & 16) { w += sprintf(w, "%s%cb%c:", SEP, Q, Q); any = true; if (pieces == 1) w += sprintf(w, "-32"); else { w += sprintf(w, "["); for (int k = 0; k < pieces; k++) w += sprintf(w, "%s%d.5", k ? ", " : "", k - 3); w += sprintf(w, "]"); } }
    if (have & 32) { w += sprintf(w, "%s%cw%c:[", SEP, Q, Q); any = true; for (int k = 0; k < pieces; k++) w += sprintf(w, "%s%d", k ? "," : "", 2 * k + 1); w += sprintf(w, "]"); }
    if (have & 64) { w += sprintf(w, "%s%cminimumValue%c: -5.5, %cmaximumValue%c: 1e2", SEP, Q, Q, Q, Q); any = true; }
    strcpy(w, "}");
    char *t = room(text); RKProductDesc *d = malloc(sizeof *d); memset(d, 0x55, sizeof *d);
    int r = RKParseProductDescription(d, t); const bool whole = (have & 1) && (have & 2) && (have & 4) && (have & 16) && (have & 32);
    mc_assert((r == RKResultSuccess) == whole, "product", "result %d of %s", r, text);
    if (whole) {
        mc_assert(d->key == 17 && (int)d->pieceCount == pieces, "product", "key %u pieces %u of %s", d->key, d->pieceCount, text);
        mc_assert(!strcmp(d->name, VALUE[v]) && !strcmp(d->symbol, "SY"), "product-word", "name '%s' symbol '%s' of %s", d->name, d->symbol, text);
        mc_assert(!strcmp(d->unit, have & 8 ? VALUE[(v + 2) % 5] : "") && !strcmp(d->colormap, have & 8 ? VALUE[(v + 3) % 5] : ""), "product-word", "unit '%s' map '%s' of %s", d->unit, d->colormap, text);
        for (int k = 0; k < 16; k++) mc_assert(d->b[k] == (k >= pieces ? 0 : pieces == 1 ? -32 : (k < 3 ? k - 3 - .5f : k - 3 + .5f)) && d->w[k] == (k < pieces ? 2 * k + 1 : 0), "product-number", "piece %d is %g %g of %s", k, d->b[k], d->w[k], text);
        mc_assert(d->mininimumValue == (have & 64 ? -5.5f : 0) && d->maximumValue == (have & 64 ? 100 : 0), "product-number", "range %g %g of %s", d->mininimumValue, d->maximumValue, text);
    }
    free(t); free(d);
    static const uint64_t I[] = {0, 1, 255, 65535, 4294967295ULL, 18446744073709551615ULL}; char num[32];
    for (int k = 0; k < 6; k++) { sprintf(num, "%llu", (unsigned long long)I[k]); mc_assert(RKIdentifierFromString(num) == I[k] && RKProductIdFromString(num) == (RKProductId)I[k], "identifier", "%s", num); }
    mc_assert(RKIdentifierFromString(RKGetValueOfKey("{}", "configId")) == 0 && RKProductIdFromString(RKGetValueOfKey("{}", "productId")) == 0, "identifier", "not given");
    mc_outcome(((have * 2 + q) * 5 + v) * 4 + np);
}
// --- text with escape sequences
static void escapes(void) {
    static const char *P[] = {"ab", "\033[m", "\033[38;5;120m", "\033[1;32H", "x y", "\n", "é"}; int n = mc_choose(5, "parts"); char text[100], ref[100], *w = text, *r = ref; int h = 0;
    for (int k = 0; k < n; k++) { int i = mc_choose(7, "part"); h = h * 8 + i + 1; w += sprintf(w, "%s", P[i]); if (P[i][0] != 033) r += sprintf(r, "%s", P[i]); }
    *w = *r = 0; char *t = room(text); mc_assert(!strcmp(RKStripEscapeSequence(t), ref), "escape", "gives '%s'", RKStripEscapeSequence(t));
    char *d = malloc(strlen(text) + 8 * 6 + 8), want[300], *q = want; q += sprintf(q, "    "); for (char *c = text; *c; c++) { *q++ = *c; if (*c == '\n') q += sprintf(q, "    "); } *q = 0;
    int m = RKIndentCopy(d, t, 4); mc_assert(!strcmp(d, want) && m == (int)strlen(want), "indent", "'%s' for '%s'", d, want); free(d); free(t); mc_outcome(h);
}
static void body(void) {
    switch (mc_param("part", 0)) { case 0: streams(); break; case 1: letters(); break; case 2: numbers(); break; case 3: quoted(); break; case 4: paths(); break; case 5: integers(); break; case 6: times(); break; case 7: payload(); break; case 8: product(); break; case 9: escapes(); break; }
}
static void setup(void) { rkQuiet(); if (!mc_replaying() && !freopen("/dev/null", "w", stderr)) abort(); }
int main(int argc, char **argv) {
    mc_config c = {.name = "c26_text", .setup = setup, .body = body, .bound = 0, .shard_depth = 2};
    return mc_main(argc, argv, &c);
}
