// C20: JSON helpers extract and rewrite exactly the named value.
// Texts are enumerated from an alphabet; a recursive-descent parser of its own provides the reference.
#include "rk.h"
#include <ctype.h>
#include <string.h>
#include <stdlib.h>
static const char *KEY[] = {"a", "Enum", "GPS a", "x\\\"y", "e:,}]", "A", "it's", "", "u\\\\", "Enumx", "ba"};
static const char *VAL[] = {"12", "-3.5e2", "true", "null", "\"s\"", "\"\"", "\"t,r}u]e:{[\"", "\"q\\\"u: \\\\o\\\\\"", "\"it's\"", "\"a\"", "\"Enum\"", "\"True\"", "\"false\"", "[]", "{}", "[1, \"a,]b\", {\"a\": 2}, [3]]",
    "{\"Enum\":1}", "{\"Value\":\"x}\", \"Enum\": 10, \"a\":{\"Enum\":3}}", "{\"a\":{\"Enum\":33,\"b\":[{\"Enum\":4}]}, \"Enum\":5}", "{ \"b\" : { \"GPS a\" : \"\\\"a\\\":7\" } }", "[\"true\",\"TRUE\", \"FALSE\",{\"true\":\"true\"}]"};
static const char *VAL2[] = {"\"\\\\\"", "[{}]", "{\"Enum\":{\"Enum\":1},\"it's\":'x'}", "0", "\"'a': 5\"", "\"{'Enum':1}\"", "[\"Enum\",\"a\"]"};
enum { NK = sizeof KEY / sizeof *KEY, NV = sizeof VAL / sizeof *VAL, NV2 = sizeof VAL2 / sizeof *VAL2 };
static const char *QQ[] = {"a", "A", "Enum", "enum", "Value", "GPS a", "x\\\"y", "e:,}]", "it's", "", "b", "s", "Enumx", "Enu", "ba", "nope", "true", "u\\\\", "y", ":", ","};
static const int NUM[] = {0, 7, 10, 12345, -1};
typedef struct { int ks, kl, vs, ve, depth, parent; } Member;   // offsets; parent: member whose value is the object with this one, -1 outermost
static Member M[200]; static int nm; static const char *T; static int pos;
static void ws(void) { while (T[pos] == ' ' || T[pos] == '\n' || T[pos] == '\t' || T[pos] == '\r') pos++; }
static void str_(void) { char q = T[pos++]; while (T[pos] != q) { if (T[pos] == '\\') pos++; pos++; } pos++; }
static void value_(int depth, int parent) {
    ws();
    if (T[pos] == '"' || T[pos] == '\'') { str_(); return; }
    if (T[pos] == '[') { pos++; ws(); if (T[pos] == ']') { pos++; return; } for (;;) { value_(depth + 1, -2); ws(); if (T[pos++] == ']') return; } }
    if (T[pos] == '{') {
        pos++; ws(); if (T[pos] == '}') { pos++; return; }
        for (;;) {
            ws(); int i = nm++; M[i].ks = pos + 1; str_(); M[i].kl = pos - 1 - M[i].ks; ws(); pos++; ws();
            M[i].vs = pos; M[i].depth = depth; M[i].parent = parent; value_(depth + 1, i); M[i].ve = pos; ws();
            if (T[pos++] == '}') return;
        }
    }
    while (!strchr(",]} \n\t\r", T[pos])) pos++;
}
static void parse(const char *t) { T = t; pos = 0; nm = 0; value_(0, -1); mc_assert((size_t)pos == strlen(t), "harness", "parsed %d of '%s'", pos, t); }
static void bare(char *d, const char *s, int n) {   // without white space outside of strings
    char q = 0;
    for (int k = 0; k < n; k++) {
        if (q) { *d++ = s[k]; if (s[k] == '\\') *d++ = s[++k]; else if (s[k] == q) q = 0; }
        else if (s[k] == '"' || s[k] == '\'') { q = s[k]; *d++ = s[k]; }
        else if (!strchr(" \n\t\r", s[k])) *d++ = s[k];
    }
    *d = 0;
}
static bool eqi(const char *q, const Member *m) { return (int)strlen(q) == m->kl && !strncasecmp(q, T + m->ks, m->kl); }
static char *room(const char *s, size_t extra) { size_t n = strlen(s); char *p = malloc(n + extra + 1); memcpy(p, s, n + 1); return p; }
static void lookup(const char *text) {
    char *t = room(text, 0);
    for (unsigned q = 0; q < sizeof QQ / sizeof *QQ; q++) {
        int i = 0; while (i < nm && !eqi(QQ[q], &M[i])) i++;
        char *v = RKGetValueOfKey(t, QQ[q]);
        if (i == nm) mc_assert(!v, "absent", "'%s' gives '%s' in %s, which does not have it", QQ[q], v, text);
        else {
            mc_assert(v, "missing", "'%s' not found in %s", QQ[q], text);
            size_t n = MIN(255, M[i].ve - M[i].vs);
            mc_assert(strlen(v) == n && !memcmp(v, text + M[i].vs, n), "value", "'%s' gives '%s' in %s", QQ[q], v, text);
        }
        mc_count(1);
    }
    free(t);
}
static int topnext(int i) { for (i++; i < nm; i++) if (M[i].parent == -1 && M[i].depth == 0) return i; return nm; }
static void iterate(const char *text) {
    const size_t n = strlen(text) + 1; char *t = room(text, 0), *key = malloc(n), *value = malloc(n), *element = malloc(n), *kv = malloc(n), *ref = malloc(n), *c;
    // pairs with their types
    c = t + 1;
    int i = topnext(-1), turns = 0;
    while (*c && *c != '}') {
        uint8_t type = 99;
        c = RKExtractJSON(c, &type, key, value);
        if (type == RKJSONObjectTypeUnknown && !*c) break;
        mc_assert(i < nm, "extract", "more pairs ('%s') than there are in %s", key, text);
        const char k = text[M[i].vs]; const int want = k == '{' ? RKJSONObjectTypeObject : k == '[' ? RKJSONObjectTypeArray : k == '"' ? RKJSONObjectTypeString : RKJSONObjectTypePlain;
        mc_assert(type == want, "extract", "type %d of '%s' in %s", type, key, text);
        mc_assert((int)strlen(key) == M[i].kl && !strncmp(key, text + M[i].ks, M[i].kl), "extract", "key '%s' in %s", key, text);
        mc_assert((int)strlen(value) == M[i].ve - M[i].vs && !strncmp(value, text + M[i].vs, strlen(value)), "extract", "value '%s' of '%s' in %s", value, key, text);
        i = topnext(i); mc_assert(++turns < 100, "extract-endless", "%s", text);
    }
    mc_assert(i == nm, "extract", "pairs are missing from %s", text);
    // pairs of the text between the brackets
    char *inner = room(t + 1, 0); inner[strlen(inner) - 1] = 0; c = inner;
    for (i = topnext(-1), turns = 0; c; i = topnext(i)) {
        c = RKGetNextKeyValue(c, key, value);
        if (i == nm) { mc_assert(!c && !*value, "next", "'%s' after the last pair of %s", value, text); break; }
        mc_assert((int)strlen(key) == M[i].kl && !strncmp(key, text + M[i].ks, M[i].kl), "next", "key '%s' in %s", key, text);
        mc_assert((int)strlen(value) == M[i].ve - M[i].vs && !strncmp(value, text + M[i].vs, strlen(value)), "next", "value '%s' of '%s' in %s", value, key, text);
        mc_assert(++turns < 100, "next-endless", "%s", text);
    }
    mc_assert(i == nm, "next", "pairs are missing from %s", text);
    free(inner);
    // elements
    c = t + 1;
    for (i = topnext(-1), turns = 0; *c; i = topnext(i)) {
        c = RKJSONGetElement(element, c);
        if (i == nm) { mc_assert(!*element, "element", "'%s' after the last element of %s", element, text); break; }
        bare(ref, text + M[i].ks - 1, M[i].ve - M[i].ks + 1); bare(kv, element, strlen(element));
        mc_assert(!strcmp(ref, kv), "element", "element '%s' in %s", element, text);
        char *e = room(element, 0); RKJSONKeyValueFromElement(key, value, e); free(e);
        mc_assert((int)strlen(key) == M[i].kl && !strncmp(key, text + M[i].ks, M[i].kl), "element-key", "key '%s' in %s", key, text);
        bare(ref, text + M[i].vs, M[i].ve - M[i].vs); bare(kv, value, strlen(value));
        mc_assert(!strcmp(ref, kv), "element-value", "value '%s' of '%s' in %s", value, key, text);
        mc_assert(!strchr("{[", *value) ? strlen(value) == strlen(ref) : true, "element-value", "value '%s' of '%s' in %s", value, key, text);
        mc_assert(++turns < 100, "element-endless", "%s", text);
    }
    mc_assert(i == nm, "element", "elements are missing from %s", text);
    // value of a key of the outermost object
    for (unsigned q = 0; q < sizeof QQ / sizeof *QQ; q++) {
        for (i = topnext(-1); i < nm && !eqi(QQ[q], &M[i]); i = topnext(i));
        if (!*QQ[q]) continue;   // after the last element, the key is the empty string
        c = RKJSONGetValueOfKey(element, key, value, QQ[q], t);
        mc_assert(c >= t && c <= t + n - 1, "of-key", "position outside of %s", text);
        if (i == nm) { mc_assert(!*element && !*value, "of-key-absent", "'%s' gives '%s' in %s", QQ[q], value, text); continue; }
        bare(ref, text + M[i].vs, M[i].ve - M[i].vs); bare(kv, value, strlen(value));
        mc_assert(!strcmp(ref, kv) && (int)strlen(key) == M[i].kl, "of-key", "'%s' gives '%s' in %s", QQ[q], value, text);
        int j = topnext(i); if (j < nm) mc_assert(c == t + M[j].ks - 1, "of-key", "position after '%s' is '%s' in %s", QQ[q], c, text);
        mc_count(1);
    }
    // every value as a text of its own
    for (i = 0; i < nm; i++) {
        memcpy(value, text + M[i].vs, M[i].ve - M[i].vs); value[M[i].ve - M[i].vs] = 0;
        char *v = room(value, 0); RKUnquote(v);
        const bool quoted = *value == '"' || *value == '\'';
        mc_assert(strlen(v) == strlen(value) - 2 * quoted && !strncmp(v, value + quoted, strlen(v)), "unquote", "%s gives %s", value, v); free(v);
    }
    free(t); free(key); free(value); free(element); free(kv); free(ref);
}
static void replace(const char *text) {
    char want[2000];
    for (unsigned q = 0; q < sizeof QQ / sizeof *QQ; q++) for (int v = 0; v < 5; v++) {
        // all values of the key; a value inside of a replaced one goes with it
        int at = 0; char *w = want; int hits = 0;
        for (int i = 0; i < nm; i++) if (M[i].vs >= at && (int)strlen(QQ[q]) == M[i].kl && !strncmp(QQ[q], text + M[i].ks, M[i].kl)) {
            w += sprintf(w, "%.*s%d", M[i].vs - at, text + at, NUM[v]); at = M[i].ve; hits++;
        }
        strcpy(w, text + at);
        size_t extra = strlen(want) > strlen(text) ? strlen(want) - strlen(text) : 0;
        size_t grow = 0; for (int i = 0; i < nm; i++) grow += 6;   // intermediate texts may be longer
        char *t = room(text, extra + (hits ? grow : 0)); RKReplaceAllValuesOfKey(t, QQ[q], NUM[v]);
        mc_assert(!strcmp(t, want), "replace", "values of '%s' by %d give %s, expected %s", QQ[q], NUM[v], t, want); free(t);
        // the enumeration of the first object with a name that contains the key
        int hit = -1; if (!*QQ[q]) continue;
        for (int i = 0; i < nm && hit < 0; i++) {
            char name[100]; sprintf(name, "%.*s", M[i].kl, text + M[i].ks);
            if (text[M[i].vs] != '{' || !strcasestr(name, QQ[q])) continue;
            for (int j = 0; j < nm; j++) if (M[j].parent == i && M[j].kl == 4 && !strncmp("Enum", text + M[j].ks, 4)) { hit = j; break; }
        }
        if (hit < 0) strcpy(want, text); else sprintf(want, "%.*s%d%s", M[hit].vs, text, NUM[v], text + M[hit].ve);
        extra = strlen(want) > strlen(text) ? strlen(want) - strlen(text) : 0;
        t = room(text, extra); RKReplaceEnumOfKey(t, QQ[q], NUM[v]);
        mc_assert(!strcmp(t, want), "replace-enum", "Enum of '%s' by %d gives %s, expected %s", QQ[q], NUM[v], t, want); free(t);
        mc_count(2);
    }
    // quoted truth values
    char *w = want;
    for (const char *c = text; *c;) {
        if (*c != '"') { *w++ = *c++; continue; }
        T = text; pos = (int)(c - text); str_(); int e = pos; ws(); const bool key = text[pos] == ':'; const int n = e - (int)(c - text);
        if (!key && n == 6 && !strncasecmp(c, "\"true\"", 6)) w += sprintf(w, "true");
        else if (!key && n == 7 && !strncasecmp(c, "\"false\"", 7)) w += sprintf(w, "false");
        else { memcpy(w, c, n); w += n; }
        c = text + e;
    }
    *w = 0; char *t = room(text, 0); RKReviseLogicalValues(t);
    mc_assert(!strcmp(t, want), "logical", "%s gives %s, expected %s", text, t, want); free(t);
}
static void damaged(const char *text) {   // cut anywhere: nothing outside of the buffers, and an end
    const size_t n = strlen(text);
    for (size_t cut = 0; cut < n; cut++) {
        char *t = malloc(cut + 1), *k = malloc(n + 2), *v = malloc(n + 2), *e = malloc(n + 2), *c; memcpy(t, text, cut); t[cut] = 0; int turns = 0; uint8_t type;
        for (int q = 0; q < 4; q++) { RKGetValueOfKey(t, QQ[q]); if (cut) RKJSONGetValueOfKey(e, k, v, QQ[q], t); }
        for (c = t; *c && *c != '}' && turns < 200; turns++) c = RKExtractJSON(c, &type, k, v);
        mc_assert(turns < 200, "extract-endless", "%s", t);
        for (c = t, turns = 0; c && turns < 200; turns++) c = RKGetNextKeyValue(c, k, v);
        mc_assert(turns < 200, "next-endless", "%s", t);
        for (c = t, turns = 0; *c && turns < 200; turns++) { c = RKJSONGetElement(e, c); mc_assert(c <= t + cut, "past-the-end", "%s", t); RKJSONKeyValueFromElement(k, v, e); }
        mc_assert(turns < 200, "element-endless", "%s", t);
        strcpy(k, t); RKUnquote(k);
        char *r = malloc(cut + 1 + 6 * nm); strcpy(r, t); RKReplaceAllValuesOfKey(r, "Enum", 3); strcpy(r, t); RKReplaceEnumOfKey(r, "a", 3); strcpy(r, t); RKReviseLogicalValues(r); free(r);
        free(t); free(k); free(v); free(e); mc_count(1);
    }
}
static void longer(void) {   // values around the length that a lookup can hold
    static const char *OPEN[] = {"\"", "[", "{\"a\":\"", ""}, *CLOSE[] = {"\"", "]", "\"}", ""};
    int n = 240 + mc_choose(40, "length"), s = mc_choose(4, "shape"); char text[600], b[400]; memset(b, '1', sizeof b); b[n] = 0;
    snprintf(text, sizeof text, "{\"k\":%s%s%s,\"Enum\":12}", OPEN[s], b, CLOSE[s]);
    char *t = room(text, 0), keep[8][300]; char *p[8];
    parse(text);
    for (int k = 0; k < 8; k++) { p[k] = RKGetValueOfKey(t, k & 1 ? "Enum" : "k"); mc_assert(p[k], "missing", "value of %d characters", n); snprintf(keep[k], 300, "%.*s", (int)MIN(255, M[k & 1 ? nm - 1 : 0].ve - M[k & 1 ? nm - 1 : 0].vs), text + M[k & 1 ? nm - 1 : 0].vs); }
    for (int k = 0; k < 8; k++) mc_assert(!strcmp(p[k], keep[k]), "value", "lookup %d of a text with a value of %d characters gives '%s'", k, n, p[k]);
    free(t); mc_outcome(n * 4 + s);
}
static void body(void) {
    if (mc_param("long", 0)) { longer(); return; }
    static const char *OPEN[] = {"{", "{", "{ ", "{\n\t"}, *COLON[] = {":", ": ", " : ", ":\t"}, *COMMA[] = {",", ", ", " , ", ",\n\t"}, *CLOSE[] = {"}", "}", " }", "\r\n}"};
    const int max = mc_param("members", 2), nk = mc_param("keys", NK), nv = mc_param("values", NV + NV2);
    int n = mc_choose(max + 1, "members"), style = mc_choose(4, "style"); char text[1200], *w = text; uint64_t h = style;
    w += sprintf(w, "%s", OPEN[style]);
    for (int k = 0; k < n; k++) {
        int i = mc_choose(nk, "key"), j = mc_choose(nv, "value"); h = h * 1009 + i * 31 + j;
        w += sprintf(w, "%s\"%s\"%s%s", k ? COMMA[style] : "", KEY[i], COLON[style], j < NV ? VAL[j] : VAL2[j - NV]);
    }
    strcpy(w, CLOSE[style]);
    mc_note("%s", text);
    parse(text);
    lookup(text); iterate(text); replace(text);
    if (n < 2 || style == 1) damaged(text);
    mc_outcome(h);
}
static void setup(void) { rkQuiet(); if (!mc_replaying() && !freopen("/dev/null", "w", stderr)) abort(); }
int main(int argc, char **argv) {
    mc_config c = {.name = "c20_json", .setup = setup, .body = body, .bound = 0, .shard_depth = 3};
    return mc_main(argc, argv, &c);
}
