// C15: scan commands take effect as told, and every sweep begins, runs and ends.
// part 0: every scan shape against every antenna     1: sequences of commands     2: schedules of commands against positions    3: long line-ups
#include "rk.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#ifndef VP_FORK
#define VP_FORK 0
#endif
enum { MOST = 256 };
typedef struct { RKScanMode mode; float es, ee, as, ae, rate; } path;
typedef struct { path b[MOST], d[MOST], h[MOST]; int nb, nd, nh, i; bool active, repeat; } model;
static RKSteerEngine *S; static RKRadarDesc desc; static RKPosition pos[100]; static uint32_t posIndex; static model M;
// --- the antenna: each axis follows its last instruction after some delay
typedef struct { double at, v, target; int mode; float value; int wait; int nmode; float nvalue; } axis;   // mode: 0 standby 1 slew 2 point
static axis X[2]; static int hz, lag; static double accel; static int ticks;
static double travel, before1; static int quiet; static int since; static double worst[2]; static bool begun, prevppi; static path prevpath; static int idle; static int completed;
static double diff(double a, double b) { double d = fmod(a - b, 360); if (d < -180) d += 360; if (d >= 180) d -= 360; return d; }
static void order(int k, RKPedestalInstructType m, float v) {
    mc_assert(isfinite(v), "action", "value %f", v); axis *a = &X[k];
    a->nmode = RKInstructIsSlew(m) ? 1 : RKInstructIsPoint(m) ? 2 : 0; mc_assert(a->nmode || RKInstructIsStandby(m), "action", "mode %x", m); a->nvalue = v; a->wait = lag + 1;
}
static void advance(void) {
    const double dt = 1.0 / hz;
    for (int k = 0; k < 2; k++) {
        axis *a = &X[k]; if (a->wait && --a->wait == 0) { a->mode = a->nmode; a->value = a->nvalue; }
        double want = 0; if (a->mode == 1) want = a->value; else if (a->mode == 2) { const double d = k ? diff(a->value, a->at) : a->value - a->at; want = fmax(-10, fmin(10, d / dt)); if (accel > 0) { const double c = sqrt(2 * accel * fabs(d)); want = fmax(-c, fmin(c, want)); } }
        if (accel > 0) { const double s = accel * dt; a->v = want > a->v + s ? a->v + s : want < a->v - s ? a->v - s : want; } else a->v = want;
        a->at += a->v * dt; if (k) a->at = a->at < 0 ? a->at + 360 : a->at >= 360 ? a->at - 360 : a->at;
    }
    ticks++;
}
// --- the line-up as it is documented
static void takeover(void) { memcpy(M.b, M.d, sizeof M.b); M.nb = M.nd; memcpy(M.d, M.h, sizeof M.d); M.nd = M.nh; M.i = 0; M.active = M.nb > 0; }
static void fresh_sweep(void) { begun = false; since = 0; worst[0] = worst[1] = 0; }
static void restart(void) { fresh_sweep(); prevppi = false; }
static const char *modename(RKScanMode m) { return RKScanModeString(m); }
static uint32_t flagsof(const path *p, bool done) {
    switch (p->mode) {
        case RKScanModePPI: case RKScanModeSector: return RKPositionFlagAzimuthSweep | RKPositionFlagElevationPoint | (done ? RKPositionFlagAzimuthComplete : 0);
        case RKScanModeRHI: return RKPositionFlagAzimuthPoint | RKPositionFlagElevationSweep | (done ? RKPositionFlagElevationComplete : 0);
        default: return RKPositionFlagAzimuthPoint | RKPositionFlagElevationPoint | (done ? RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete : 0);
    }
}
static void finished(void) {   // the sweep M.b[M.i] is done
    prevpath = M.b[M.i]; prevppi = prevpath.mode == RKScanModePPI; travel = 0; completed++; fresh_sweep();
    if (++M.i >= M.nb) { M.i = 0; if (M.repeat) takeover(); else { if (M.nb == 1 && M.b[0].mode == RKScanModePoint) M.nb = M.nd = M.nh = 0; M.active = false; } }
    idle = 0;
}
static void judge(const RKPosition *p) {
    const uint32_t all = RKPositionFlagAzimuthSweep | RKPositionFlagAzimuthPoint | RKPositionFlagAzimuthComplete | RKPositionFlagElevationSweep | RKPositionFlagElevationPoint | RKPositionFlagElevationComplete, f = p->flag, done = RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete;
    travel += fabs(X[1].v) / hz; mc_count(1);
    if (!M.active) { mc_assert(!(f & (all | RKPositionFlagVCPActive | RKPositionFlagScanActive)), "flags", "flags %08x without a scan", f); if (++idle > 5 * hz) mc_assert(X[0].v == 0 && X[1].v == 0, "not-stopped", "EL moves at %.2f and AZ at %.2f deg/s without a scan", X[0].v, X[1].v); return; }
    const path *s = &M.b[M.i]; idle = 0;
    mc_assert(f & RKPositionFlagVCPActive, "flags", "flags %08x in sweep %d (%s)", f, M.i, modename(s->mode));
    mc_assert(p->sweepElevationDegrees == s->es && p->sweepAzimuthDegrees == s->as, "wrong-sweep", "sweep EL %.1f AZ %.1f, expected sweep %d of %d, %s EL %.1f AZ %.1f", p->sweepElevationDegrees, p->sweepAzimuthDegrees, M.i, M.nb, modename(s->mode), s->es, s->as);
    mc_assert((f & all) == flagsof(s, f & done), "flags", "flags %08x in sweep %d, which is %s", f, M.i, modename(s->mode));
    mc_assert(++since < 100 * hz, "stuck", "sweep %d, %s EL %.1f AZ %.1f, does not end (EL %.2f @ %.2f, AZ %.2f @ %.2f)", M.i, modename(s->mode), s->es, s->as, X[0].at, X[0].v, X[1].at, X[1].v);
    const int mv = s->mode == RKScanModeRHI ? 0 : 1; const double start = mv ? s->as : s->es, end = mv ? s->ae : s->ee, fixed = mv ? s->es : s->as, now = X[mv].at, other = X[!mv].at, step = fabs(X[mv].v) / hz + 1e-3;
    if (f & RKPositionFlagScanActive) {
        if (!begun) { begun = true; if (s->mode != RKScanModePPI) { mc_assert(fabs(diff(now, start)) <= 0.1001 && fabs(diff(other, fixed)) <= 0.1001, "begin", "%s EL %.1f-%.1f AZ %.1f-%.1f begins at EL %.2f AZ %.2f", modename(s->mode), s->es, s->ee, s->as, s->ae, X[0].at, X[1].at); } }
        if (s->mode != RKScanModePPI && s->mode != RKScanModePoint) { mc_assert(fabs(diff(other, fixed)) < 0.6, "drift", "%s at %.1f runs with the other axis at %.2f", modename(s->mode), fixed, other); const double dir = s->rate < 0 ? -1 : 1, d = dir * diff(now, start); mc_assert(d > -6 || d < -100, "backwards", "%s from %.1f is at %.2f", modename(s->mode), start, now); }
    } else if (s->mode != RKScanModePoint && !(f & done)) mc_assert(!begun, "interrupted", "%s is no longer active at EL %.2f AZ %.2f", modename(s->mode), X[0].at, X[1].at);
    if (s->mode == RKScanModePPI && !(f & done)) { const double dir = s->rate < 0 ? -1 : 1, d0 = dir * diff(before1, end), d1 = dir * diff(now, end); mc_assert(!(d0 < -0.001 && d0 > -20 && d1 > 0.01 && d1 < 20 && quiet > 250 && quiet * fabs(X[1].v) / hz > 180), "end", "PPI passes its mark at %.1f without an end", end); }
    before1 = X[1].at;
    if (f & done) {
        if (s->mode == RKScanModePoint) { mc_assert(fabs(diff(X[0].at, s->es)) <= 0.1001 && fabs(diff(X[1].at, s->as)) <= 0.1001, "end", "pointing is complete at EL %.2f AZ %.2f", X[0].at, X[1].at); }
        else {
            mc_assert(s->mode != RKScanModeRHI && s->mode != RKScanModeSector ? true : begun, "end", "%s ends before it begins", modename(s->mode));
            const double dir = s->rate < 0 ? -1 : 1, d = dir * diff(now, end); mc_assert(d >= -1e-3 && d <= step, "end", "%s to %.1f ends at %.3f", modename(s->mode), end, now);
            if (s->mode == RKScanModePPI) { mc_assert(fabs(diff(X[0].at, s->es)) < 0.35, "end", "PPI at EL %.1f ends at EL %.2f", s->es, X[0].at); if (prevppi && prevpath.ae == s->ae && prevpath.rate == s->rate) mc_assert(travel > 360 - 2 * step - 0.01 && travel < 740, "extent", "PPI at EL %.1f covers %.2f degrees", s->es, travel); }
        }
        mc_note("%s %d of %d complete EL %.2f AZ %.2f", modename(s->mode), M.i, M.nb, X[0].at, X[1].at); finished();
    }
}
static void act(const RKScanAction *a) {
    mc_assert(!(RKInstructIsNone(a->mode[0]) && !RKInstructIsNone(a->mode[1])), "action", "the second instruction comes without the first");
    quiet++; bool seen[2] = {false, false};
    for (int k = 0; k < 2; k++) { if (RKInstructIsNone(a->mode[k])) continue; const int x = RKInstructIsAzimuth(a->mode[k]) ? 1 : 0; mc_assert(!seen[x], "action", "two instructions for one axis"); seen[x] = true; quiet = 0; order(x, a->mode[k], a->value[k]); }
}
static void reading(RKPosition *p) { memset(p, 0, sizeof *p); p->elevationDegrees = X[0].at; p->azimuthDegrees = X[1].at; p->elevationVelocityDegreesPerSecond = X[0].v; p->azimuthVelocityDegreesPerSecond = X[1].v; p->tic = ticks; }
static void step1(void) {
    advance(); RKPosition *p = &pos[posIndex]; reading(p); posIndex = (posIndex + 1) % 100;
    const RKScanAction *a = RKSteerEngineGetAction(S, p);
    if (!M.active) for (int k = 0; k < 2; k++) mc_assert(RKInstructIsNone(a->mode[k]) || RKInstructIsStandby(a->mode[k]), "moves", "instruction %x without a scan", a->mode[k]);
    judge(p); act(a);
}
static void begin(void) {
    memset(&desc, 0, sizeof desc); desc.positionBufferDepth = 100; desc.pulseBufferDepth = 1000; desc.heading = 20; posIndex = 0; memset(pos, 0, sizeof pos); memset(&M, 0, sizeof M); M.repeat = true; memset(X, 0, sizeof X); ticks = completed = idle = 0; travel = 0; restart();
    S = RKSteerEngineInit(); RKSteerEngineSetEssentials(S, &desc, pos, &posIndex, NULL, NULL); S->vcpHandle.toc = (int)ceil(0.05 * hz); S->vcpHandle.tic = 99;
}
static void finish(void) { RKSteerEngineFree(S); S = NULL; }
// --- commands
enum { Q_LINE, Q_ONCE, Q_NOW, Q_POINT, Q_START, Q_STOP, Q_NEXT, Q_STAT, Q_BAD };
typedef struct { const char *s; int kind; int n; path p[4]; } command;
#define P(e, a, r) {RKScanModePPI, e, e, a, a, r}
#define R_(e0, e1, a, r) {RKScanModeRHI, e0, e1, a, 0, r}
#define RV(e0, e1, a, r) {RKScanModeRHI, e0, e1, a, a, r}
#define SC(e, a0, a1, r) {RKScanModeSector, e, e, a0, a1, r}
static const command C[] = {
    {"rr 0,10 30,32 10", Q_LINE, 2, {R_(0, 10, 30, 10), R_(10, 0, 32, -10)}}, {"irr 1,8 40 10", Q_NOW, 1, {R_(1, 8, 40, 10)}}, {"orr 2,9 20 9", Q_ONCE, 1, {R_(2, 9, 20, 9)}},
    {"vol s 2 10,30 10/r 0,6 20 6", Q_LINE, 2, {SC(2, 10, 30, 10), RV(0, 6, 20, 6)}}, {"ivol p 2 0 40/s 3 20,50 12", Q_NOW, 2, {P(2, 0, 40), SC(3, 20, 50, 12)}}, {"ovol r 0,5 10 5", Q_ONCE, 1, {RV(0, 5, 10, 5)}},
    {"pp 2,3 0 40", Q_LINE, 2, {P(2, 0, 40), P(3, 0, 40)}}, {"point 5 60", Q_POINT, 1, {{RKScanModePoint, 5, 5, 60, 60, NAN}}}, {"start", Q_START}, {"stop", Q_STOP}, {"next", Q_NEXT},
    {"vol p 2 0 36/x 1 2 3", Q_BAD}, {"ivol p 2 0 36/p a b c", Q_BAD}, {"ipp 4", Q_BAD},   // the first 14 are combined with each other
    {"ipp 3 90 40", Q_NOW, 1, {P(3, 90, 40)}}, {"opp 5 0 -40", Q_ONCE, 1, {P(5, 0, -40)}}, {"home", Q_POINT, 1, {{RKScanModePoint, 0, 0, 20, 20, NAN}}}, {"stat", Q_STAT}, {"vol", Q_BAD}, {"ivol ", Q_BAD}, {"rr 1 2 3", Q_BAD}, {"irr 0,9 a 3", Q_BAD}, {"ovol pp 2/p 3 0 18", Q_BAD}, {"point", Q_STAT + 100}, {"what", Q_BAD}, {"", Q_BAD}, {"ivol xx 2 0 18", Q_BAD}, {"ivol ss 2 0,3 18", Q_BAD}, {"pp 2,b 0 18", Q_BAD}, {"orr 1,2 4,c 3", Q_BAD}, {"ivol pp 2,3 0 40/rr 0,9 30 9", Q_NOW, 3, {P(2, 0, 40), P(3, 0, 40), R_(0, 9, 30, 9)}},
    {"ovol pp 2 0 40/rr 0,9 30,31 9", Q_ONCE, 3, {P(2, 0, 40), R_(0, 9, 30, 9), R_(9, 0, 31, -9)}}, {"vol rr 1,9 30 9/rr 2,8 40 9/s 1 9,20 10", Q_LINE, 3, {R_(1, 9, 30, 9), R_(2, 8, 40, 9), SC(1, 9, 20, 10)}},
};
static void expect(const command *c) {
    switch (c->kind) {
        case Q_LINE: case Q_ONCE: case Q_NOW: case Q_POINT: {
            if (c->kind == Q_NOW || c->kind == Q_POINT) { M.nb = M.nd = M.nh = M.i = 0; restart(); } else if (c->kind == Q_ONCE) M.nd = 0; else M.nd = M.nh = 0;
            memcpy(M.d, c->p, c->n * sizeof(path)); M.nd = c->n; if (c->kind == Q_LINE || c->kind == Q_NOW) { memcpy(M.h, c->p, c->n * sizeof(path)); M.nh = c->n; }
            M.repeat = c->kind != Q_POINT; if (!M.active) restart(); M.active = true; if (c->kind == Q_NOW || c->kind == Q_POINT || M.nb == 0) { takeover(); restart(); } break;
        }
        case Q_START: M.repeat = true; M.i = 0; M.active = M.nb > 0; restart(); break;
        case Q_STOP: M.active = false; idle = 0; restart(); break;
        case Q_NEXT: takeover(); idle = 0; restart(); break;
    }
}
static void check_lists(const char *after) {
    const RKScanObject *V = &S->vcpHandle; const struct { const path *p; int n; const RKScanPath *q; int m; const char *w; } L[] = {{M.b, M.nb, V->batterScans, V->sweepCount, "at bat"}, {M.d, M.nd, V->onDeckScans, V->onDeckCount, "on deck"}, {M.h, M.nh, V->inTheHoleScans, V->inTheHoleCount, "line-up"}};
    for (int k = 0; k < 3; k++) { mc_assert(L[k].n == L[k].m, "lineup", "%d sweeps %s after '%s', expected %d", L[k].m, L[k].w, after, L[k].n);
        for (int j = 0; j < L[k].n; j++) { const path *p = &L[k].p[j]; const RKScanPath *q = &L[k].q[j]; mc_assert(p->mode == q->mode && p->es == q->elevationStart && p->ee == q->elevationEnd && p->as == q->azimuthStart && p->ae == q->azimuthEnd && (isnan(p->rate) ? isnan(q->azimuthSlew) : p->rate == q->azimuthSlew && p->rate == q->elevationSlew), "lineup", "sweep %d %s after '%s' is mode %d EL %.1f-%.1f AZ %.1f-%.1f @ %.1f", j, L[k].w, after, q->mode, q->elevationStart, q->elevationEnd, q->azimuthStart, q->azimuthEnd, q->azimuthSlew); } }
}
static void tell(const command *c) {
    static char response[RKMaximumStringLength + 64]; memset(response, 0x5a, sizeof response); response[0] = 0;
    const int r = RKSteerEngineExecuteString(S, c->s, response); mc_note("'%s' -> %d %.40s", c->s, r, response);
    mc_assert(memchr(response, 0, RKMaximumStringLength), "response", "of '%s' is too long", c->s);
    const bool ack = !strncmp(response, "ACK", 3) && r == RKResultSuccess, nak = !strncmp(response, "NAK", 3) && r != RKResultSuccess; mc_assert(ack || nak, "response", "'%s' returns %d with '%.30s'", c->s, r, response);
    mc_assert(ack == (c->kind != Q_BAD), "response", "'%s' is answered '%.60s'", c->s, response);
    expect(c); check_lists(c->s);
}
static void run_until(int sweeps, int most) { const int c = completed; for (int k = 0; k < most && completed < c + sweeps && M.active; k++) step1(); }
static void shapes(void) {
    static const command V[] = {
        {"ivol p 2 0 36/p 4 0 36/p 8 0 36", Q_NOW, 3, {P(2, 0, 36), P(4, 0, 36), P(8, 0, 36)}}, {"ipp 5 90 30", Q_NOW, 1, {P(5, 90, 30)}}, {"ipp 5,20 180 -36", Q_NOW, 2, {P(5, 180, -36), P(20, 180, -36)}},
        {"irr 2,20 30,60 10", Q_NOW, 2, {R_(2, 20, 30, 10), R_(20, 2, 60, -10)}}, {"irr 20,2 30,40 -8", Q_NOW, 2, {R_(20, 2, 30, -8), R_(2, 20, 40, 8)}}, {"irr 0,15 359,1,3 5", Q_NOW, 3, {R_(0, 15, 359, 5), R_(15, 0, 1, -5), R_(0, 15, 3, 5)}},
        {"ivol r 2,20 30 10/r 2,20 33 10", Q_NOW, 2, {RV(2, 20, 30, 10), RV(2, 20, 33, 10)}}, {"ivol p 25 0 36/r 2,20 30 10", Q_NOW, 2, {P(25, 0, 36), RV(2, 20, 30, 10)}}, {"ivol r 0,10 30 10/p 2 45 36", Q_NOW, 2, {RV(0, 10, 30, 10), P(2, 45, 36)}},
        {"ivol s 2 0,60 10/s 4 0,60 10", Q_NOW, 2, {SC(2, 0, 60, 10), SC(4, 0, 60, 10)}}, {"ivol s 2 350,20 10/s 4 20,350 -10", Q_NOW, 2, {SC(2, 350, 20, 10), SC(4, 20, 350, -10)}}, {"ivol s 3 40,10 -12/s 3 40,10 -12", Q_NOW, 2, {SC(3, 40, 10, -12), SC(3, 40, 10, -12)}},
        {"ivol p 2 0 36/s 3 20,50 12/r 1,9 35 9", Q_NOW, 3, {P(2, 0, 36), SC(3, 20, 50, 12), RV(1, 9, 35, 9)}}, {"ivol s 3 300,40 20/p 3 40 24", Q_NOW, 2, {SC(3, 300, 40, 20), P(3, 40, 24)}}, {"ivol s 3 100,110 1/r 80,85 105 1", Q_NOW, 2, {SC(3, 100, 110, 1), RV(80, 85, 105, 1)}},
        {"point 45 200", Q_POINT, 1, {{RKScanModePoint, 45, 45, 200, 200, NAN}}}, {"point -1 0", Q_POINT, 1, {{RKScanModePoint, -1, -1, 0, 0, NAN}}}, {"home", Q_POINT, 1, {{RKScanModePoint, 0, 0, 20, 20, NAN}}},
        {"ivol p 5 0 36/p 5 0 36", Q_NOW, 2, {P(5, 0, 36), P(5, 0, 36)}}, {"ivol r 2,88 10 20/r 88,2 12 -20", Q_NOW, 2, {RV(2, 88, 10, 20), RV(88, 2, 12, -20)}},
    };
    static const double E0[] = {0, 5.05, 30, 88}, A0[] = {0, 29.95, 181, 359.9}; static const int RATE[] = {100, 30, 50}; const int full = mc_param("full", 0); static const double AC[] = {0, 20, 60};
    const int v = mc_choose(sizeof V / sizeof *V, "volume"); hz = RATE[mc_choose(2 + full, "rate of positions")]; lag = full ? mc_choose(3, "delay") : 2 * mc_choose(2, "delay"); if (lag == 2 && hz == 30) lag = 1; accel = AC[mc_choose(3, "acceleration")]; const int e = mc_choose(4, "elevation"), a = mc_choose(4, "azimuth"), point = mc_choose(2, "point option"), moving = mc_choose(3, "moving");
    begin(); X[0].at = E0[e]; X[1].at = A0[a]; if (point) S->vcpHandle.option |= RKScanOptionUsePoint; if (moving) { X[1].mode = 1; X[1].value = moving == 1 ? 18 : -18; X[1].v = X[1].value; } for (int k = 0; k < 3; k++) { advance(); RKPosition q; reading(&q); act(RKSteerEngineGetAction(S, &q)); }
    tell(&V[v]); run_until(V[v].n + 2, 1 << 30); mc_outcome(completed); mc_outcome(v);
    if (V[v].kind == Q_POINT) { mc_assert(!M.active && completed == 1, "end", "pointing"); for (int k = 0; k < 6 * hz; k++) step1(); mc_assert(fabs(diff(X[0].at, V[v].p[0].es)) < 0.5 && fabs(diff(X[1].at, V[v].p[0].as)) < 0.5, "end", "the antenna stays at EL %.2f AZ %.2f", X[0].at, X[1].at); }
    else { static const command stop = {"stop", Q_STOP}; for (int k = mc_choose(2 + full, "stop after") * 7; k > 0; k--) step1(); tell(&stop); for (int k = 0; k < 6 * hz; k++) step1(); }
    finish();
}
static void histories(void) {
    const int depth = mc_param("events", 3), wide = mc_param("wide", 0), n = wide ? (int)(sizeof C / sizeof *C) : 14; static const int GAP[] = {0, 60, -1, 1};
    hz = 50; lag = 1; accel = 60; begin(); X[0].at = 3; X[1].at = 25;
    for (int k = 0; k < depth; k++) {
        const int c = mc_choose(n, "command"); if (C[c].kind > 100) { if (k) mc_skip(); mc_skip(); } tell(&C[c]);
        const int g = GAP[mc_choose(depth < 3 ? 4 : 3, "gap")]; if (g < 0) run_until(1, 1 << 30); else for (int j = 0; j < g; j++) step1();
    }
    run_until(3, 1 << 30); check_lists("all"); for (int j = 0; j < (M.active ? 20 : 6 * hz); j++) step1(); mc_outcome(completed); mc_outcome(M.nb * 100 + M.nd * 10 + M.nh); finish();
}
// --- schedules: commands while positions come in
static volatile int go; static int c0, c1;
static void *commander(void *in) { const int *p = in; static char response[2][RKMaximumStringLength]; for (int k = 0; k < 2; k++) if (p[k] >= 0) RKSteerEngineExecuteString(S, C[p[k]].s, response[k]); go = 1; return NULL; }
static void bare(int n) { for (int k = 0; k < n; k++) { advance(); RKPosition q; reading(&q); act(RKSteerEngineGetAction(S, &q)); } }
static void schedules(void) {
    static const int A[] = {1, 4, 6, 7}, B[] = {9, 10, 8, 1, 2, 11, 13, 3}; hz = 50; lag = 1; accel = 0; begin(); X[0].at = 3; X[1].at = 25;
    const int first = A[mc_choose(4, "scan")], when = mc_choose(5, "when"); c0 = B[mc_choose(8, "command")]; c1 = mc_choose(2, "second") ? B[mc_choose(8, "command 2")] : -1; static int cc[2]; cc[0] = c0; cc[1] = c1;
    tell(&C[first]); static const int W[] = {0, 1, 5, 60, -1}; if (W[when] >= 0) for (int k = 0; k < W[when]; k++) step1(); else { if (M.active) { RKScanObject *V = &S->vcpHandle; (void)V; } for (int k = 0; k < 1 << 20 && completed < 1; k++) { const RKSteerEngine before = *S; const axis x[2] = {X[0], X[1]}; const model m = M; const uint32_t pi = posIndex; const int co = completed, id = idle, si = since, ti = ticks; const bool be = begun, pp = prevppi; const double tr = travel; step1(); if (completed) { *S = before; X[0] = x[0]; X[1] = x[1]; M = m; posIndex = pi; completed = co; idle = id; since = si; ticks = ti; begun = be; prevppi = pp; travel = tr; break; } } }   // just before a sweep ends
    pthread_t t; go = 0; mc_explore(true); pthread_create(&t, NULL, commander, cc); bare(2); mc_explore(false); pthread_join(t, NULL); bare(1);
    // whatever the order, the engine is in one of the states that its commands lead to, and the antenna does what that state says
    const RKScanObject *V = &S->vcpHandle; const bool on = V->active && V->sweepCount; mc_outcome(on * 1000 + V->sweepCount * 100 + V->onDeckCount * 10 + V->inTheHoleCount);
    const int last = c1 >= 0 && C[c1].kind != Q_BAD && C[c1].kind != Q_ONCE && C[c1].kind != Q_LINE ? c1 : c1 < 0 || C[c1].kind == Q_BAD ? c0 : -1;
    if (last >= 0 && C[last].kind == Q_STOP) mc_assert(!on, "stop-lost", "the scan goes on");
    if (last >= 0 && C[last].kind == Q_NOW) mc_assert(on && V->sweepCount == C[last].n && V->batterScans[0].elevationStart == C[last].p[0].es, "command-lost", "the scan is not the one told");
    if (on) { int ends = 0, n = 0; const int want = 2; while (ends < want && (V->active && V->sweepCount)) { advance(); RKPosition q; reading(&q); const RKScanPath before = V->batterScans[V->i]; mc_assert(V->i < V->sweepCount, "index", "sweep %d of %d", V->i, V->sweepCount); act(RKSteerEngineGetAction(S, &q)); if (q.flag & (RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete)) { ends++; n = 0; if (before.mode == RKScanModeRHI) mc_assert(fabs(X[0].at - before.elevationEnd) < 0.5, "end", "RHI to %.1f ends at %.1f", before.elevationEnd, X[0].at); } mc_assert(++n < 100 * hz, "stuck", "sweep %d does not end", V->i); } }
    if (!(V->active && V->sweepCount)) { bare(4 * hz); mc_assert(X[0].v == 0 && X[1].v == 0, "not-stopped", "EL moves at %.1f, AZ at %.1f", X[0].v, X[1].v); }
    mc_count(1); finish();
}
static void lengths(void) {   // long line-ups and their summaries
    static char s[2][RKMaximumStringLength], response[RKMaximumStringLength + 8]; hz = 50; lag = 1; accel = 0; begin(); static const int N[] = {1, 25, 26, 45, 60, 99, 100, 101, 127, 128, 200}; int total[3] = {0, 0, 0};
    for (int k = 0; k < 2; k++) { const int n = N[mc_choose(11, "sweeps")], how = mc_choose(3, "how"), form = mc_choose(3, "form"); char *b = s[k]; int j = 0;
        if (form == 2) { j = sprintf(b, "%svol ", how == 0 ? "" : how == 1 ? "i" : "o"); for (int m = 0; m < n; m++) j += sprintf(b + j, "%sp %d 0 9", m ? "/" : "", m % 10); } else { j = sprintf(b, "%s%s ", how == 0 ? "" : how == 1 ? "i" : "o", form ? "rr 0,9" : "pp"); for (int m = 0; m < n; m++) j += sprintf(b + j, "%s%d", m ? "," : "", m % 10); j += sprintf(b + j, form ? " 9" : " 0 18"); }
        const RKScanObject before = S->vcpHandle; response[RKMaximumStringLength] = 0x5a; memset(response, 0, RKMaximumStringLength); const int r = RKSteerEngineExecuteString(S, b, response); mc_assert(response[RKMaximumStringLength] == 0x5a && memchr(response, 0, RKMaximumStringLength), "response", "is too long"); const RKScanObject *V = &S->vcpHandle;
        if (r == RKResultSuccess) { mc_assert(!strncmp(response, "ACK", 3), "response", "%.20s", response); const int got = how == 1 || (k == 0) ? V->sweepCount : V->onDeckCount; mc_assert(got == n, "lineup", "%d of %d sweeps of '%.30s...' are taken", got, n, b); const RKScanPath *q = how == 1 || k == 0 ? V->batterScans : V->onDeckScans; for (int m = 0; m < n; m++) mc_assert(form == 1 ? q[m].azimuthStart == m % 10 : q[m].elevationStart == m % 10, "lineup", "sweep %d of '%.30s...'", m, b); total[k] = n; }
        else { mc_assert(!strncmp(response, "NAK", 3), "response", "%.20s", response); mc_assert(n > 100 && strlen(b) > 250, "lineup", "%d sweeps are refused", n); mc_assert(!memcmp(&before, V, sizeof before), "lineup", "a refused command changes the line-up"); }
        mc_count(1);
    }
    memset(response, 0, sizeof response); response[RKMaximumStringLength] = 0x5a; RKSteerEngineExecuteString(S, "stat", response); mc_assert(response[RKMaximumStringLength] == 0x5a, "response", "is too long"); mc_outcome(total[0] * 1000 + total[1]); finish();
}
static void setup(void) { rkQuiet(); }
static void body(void) { switch (mc_param("part", 0)) { case 0: shapes(); break; case 1: histories(); break; case 2: schedules(); break; default: lengths(); } }
int main(int argc, char **argv) {
    mc_config cfg = {.name = "c15_steer", .setup = setup, .body = body, .fork_runs = VP_FORK, .bound = 0, .shard_depth = 5, .run_seconds = 30, .vt_limit_us = 1200000000, .step_limit = 8000000};
    return mc_main(argc, argv, &cfg);
}
