// C19: the clock turns ticks into monotonic time, whatever the readings.
#include "rk.h"
#include <math.h>
enum { MAXN = 400 };
static const double EPOCH = 1700000000.0;   // a whole number of seconds
static void clockAt(double t) { mc_set_clock_us((int64_t)llround(t * 1e6)); }
// parameters of a clock
static const int STRIDE[] = {1, 2, 3, 4, 5, 8}, EXTRA[] = {1, 3, 9};
static const double PERIOD[] = {1e-3, 0.02, 1.0}, PERTIC[] = {1, 1e5, 0.001};   // seconds per call, tics per call
static double start_(RKClock *c, bool high) { return high ? c->initDay : 0; }
// steady counter: strictly increasing, spaced by the period, with the reference, for every pattern of delays
static void steady(void) {
    const int si = mc_choose(6, "stride"), ei = mc_choose(3, "extra"), pi = mc_choose(3, "period"), ti = mc_choose(3, "tics"), high = mc_choose(2, "precision"), wise = mc_choose(2, "wisdom"), off = mc_choose(3, "first");
    const int s = STRIDE[si], n = mc_param("calls", 9), len = n + 3 * s + 4; const double T = PERIOD[pi]; double J[MAXN] = {0}, y[MAXN]; uint64_t h = 0;
    clockAt(EPOCH + 86395);   // a few seconds before the day ends
    RKClock *c = RKClockInitWithSize(s + EXTRA[ei], s); mc_assert(c, "init", "no clock of size %d stride %d", s + EXTRA[ei], s);
    RKClockSetHighPrecision(c, high); RKClockSetOffset(c, off * -0.5); if (wise) RKClockSetDuDx(c, PERTIC[ti] / T);
    const int a = mc_choose(n, "at"), b = mc_choose(n, "at"), cc = mc_choose(n, "at"), amp = mc_choose(4, "delay"); const double A[] = {0, .3, .6, .9};
    if (a > b || b > cc) mc_skip();
    J[a] = A[amp] * T; J[b] = A[(amp + 2) % 4] * T; J[cc] = A[(amp + 3) % 4] * T; if (amp == 0) { for (int k = 0; k < n; k++) J[k] = (k >= a) * .5 * T * ((k - a) % 2) + (k == b) * .9 * T - (k == cc) * 0; if (J[b] > .9 * T) J[b] = .9 * T; }
    const double base = EPOCH + 86395 + 0.25, u0 = off == 1 ? 5e9 * PERTIC[ti] : off == 2 ? -7 * PERTIC[ti] : 0; double worst = 0; for (int k = 0; k < n; k++) worst = fmax(worst, J[k]);
    for (int k = 0; k < len; k++) {
        clockAt(base + k * T + J[k]); struct timeval tv;
        y[k] = RKClockGetTime(c, u0 + k * PERTIC[ti], &tv) + off * 0.5 + start_(c, high);
        const double x = base + k * T + J[k], ideal = base + k * T;
        mc_assert(fabs(tv.tv_sec + 1e-6 * tv.tv_usec - x) < 2e-6, "arrival", "call %d", k);
        mc_assert(isfinite(y[k]), "finite", "call %d of %d (stride %d, size %d) gives %g", k, len, s, s + EXTRA[ei], y[k]);
        mc_assert(fabs(y[k] - ideal) <= 2.5 * worst + 4e-6 * (s + 2), "reference", "call %d of a clock with stride %d is %g periods off, delays are up to %g", k, s, (y[k] - ideal) / T, worst / T);
        if (k) mc_assert(y[k] > y[k - 1] || s == 1 || (worst > 0 && y[k] == y[k - 1]), "increasing", "call %d of a clock with stride %d: %.9f after %.9f (period %g, delays %g %g %g at %d %d %d)", k, s, y[k], y[k - 1], T, J[a], J[b], J[cc], a, b, cc);
        if (k > n + 2 * s + 1) mc_assert(fabs(y[k] - y[k - 1] - T) <= 0.35 * worst + 6e-6, "period", "call %d of a clock with stride %d advances by %g periods", k, s, (y[k] - y[k - 1]) / T);
    }
    RKClockFree(c);
    h = ((((((si * 3 + ei) * 3 + pi) * 3 + ti) * 2 + high) * 2 + wise) * 3 + off); mc_outcome(((h * 16 + a) * 16 + b) * 64 + cc * 4 + amp);
}
// troubled readings: up to two kinds of trouble at any two calls
enum { FINE, REPEAT, RESET, LOST, JUMP, LEAP, BACK, NOTNUM, INF, STALL, LATE, SETBACK, LONGBACK, LONGSTALL, CALLRESET, MISSING, NTROUBLE };
static const char *NAME[] = {"fine", "counter repeats", "counter restarts", "counter skips", "counter jumps", "counter leaps", "counter one back", "not a number", "infinite", "pause", "late call", "clock set back", "clock set back long", "long pause", "RKClockReset", "counter is gone"};
static void troubled(void) {
    const int s = STRIDE[mc_choose(6, "stride")], ei = mc_choose(3, "extra"), high = mc_choose(2, "precision"), wise = mc_choose(2, "wisdom"), pi = mc_choose(2, "period");
    const int e1 = 1 + mc_choose(NTROUBLE - 1, "trouble"), k1 = mc_choose(mc_param("calls", 12), "at"), e2 = mc_choose(NTROUBLE, "trouble"), d = e2 ? 1 + mc_choose(mc_param("apart", 5), "later") : 0;
    const double T = pi ? 1.0 : 0.001, P = pi ? 3 : 1000; const int len = k1 + d + 8 * s + 12;
    clockAt(EPOCH + 1000); RKClock *c = RKClockInitWithSize(s + EXTRA[ei], s); RKClockSetHighPrecision(c, high); if (wise) RKClockSetDuDx(c, P / T);
    double now = EPOCH + 1000.5, u = 1e6, last = 0; bool gone = false; const double day = start_(c, high); int calm = 0;
    for (int k = 0; k < len; k++) {
        int e = k == k1 ? e1 : d && k == k1 + d ? e2 : FINE; double given, late = 0; bool fresh = false;
        now += T; u += P;
        switch (e) {
            case REPEAT: u -= P; break; case RESET: u = 0; break; case LOST: u += 3 * P; break; case JUMP: u += 1000 * P; break; case LEAP: u += 5e9 * P; break; case BACK: u -= 2 * P; break;
            case STALL: now += 40; u += 40 / T * P; break; case LATE: late = 2.5 * T; break; case SETBACK: now -= 40; break; case LONGBACK: now -= 4000; break; case LONGSTALL: now += 4000; u += 4000 / T * P; break;
            case CALLRESET: RKClockReset(c); fresh = true; break; case MISSING: gone = true; break;
        }
        given = e == NOTNUM ? NAN : e == INF ? INFINITY : gone ? 0 : u;
        const double x = now + late; clockAt(x); const double y = RKClockGetTime(c, given, NULL) + day;
        mc_assert(isfinite(y), "finite", "call %d gives %g after '%s' at %d and '%s' %d later (stride %d)", k, y, NAME[e1], k1, NAME[e2], d, s);
        if (k) {
            const bool away = fabs(x - last) > RKClockAWhile - 1e-3, resync = fabs(y - x) < 2e-6;
            mc_assert(y >= last || fresh || (away && resync), "backward", "call %d: %.6f after %.6f, the clock is at %.6f, after '%s' at %d and '%s' %d later (stride %d)", k, y, last, x, NAME[e1], k1, NAME[e2], d, s);
            mc_assert(!(y > x + RKClockAWhile + 1e9 * T) && y >= EPOCH - 9000, "far", "call %d: %.6f, the clock is at %.6f", k, y, x);
        }
        calm = e == FINE ? calm + 1 : 0;
        // long after the trouble: with the reference, or waiting for it to catch up
        const bool lead = k && y == last && y > x;
        if (calm > 7 * s + 8 && !lead) mc_assert(fabs(y - x) <= 45 * pow(1 - 1.0 / s, calm - 2 * s) * s + 1e-3 * T + 1e-5 * s, "astray", "call %d, %d calls after '%s' at %d and '%s' %d later: %.6f, the clock is at %.6f (stride %d)", k, calm, NAME[e1], k1, NAME[e2], d, y, x, s);
        last = y;
    }
    RKClockFree(c); mc_outcome((((uint64_t)s * 4 + high * 2 + wise) * 16 + e1) * 512 + k1 * 32 + e2);
}
// long runs with the sizes that the radar uses
static void lasting(void) {
    static const int S[] = {64, 100, 1000}; const int s = S[mc_choose(3, "stride")], pattern = mc_choose(5, "pattern"), high = mc_choose(2, "precision"), wise = mc_choose(2, "wisdom"); const double T = 1e-3, P = 1e5;
    clockAt(EPOCH); RKClock *c = RKClockInitWithSize(s + 1000, s); RKClockSetHighPrecision(c, high); if (wise) RKClockSetDuDx(c, P / T); double last = 0, worst = 0;
    const int len = mc_param("long", 20000);
    for (int k = 0; k < len; k++) {
        double j = 0; switch (pattern) { case 1: j = (k * 7919 % 101) * 0.009 * T; break; case 2: j = (15 - k % 16) * T; break; case 3: j = k % 997 == 5 ? 30 * T : 0; break; case 4: j = k % 2 ? 0.9 * T : 0; break; }
        worst = fmax(worst, j); clockAt(EPOCH + k * T + j); const double y = RKClockGetTime(c, k * P, NULL) + start_(c, high);
        mc_assert(y >= last, "increasing", "call %d: %.9f after %.9f", k, y, last);
        if (k > 3 * s) { mc_assert(y > last && fabs(y - last - T) <= worst * 8 / s + 2e-6, "period", "call %d of a clock with stride %d and delays of pattern %d advances by %g periods", k, s, pattern, (y - last) / T); }
        mc_assert(y - (EPOCH + k * T) <= 2 * worst + 1e-5 && y >= EPOCH + k * T - worst - 1e-5, "reference", "call %d of a clock with stride %d and delays of pattern %d is %g periods off", k, s, pattern, (y - EPOCH - k * T) / T);
        last = y; 
    }
    mc_count(len); RKClockFree(c); mc_outcome(((s * 8 + pattern) * 2 + high) * 2 + wise);
}
static void body(void) {
    RKClock *none = RKClockInitWithSize(4, 5); mc_assert(!none, "init", "a buffer smaller than the stride"); none = RKClockInitWithSize(5, 5); mc_assert(!none, "init", "a buffer as small as the stride");
    switch (mc_param("part", 0)) { case 0: steady(); break; case 1: troubled(); break; case 2: lasting(); break; }
}
static void setup(void) { rkQuiet(); }
int main(int argc, char **argv) {
    mc_config c = {.name = "c19_clock", .setup = setup, .body = body, .bound = 0, .shard_depth = 3, .vt_limit_us = 4000000000000L};
    return mc_main(argc, argv, &c);
}
