// A network of scripted connections: descriptors 900 and up.  Bytes of a connection arrive in segments at given times after it was opened,
// and it ends (closed by the peer, reset, or not at all) at a given time.  Everything that is sent is kept.
#ifndef VP_SIMNET_H
#define VP_SIMNET_H
#include <sys/socket.h>
#include <sys/select.h>
#include <netinet/in.h>
#include <netdb.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
enum { SN_BASE = 900, SN_FDS = 40, SN_SEG = 2400, SN_OPEN = 0, SN_EOF = 1, SN_RST = 2 };
typedef struct { const uint8_t *in; int len, nseg; struct { int64_t at; int upto; } seg[SN_SEG]; int64_t end_at; int end; } sn_script;
typedef struct { int kind; bool open, nonblock, rdshut; const sn_script *s; int64_t start; int pos, got, outn; uint8_t out[8192]; } sn_fd;   // kind 1: connection, 2: listener
static sn_fd sn[SN_FDS]; static int64_t sn_stall; static int sn_select_err, sn_select_exc;   // until when nothing can be sent; how many more times select() succeeds before it fails, or reports an exception
static int sn_n, sn_next, sn_scripts, sn_refuse; static const sn_script *sn_script_of[16]; static int64_t sn_arrive[16]; static int64_t sn_t0;   // scripts of successive connections; a listener's arrive at sn_arrive
static void sn_reset(void) { sn_stall = 0; sn_select_err = sn_select_exc = -1; sn_n = sn_next = sn_scripts = sn_refuse = 0; sn_t0 = mc_now_us(); }
static void sn_add(const sn_script *s, int64_t at) { sn_script_of[sn_scripts] = s; sn_arrive[sn_scripts++] = at; }
static void sn_seg(sn_script *s, int64_t at, int upto) { mc_assert(s->nseg < SN_SEG, "harness", "segments"); s->seg[s->nseg].at = at; s->seg[s->nseg++].upto = upto; if (s->end_at < at) s->end_at = at; }
static bool sn_is(int fd) { return fd >= SN_BASE && fd < SN_BASE + SN_FDS; }
static sn_fd *sn_of(int fd) { mc_assert(fd - SN_BASE < sn_n, "harness", "descriptor %d", fd); return &sn[fd - SN_BASE]; }
static int sn_new(int kind) { mc_assert(sn_n < SN_FDS, "descriptors", "%d descriptors", sn_n); sn_fd *f = &sn[sn_n]; memset(f, 0, offsetof(sn_fd, out)); f->kind = kind; f->open = true; f->start = mc_now_us(); return SN_BASE + sn_n++; }
static int sn_avail(const sn_fd *f) { int a = 0; if (!f->s) return 0; const int64_t t = mc_now_us() - f->start; for (int k = 0; k < f->s->nseg && f->s->seg[k].at <= t; k++) a = f->s->seg[k].upto; return a - f->pos; }
static bool sn_ended(const sn_fd *f) { return f->rdshut || (f->s && f->s->end && mc_now_us() - f->start >= f->s->end_at); }
static bool sn_readable(const sn_fd *f) { return f->kind == 2 ? sn_next < sn_scripts && mc_now_us() - sn_t0 >= sn_arrive[sn_next] : f->rdshut || (f->s && (sn_avail(f) > 0 || sn_ended(f))); }
static int64_t sn_event(const sn_fd *f) {   // time until something happens
    const int64_t t = mc_now_us();
    if (f->kind == 2) return sn_next < sn_scripts ? sn_t0 + sn_arrive[sn_next] - t : 1000000;
    if (!f->s) return 1000000;
    for (int k = 0; k < f->s->nseg; k++) if (f->s->seg[k].at > t - f->start) return f->start + f->s->seg[k].at - t;
    return f->s->end && f->s->end_at > t - f->start ? f->start + f->s->end_at - t : 1000000;
}
int __real_close(int); ssize_t __real_read(int, void *, size_t); ssize_t __real_send(int, const void *, size_t, int); int __real_fcntl(int, int, ...); FILE *__real_fdopen(int, const char *);
struct hostent *__wrap_gethostbyname2(const char *n, int af) { static struct in_addr a; static char *l[2]; static struct hostent h; a.s_addr = htonl(0x7f000001); l[0] = (char *)&a; h.h_addr_list = l; h.h_length = 4; h.h_addrtype = AF_INET; mc_yield("resolve"); return &h; }
int __wrap_socket(int d, int t, int p) { mc_yield("socket"); return sn_new(1); }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t z) { for (int k = 0; k < sn_n; k++) if (sn[k].open && sn[k].kind == 2) { errno = EADDRINUSE; return -1; } return 0; }
int __wrap_listen(int fd, int n) { sn_of(fd)->kind = 2; return 0; }
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t z) { return 0; }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t z) {
    sn_fd *f = sn_of(fd); mc_yield("connect"); f->start = mc_now_us();
    if (sn_refuse > 0) { sn_refuse--; errno = ECONNREFUSED; return -1; }
    f->s = sn_next < sn_scripts ? sn_script_of[sn_next] : NULL; sn_next++;
    if (f->nonblock) { errno = EINPROGRESS; return -1; }
    return 0;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *z) {
    sn_fd *f = sn_of(fd); while (!sn_readable(f)) mc_sleep_us(sn_event(f)); mc_yield("accept");
    const int c = sn_new(1); sn[c - SN_BASE].s = sn_script_of[sn_next]; sn[c - SN_BASE].start = sn_t0 + sn_arrive[sn_next]; sn_next++;
    struct sockaddr_in *i = (struct sockaddr_in *)a; i->sin_addr.s_addr = htonl(0x7f000001); i->sin_port = 1000 + c; return c;
}
int __wrap_shutdown(int fd, int how) { if (!sn_is(fd) || !sn_of(fd)->open) { errno = EBADF; return -1; } if (how != SHUT_WR) sn_of(fd)->rdshut = true; return 0; }
int __wrap_fcntl(int fd, int c, ...) { va_list ap; va_start(ap, c); void *x = va_arg(ap, void *); va_end(ap); if (!sn_is(fd)) return __real_fcntl(fd, c, x); sn_fd *f = sn_of(fd); if (c == F_GETFL) return f->nonblock ? O_NONBLOCK : 0; if (c == F_SETFL) f->nonblock = ((intptr_t)x & O_NONBLOCK) != 0; return 0; }
int __wrap_close(int fd) {
    if (!sn_is(fd)) return __real_close(fd);
    mc_yield("close"); sn_fd *f = sn_of(fd); mc_assert(f->open, "closed-twice", "descriptor %d, which may be someone else's by now, is closed once more", fd); f->open = false; return 0;
}
ssize_t __wrap_read(int fd, void *b, size_t z) {
    if (!sn_is(fd)) return __real_read(fd, b, z);
    sn_fd *f = sn_of(fd); mc_yield("read");
    while (1) {
        mc_assert(f->open, "closed-used", "descriptor %d is read after it was closed", fd);
        const int a = sn_avail(f);
        if (a > 0 && !f->rdshut) { if (z > (size_t)a) z = a; memcpy(b, f->s->in + f->pos, z); f->pos += z; errno = EAGAIN; return z; }   // a stale errno, as after an earlier call
        if (sn_ended(f)) { if (!f->rdshut && f->s->end == SN_RST) { errno = ECONNRESET; return -1; } return 0; }
        if (f->nonblock) { errno = EAGAIN; return -1; }
        mc_sleep_us(f->rdshut ? 1000 : sn_event(f) < 50000 ? sn_event(f) : 50000);
    }
}
ssize_t __wrap___read_chk(int fd, void *b, size_t z, size_t l) { mc_assert(z <= l, "overflow", "%zu bytes are read into %zu", z, l); return __wrap_read(fd, b, z); }
ssize_t __wrap_send(int fd, const void *b, size_t z, int fl) {
    if (!sn_is(fd)) return __real_send(fd, b, z, fl);
    sn_fd *f = sn_of(fd); mc_yield("send"); mc_assert(f->open, "closed-used", "descriptor %d is written after it was closed", fd);
    if (f->s && f->s->end == SN_RST && sn_ended(f)) { errno = EPIPE; return -1; }
    for (size_t k = 0; k < z && f->outn < (int)sizeof f->out; k++) f->out[f->outn++] = ((const uint8_t *)b)[k];
    return z;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    mc_yield("select"); const int64_t until = tv ? mc_now_us() + tv->tv_sec * 1000000LL + tv->tv_usec : INT64_MAX;
    fd_set wr, ww, we; FD_ZERO(&wr); FD_ZERO(&ww); FD_ZERO(&we); if (r) wr = *r; if (w) ww = *w; if (e) { we = *e; FD_ZERO(e); }
    if (sn_select_err >= 0 && sn_select_err-- == 0) { if (r) *r = wr; errno = EBADF; return -1; }
    if (e && sn_select_exc >= 0 && sn_select_exc-- == 0) { *e = we; if (r) FD_ZERO(r); if (w) FD_ZERO(w); return 1; }
    while (1) {
        int c = 0; int64_t next = 1000000; if (r) FD_ZERO(r); if (w) FD_ZERO(w);
        for (int k = 0; k < sn_n; k++) {
            const int fd = SN_BASE + k; const bool a = r && FD_ISSET(fd, &wr), b = w && FD_ISSET(fd, &ww); if (!a && !b) continue;
            mc_assert(sn[k].open, "closed-used", "descriptor %d is waited for after it was closed", fd);
            if (a && sn_readable(&sn[k])) { FD_SET(fd, r); c++; }
            if (b) { if (mc_now_us() < sn_stall) { if (sn_stall - mc_now_us() < next) next = sn_stall - mc_now_us(); } else { FD_SET(fd, w); c++; } }
            if (a) { const int64_t t = sn_event(&sn[k]); if (t > 0 && t < next) next = t; }
        }
        const int64_t left = until - mc_now_us();
        if (c || left <= 0) { if (!c && tv) tv->tv_sec = tv->tv_usec = 0; return c; }
        mc_sleep_us(next < left ? next : left);
        mc_yield("select");
    }
}
static ssize_t sn_cread(void *c, char *b, size_t z) { return __wrap_read((int)(intptr_t)c, b, z); }
static int sn_cclose(void *c) { return __wrap_close((int)(intptr_t)c); }
FILE *__wrap_fdopen(int fd, const char *m) {
    if (!sn_is(fd)) return __real_fdopen(fd, m);
    cookie_io_functions_t io = {.read = sn_cread, .close = sn_cclose}; return fopencookie((void *)(intptr_t)fd, "r", io);
}
static int sn_left(void) { int c = 0; for (int k = 0; k < sn_n; k++) c += sn[k].open; return c; }
#endif
