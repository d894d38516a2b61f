// Simulated kernel: interposed libc/system calls.  Exported from the executable, so the
// node images and libgnutls bind to these definitions; outside a fiber they fall through.
#include "core.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
using namespace sim;
#define IN_SIM (S && S->cur && S->cur->node)
#define NODE (S->cur->node)
#define FAIL(e) do { errno = (e); return -1; } while (0)

namespace sim { extern const int64_t WALL_SECONDS = 1577836800LL; }
const int64_t WALL_BASE = 1577836800LL; // 2020-01-01, inside the validity of the repository's test certificates

static void thread_stall(double mult = 1) {
    if (!S->cur->node->mt || S->pf.tstall <= 0) return;
    int64_t v = S->ch.choose(K_TSTALL, [&](Rng &r) -> int64_t { if (S->quiet() || S->now < S->pf.stall_from || S->pf.tstall_n <= 0 || !r.chance(S->pf.tstall * mult)) return 0; S->pf.tstall_n--; return r.range(1, S->pf.tstall_max / US); });
    if (v > 0) { S->cnt["thread_stall"]++; int e = errno; S->block([]() { return false; }, S->now + v * US); errno = e; }
}
static void tick() {
    S->now += US; S->bb_last_sys = S->bb;
    Fiber *f = S->cur;
    if (++f->syscalls > 3000000) { S->violate("HANG: a node made 3000000 system calls without finishing (livelock), fiber " + f->name); f->st = FS_DEAD; fiber_switch_out(); }
    if (S->stop) { f->st = FS_DEAD; fiber_switch_out(); }
    // due events become visible as in a real kernel
    while (!S->evq.empty() && S->evq.begin()->first.first <= S->now && !S->stop) { auto fn = std::move(S->evq.begin()->second); S->evq.erase(S->evq.begin()); fn(); }
    if (S->stop) { f->st = FS_DEAD; fiber_switch_out(); }
    if (f->node->stalled_until > S->now) S->block([f]() { return f->node->stalled_until <= S->now; }, f->node->stalled_until);
    if (f->node->crash_in > 0 && --f->node->crash_in == 0 && f->node->alive && f->node->on_crash) { auto fn = f->node->on_crash; fn(); }
    thread_stall();
    if (!f->node->alive) { f->st = FS_DEAD; fiber_switch_out(); }
}
static File *getf(int fd) { Node *n = NODE; if (fd < 0 || (size_t)fd >= n->fds.size() || !n->fds[fd]) return nullptr; return n->fds[fd].get(); }
static FileP getfp(int fd) { Node *n = NODE; if (fd < 0 || (size_t)fd >= n->fds.size()) return nullptr; return n->fds[fd]; }
static int newfd(FileP f) {
    Node *n = NODE; size_t i = 3; while (i < n->fds.size() && n->fds[i]) i++;
    if (i >= 1000) return -1;
    if (i >= n->fds.size()) n->fds.resize(i + 1);
    n->fds[i] = f; f->fd = (int)i; f->node = n; S->cnt["fd_open"]++; return (int)i;
}
// addresses: node ip a.b.c.d <-> AF_INET, or AF_INET6 fd00::a.b.c.d
static bool from_sa(const struct sockaddr *sa, socklen_t l, Addr &a) {
    if (!sa) return false;
    if (sa->sa_family == AF_INET && l >= sizeof(sockaddr_in)) { auto s = (const sockaddr_in *)sa; a.ip = ntohl(s->sin_addr.s_addr); a.port = ntohs(s->sin_port); return true; }
    if (sa->sa_family == AF_INET6 && l >= sizeof(sockaddr_in6)) { auto s = (const sockaddr_in6 *)sa; const unsigned char *b = s->sin6_addr.s6_addr; a.ip = (b[12] << 24) | (b[13] << 16) | (b[14] << 8) | b[15]; a.port = ntohs(s->sin6_port); return true; }
    return false;
}
static void to_sa(Addr a, bool v6, struct sockaddr *sa, socklen_t *l) {
    if (!sa || !l) return;
    if (!v6) { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(a.ip); s.sin_port = htons(a.port); memcpy(sa, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; }
    else { sockaddr_in6 s; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; static const unsigned char pre[12] = {0xfd, 0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf1, 0x12, 0x23, 0x34}; memcpy(s.sin6_addr.s6_addr, pre, 12); s.sin6_addr.s6_addr[12] = a.ip >> 24; s.sin6_addr.s6_addr[13] = a.ip >> 16; s.sin6_addr.s6_addr[14] = a.ip >> 8; s.sin6_addr.s6_addr[15] = a.ip; s.sin6_port = htons(a.port); memcpy(sa, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; }
}
static bool can_read(File *f) {
    if (f->kind == F_UDP) return !f->rxq.empty() || f->so_error;
    if (f->kind == F_TIMER) return f->armed && f->expiry <= S->now;
    if (f->kind == F_LISTEN) return !f->backlog.empty();
    if (f->kind == F_TCP) { auto t = f->tcp; return t && (!t->rx.empty() || t->rx_eof || t->reset || t->err); }
    return false;
}
static size_t tcp_space(TcpEnd *t) { auto p = t->peer.lock(); if (!p || p->closed) return SIZE_MAX; size_t used = p->rx.size() + p->in_flight; return used >= p->rx_cap ? 0 : p->rx_cap - used; }
static bool can_write(File *f) {
    if (f->kind == F_UDP) return true;
    if (f->kind == F_TCP) { auto t = f->tcp; if (!t) return true; if (t->reset || t->err) return true; if (t->connecting) return false; return t->connected && tcp_space(t.get()) > 0; }
    return false;
}

void Sim::close_file(Node *n, int fd) {
    FileP f = n->fds[fd]; if (!f) return;
    n->fds[fd] = nullptr; f->open = false; cnt["fd_close"]++;
    if (f->kind == F_UDP && f->bound) { auto it = udp.find(f->local); if (it != udp.end() && it->second == f) udp.erase(it); }
    if (f->kind == F_LISTEN) { auto it = tcpl.find(f->local); if (it != tcpl.end() && it->second == f) tcpl.erase(it); for (auto &e : f->backlog) { auto p = e->peer.lock(); if (p) p->reset = true; } }
    if (f->kind == F_TCP && f->tcp) {
        auto t = f->tcp; t->closed = true; auto p = t->peer.lock(); bool rst = !t->rx.empty();
        if (p) { ns_t when = std::max(now + pf.base_lat, p->last_arrival + 1); std::weak_ptr<TcpEnd> wp = p; at(when, [wp, rst]() { auto q = wp.lock(); if (q) { if (rst) q->reset = true; else q->rx_eof = true; } }); }
    }
}

extern "C" {
// ------------------------------------------------------------- sockets
int socket(int dom, int type, int proto) {
    if (!IN_SIM) return (int)syscall(SYS_socket, dom, type, proto);
    tick(); if (int64_t e = S->sysfail(sim::SYS_SOCKET)) FAIL((int)e);
    auto f = std::make_shared<File>(); f->v6 = dom == AF_INET6; f->nonblock = type & SOCK_NONBLOCK;
    int t = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC);
    if (t == SOCK_DGRAM) f->kind = F_UDP; else if (t == SOCK_STREAM) { f->kind = F_TCP; } else FAIL(EINVAL);
    int fd = newfd(f); if (fd < 0) FAIL(EMFILE); return fd;
}
int bind(int fd, const struct sockaddr *sa, socklen_t l) {
    if (!IN_SIM) return (int)syscall(SYS_bind, fd, sa, l);
    tick(); FileP f = getfp(fd); if (!f) FAIL(EBADF); Addr a; if (!from_sa(sa, l, a)) FAIL(EINVAL);
    if (int64_t e = S->sysfail(sim::SYS_BIND)) FAIL((int)e);
    if (a.ip == 0) a.ip = NODE->ip;
    if (a.ip != NODE->ip) FAIL(EADDRNOTAVAIL);
    if (!a.port) a = S->alloc_port(NODE);
    if (f->kind == F_UDP) { if (S->udp.count(a)) FAIL(EADDRINUSE); S->udp[a] = f; }
    else if (S->tcpl.count(a)) FAIL(EADDRINUSE);
    f->local = a; f->bound = true; return 0;
}
int listen(int fd, int bl) {
    if (!IN_SIM) return (int)syscall(SYS_listen, fd, bl);
    tick(); FileP f = getfp(fd); if (!f) FAIL(EBADF); if (int64_t e = S->sysfail(sim::SYS_LISTEN)) FAIL((int)e);
    f->kind = F_LISTEN; f->backlog_max = bl + 1; S->tcpl[f->local] = f; return 0;
}
int connect(int fd, const struct sockaddr *sa, socklen_t l) {
    if (!IN_SIM) return (int)syscall(SYS_connect, fd, sa, l);
    tick(); FileP f = getfp(fd); if (!f) FAIL(EBADF); Addr a; if (!from_sa(sa, l, a)) FAIL(EINVAL);
    if (int64_t e = S->sysfail(sim::SYS_CONNECT)) FAIL((int)e);
    if (!f->bound) { f->local = S->alloc_port(NODE); f->bound = true; if (f->kind == F_UDP) S->udp[f->local] = f; }
    if (f->kind == F_UDP) { f->peer = a; f->connected = true; return 0; }
    auto c = std::make_shared<TcpEnd>(), s = std::make_shared<TcpEnd>();
    c->local = f->local; c->remote = a; s->local = a; s->remote = f->local; c->peer = s; s->peer = c; c->connecting = true; f->tcp = c; f->peer = a;
    std::weak_ptr<TcpEnd> wc = c; std::shared_ptr<TcpEnd> ss = s;
    S->after(S->pf.base_lat, [a, wc, ss]() {
        auto c2 = wc.lock(); if (!c2 || c2->closed) return; auto it = S->tcpl.find(a);
        if (it == S->tcpl.end()) { c2->err = ECONNREFUSED; c2->connecting = false; return; }
        if ((int)it->second->backlog.size() >= it->second->backlog_max) { c2->err = ETIMEDOUT; c2->connecting = false; return; }
        ss->connected = true; it->second->backlog.push_back(ss); c2->connected = true; c2->connecting = false; });
    if (f->nonblock) FAIL(EINPROGRESS);
    S->block([c]() { return !c->connecting; }, -1);
    if (c->err) { int e = c->err; c->err = 0; FAIL(e); }
    return 0;
}
int accept4(int fd, struct sockaddr *sa, socklen_t *l, int flags) {
    if (!IN_SIM) return (int)syscall(SYS_accept4, fd, sa, l, flags);
    tick(); FileP f = getfp(fd); if (!f) FAIL(EBADF); if (f->kind != F_LISTEN) FAIL(EINVAL);
    if (f->backlog.empty()) { if (f->nonblock) FAIL(EAGAIN); S->block([f]() { return !f->backlog.empty() || !f->open; }, -1); if (!f->open) FAIL(EBADF); }
    if (int64_t e = S->sysfail(sim::SYS_ACCEPT)) { FAIL((int)e); }
    auto t = f->backlog.front(); f->backlog.pop_front();
    auto n = std::make_shared<File>(); n->kind = F_TCP; n->tcp = t; n->local = t->local; n->peer = t->remote; n->bound = true; n->v6 = f->v6; n->nonblock = flags & SOCK_NONBLOCK;
    int nfd = newfd(n); if (nfd < 0) FAIL(EMFILE);
    to_sa(t->remote, f->v6, sa, l); return nfd;
}
int accept(int fd, struct sockaddr *sa, socklen_t *l) { return accept4(fd, sa, l, 0); }
int getsockname(int fd, struct sockaddr *sa, socklen_t *l) { if (!IN_SIM) return (int)syscall(SYS_getsockname, fd, sa, l); File *f = getf(fd); if (!f) FAIL(EBADF); to_sa(f->local, f->v6, sa, l); return 0; }
int getpeername(int fd, struct sockaddr *sa, socklen_t *l) { if (!IN_SIM) return (int)syscall(SYS_getpeername, fd, sa, l); File *f = getf(fd); if (!f) FAIL(EBADF); to_sa(f->peer, f->v6, sa, l); return 0; }
int setsockopt(int fd, int lev, int opt, const void *v, socklen_t l) {
    if (!IN_SIM) return (int)syscall(SYS_setsockopt, fd, lev, opt, v, l);
    tick(); File *f = getf(fd); if (!f) FAIL(EBADF); if (int64_t e = S->sysfail(sim::SYS_SETSOCKOPT)) FAIL((int)e);
    if (lev == SOL_SOCKET && opt == SO_RCVTIMEO && l >= sizeof(timeval)) f->rcvtimeo = ((const timeval *)v)->tv_sec * SEC + ((const timeval *)v)->tv_usec * US;
    return 0; }
int getsockopt(int fd, int lev, int opt, void *v, socklen_t *l) {
    if (!IN_SIM) return (int)syscall(SYS_getsockopt, fd, lev, opt, v, l);
    File *f = getf(fd); if (!f) FAIL(EBADF); if (v && l && *l >= sizeof(int)) { *(int *)v = (opt == SO_ERROR) ? f->so_error : 0; if (opt == SO_ERROR) f->so_error = 0; *l = sizeof(int); } return 0; }
int shutdown(int fd, int how) {
    if (!IN_SIM) return (int)syscall(SYS_shutdown, fd, how);
    tick(); FileP f = getfp(fd); if (!f) FAIL(EBADF);
    if (f->kind == F_TCP && f->tcp && (how == SHUT_WR || how == SHUT_RDWR)) { f->tcp->wr_shut = true; auto p = f->tcp->peer.lock(); if (p) { std::weak_ptr<TcpEnd> wp = p; S->at(std::max(S->now + S->pf.base_lat, p->last_arrival + 1), [wp]() { auto q = wp.lock(); if (q) q->rx_eof = true; }); } }
    return 0; }
int close(int fd) {
    if (!IN_SIM) return (int)syscall(SYS_close, fd);
    tick(); Node *n = NODE;
    if (fd < 0 || (size_t)fd >= n->fds.size() || !n->fds[fd]) { S->cnt["close_ebadf"]++; simapp_note(n, "close_ebadf", fd, 0, ""); FAIL(EBADF); }
    S->close_file(n, fd); return 0; }
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (!IN_SIM) return (int)syscall(SYS_fcntl, fd, cmd, arg);
    tick(); File *f = getf(fd); if (!f) FAIL(EBADF); if (int64_t e = S->sysfail(sim::SYS_FCNTL)) FAIL((int)e);
    if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { f->nonblock = arg & O_NONBLOCK; return 0; }
    return 0; }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }

static ssize_t do_recv(int fd, void *buf, size_t len, int flags, struct sockaddr *sa, socklen_t *sl, bool fromcall) {
    tick(); FileP f = getfp(fd); if (!f) FAIL(EBADF);
    if (f->kind == F_TIMER) { if (!can_read(f.get())) FAIL(EAGAIN); if (len < 8) FAIL(EINVAL); uint64_t v = 1; memcpy(buf, &v, 8); f->armed = false; if (f->interval) { f->armed = true; f->expiry += f->interval; } return 8; }
    if (!can_read(f.get())) {
        if (f->nonblock || (flags & MSG_DONTWAIT)) FAIL(EAGAIN);
        S->block([f]() { return can_read(f.get()) || !f->open; }, f->rcvtimeo ? S->now + f->rcvtimeo : -1);
        if (!f->open) FAIL(EBADF); if (!can_read(f.get())) FAIL(EAGAIN);
    }
    if (f->kind == F_UDP) {
        if (f->so_error) { int e = f->so_error; f->so_error = 0; FAIL(e); }
        if (int64_t e = S->sysfail(fromcall ? sim::SYS_RECVFROM : sim::SYS_RECV)) { FAIL((int)e); }
        Dgram &g = f->rxq.front(); size_t n = std::min(len, g.data.size());
        if (n) memcpy(buf, g.data.data(), n);
        if (sa) to_sa(g.from, f->v6, sa, sl);
        ssize_t r = (flags & MSG_TRUNC) ? (ssize_t)g.data.size() : (ssize_t)n;
        if (!(flags & MSG_PEEK)) { S->log(EV_RECV, NODE->id, g.pkt, g.from, f->local, g.data, "udp", (long)n); f->rxq.pop_front(); }
        return r;
    }
    if (f->kind == F_TCP) {
        auto t = f->tcp; if (!t) FAIL(ENOTCONN);
        if (t->reset) { t->reset = false; t->rx_eof = true; t->err = 0; t->wr_shut = true; t->rx.clear(); FAIL(ECONNRESET); }
        if (t->rx.empty()) return 0;
        size_t n = std::min(len, t->rx.size());
        int64_t v = S->ch.choose(K_SHORT, [&](Rng &r) -> int64_t { if (S->quiet() || n <= 1 || !r.chance(S->pf.shortrw)) return 0; return r.range(1, (int64_t)n - 1); });
        if (v && (size_t)v < n) { n = v; S->cnt["short_read"]++; }
        for (size_t i = 0; i < n; i++) ((char *)buf)[i] = t->rx[i];
        if (!(flags & MSG_PEEK)) t->rx.erase(t->rx.begin(), t->rx.begin() + n);
        return n;
    }
    FAIL(EINVAL);
}
static ssize_t tcp_send(FileP f, const char *buf, size_t len, int flags) {
    auto t = f->tcp; if (!t) FAIL(ENOTCONN);
    auto pipe_err = [&]() -> ssize_t { if (!(flags & MSG_NOSIGNAL)) simapp_note(NODE, "sigpipe", 0, 0, ""); errno = EPIPE; return -1; };
    if (t->wr_shut) return pipe_err();
    if (t->reset) { t->reset = false; t->rx_eof = true; t->wr_shut = true; FAIL(ECONNRESET); }
    auto p = t->peer.lock();
    if (!t->connected) FAIL(ENOTCONN);
    if (!p || p->closed) { // first write succeeds and provokes a reset
        std::weak_ptr<TcpEnd> wt = t; S->after(S->pf.base_lat * 2, [wt]() { auto q = wt.lock(); if (q) { q->reset = true; } }); return len; }
    size_t sp = tcp_space(t.get());
    if (sp == 0) { if (f->nonblock || (flags & MSG_DONTWAIT)) FAIL(EAGAIN); S->block([f]() { return can_write(f.get()) || !f->open; }, -1); if (!f->open) FAIL(EBADF); return tcp_send(f, buf, len, flags); }
    size_t n = std::min(len, sp);
    int64_t v = S->ch.choose(K_SHORT, [&](Rng &r) -> int64_t { if (S->quiet() || n <= 1 || !r.chance(S->pf.shortrw)) return 0; return r.range(1, (int64_t)n - 1); });
    if (v && (size_t)v < n) { n = v; S->cnt["short_write"]++; }
    size_t off = 0;
    while (off < n) {
        size_t left = n - off, seg = left; ns_t extra = 0;
        int64_t c = S->ch.choose(K_SEG, [&](Rng &r) -> int64_t { if (S->quiet() || !r.chance(S->pf.seg)) return 0; int64_t sz = r.chance(0.5) ? r.range(1, 8) : r.range(1, 600); return (sz << 32) | r.range(0, S->pf.delay_max > 0 ? S->pf.delay_max / US : 5000); });
        if (c) { seg = std::min<size_t>(left, (size_t)(c >> 32)); extra = (c & 0xffffffffLL) * US; S->cnt["segment"]++; }
        Bytes d(buf + off, seg); ns_t when = std::max(S->now + S->pf.base_lat + extra, p->last_arrival + 1); p->last_arrival = when; p->in_flight += seg;
        std::weak_ptr<TcpEnd> wp = p; S->at(when, [wp, d]() { auto q = wp.lock(); if (!q) return; q->in_flight -= d.size(); if (!q->closed) q->rx.insert(q->rx.end(), d.begin(), d.end()); });
        off += seg;
    }
    return n;
}
static ssize_t do_send(int fd, const void *buf, size_t len, int flags, const struct sockaddr *sa, socklen_t sl, bool tocall) {
    tick(); FileP f = getfp(fd); if (!f) FAIL(EBADF);
    if (f->kind == F_TCP) return tcp_send(f, (const char *)buf, len, flags);
    if (f->kind != F_UDP) FAIL(EINVAL);
    Addr to; if (sa) { if (!from_sa(sa, sl, to)) FAIL(EINVAL); } else { if (!f->connected) FAIL(EDESTADDRREQ); to = f->peer; }
    if (!f->bound) { f->local = S->alloc_port(NODE); f->bound = true; S->udp[f->local] = f; }
    if (f->so_error) { int e = f->so_error; f->so_error = 0; FAIL(e); }
    if (len > 65507) FAIL(EMSGSIZE);
    if (int64_t e = S->sysfail(tocall ? sim::SYS_SENDTO : sim::SYS_SEND)) FAIL((int)e);
    S->net_send(f->local, to, Bytes((const char *)buf, len), NODE->id);
    return len;
}
ssize_t recv(int fd, void *b, size_t l, int fl) { if (!IN_SIM) return syscall(SYS_recvfrom, fd, b, l, fl, 0, 0); return do_recv(fd, b, l, fl, nullptr, nullptr, false); }
ssize_t recvfrom(int fd, void *b, size_t l, int fl, struct sockaddr *sa, socklen_t *sl) { if (!IN_SIM) return syscall(SYS_recvfrom, fd, b, l, fl, sa, sl); return do_recv(fd, b, l, fl, sa, sl, true); }
ssize_t recvmsg(int fd, struct msghdr *m, int fl) { if (!IN_SIM) return syscall(SYS_recvmsg, fd, m, fl); socklen_t sl = m->msg_namelen; ssize_t r = do_recv(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl, (sockaddr *)m->msg_name, m->msg_name ? &sl : nullptr, true); if (r >= 0 && m->msg_name) m->msg_namelen = sl; return r; }
ssize_t send(int fd, const void *b, size_t l, int fl) { if (!IN_SIM) return syscall(SYS_sendto, fd, b, l, fl, 0, 0); return do_send(fd, b, l, fl, nullptr, 0, false); }
ssize_t sendto(int fd, const void *b, size_t l, int fl, const struct sockaddr *sa, socklen_t sl) { if (!IN_SIM) return syscall(SYS_sendto, fd, b, l, fl, sa, sl); return do_send(fd, b, l, fl, sa, sl, true); }
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) { if (!IN_SIM) return syscall(SYS_sendmsg, fd, m, fl); Bytes d; for (size_t i = 0; i < m->msg_iovlen; i++) d.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return do_send(fd, d.data(), d.size(), fl, (const sockaddr *)m->msg_name, m->msg_namelen, m->msg_name != nullptr); }
ssize_t writev(int fd, const struct iovec *v, int n) { if (!IN_SIM) return syscall(SYS_writev, fd, v, n); Bytes d; for (int i = 0; i < n; i++) d.append((const char *)v[i].iov_base, v[i].iov_len); return do_send(fd, d.data(), d.size(), 0, nullptr, 0, false); }
ssize_t readv(int fd, const struct iovec *v, int n) { if (!IN_SIM) return syscall(SYS_readv, fd, v, n); return n ? do_recv(fd, v[0].iov_base, v[0].iov_len, 0, nullptr, nullptr, false) : 0; }
ssize_t read(int fd, void *b, size_t l) { if (!IN_SIM || fd < 3) return syscall(SYS_read, fd, b, l); return do_recv(fd, b, l, 0, nullptr, nullptr, false); }
ssize_t write(int fd, const void *b, size_t l) { if (!IN_SIM || fd < 3) return syscall(SYS_write, fd, b, l); return do_send(fd, b, l, 0, nullptr, 0, false); }

int select(int nfds, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    if (!IN_SIM) return (int)syscall(SYS_select, nfds, r, w, x, tv);
    tick();
    std::vector<std::pair<int, FileP>> rf, wf;
    for (int i = 0; i < nfds; i++) {
        if (r && FD_ISSET(i, r)) { FileP f = getfp(i); if (!f) FAIL(EBADF); rf.push_back({i, f}); }
        if (w && FD_ISSET(i, w)) { FileP f = getfp(i); if (!f) FAIL(EBADF); wf.push_back({i, f}); }
        if (x && FD_ISSET(i, x)) { if (!getfp(i)) FAIL(EBADF); }
    }
    auto any = [&]() { for (auto &p : rf) if (can_read(p.second.get())) return true; for (auto &p : wf) if (can_write(p.second.get())) return true; return false; };
    ns_t start = S->now, dl = tv ? S->now + tv->tv_sec * SEC + tv->tv_usec * US : -1;
    if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0)) FAIL(EINVAL);
    if (!any()) {
        if (int64_t e = S->sysfail(sim::SYS_SELECT)) FAIL((int)e);
        int64_t v = 0; FileP sf; int sfd = -1; if (S->pf.spur > 0 && r) for (auto &p : rf) if (p.second->kind == F_UDP && p.second->connected) { sf = p.second; sfd = p.first; }
        if (sf) v = S->ch.choose(K_SPUR, [&](Rng &r) -> int64_t { if (S->quiet() || !r.chance(S->pf.spur)) return 0; return 1 + (int64_t)r.below(r.chance(0.5) ? 10 * MS : 5 * SEC); });
        if (v && (!tv || dl > S->now + v)) { // the descriptor turns out to be readable although there is nothing to be read (a datagram with a bad checksum)
            S->block(any, S->now + v); if (!any()) { S->cnt["spurious"]++; S->log(EV_FAULT, NODE->id, -1, Addr(), Addr(), "", "spurious", v); FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x); FD_SET(sfd, r); return 1; } }
        else if (!tv || dl > S->now) S->block(any, dl);
    }
    if (tv) { ns_t left = dl - S->now; if (left < 0) left = 0; tv->tv_sec = left / SEC; tv->tv_usec = (left % SEC) / US; } (void)start;
    int n = 0; if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x);
    for (auto &p : rf) if (can_read(p.second.get())) { FD_SET(p.first, r); n++; }
    for (auto &p : wf) if (can_write(p.second.get())) { FD_SET(p.first, w); n++; }
    return n;
}
int pselect(int nfds, fd_set *r, fd_set *w, fd_set *x, const struct timespec *ts, const sigset_t *) { struct timeval tv, *p = nullptr; if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = ts->tv_nsec / 1000; p = &tv; } return select(nfds, r, w, x, p); }
int poll(struct pollfd *p, nfds_t n, int ms) {
    if (!IN_SIM) return (int)syscall(SYS_poll, p, n, ms);
    tick(); std::vector<FileP> fs; for (nfds_t i = 0; i < n; i++) fs.push_back(getfp(p[i].fd));
    auto eval = [&](bool set) { int c = 0; for (nfds_t i = 0; i < n; i++) { short re = 0; if (!fs[i]) re = POLLNVAL; else { if ((p[i].events & POLLIN) && can_read(fs[i].get())) re |= POLLIN; if ((p[i].events & POLLOUT) && can_write(fs[i].get())) re |= POLLOUT; } if (set) p[i].revents = re; if (re) c++; } return c; };
    if (!eval(false)) { if (ms == 0) { eval(true); return 0; } if (int64_t e = S->sysfail(sim::SYS_SELECT)) FAIL((int)e); S->block([&]() { return eval(false) > 0; }, ms < 0 ? -1 : S->now + ms * MS); }
    return eval(true);
}
// ------------------------------------------------------------- time
int timerfd_create(int clk, int flags) { if (!IN_SIM) return (int)syscall(SYS_timerfd_create, clk, flags); tick(); if (int64_t e = S->sysfail(sim::SYS_TIMERFD_CREATE)) FAIL((int)e); auto f = std::make_shared<File>(); f->kind = F_TIMER; f->nonblock = flags & TFD_NONBLOCK; int fd = newfd(f); if (fd < 0) FAIL(EMFILE); return fd; }
int timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *o) {
    if (!IN_SIM) return (int)syscall(SYS_timerfd_settime, fd, flags, n, o);
    tick(); File *f = getf(fd); if (!f) FAIL(EBADF); if (f->kind != F_TIMER) FAIL(EINVAL); if (int64_t e = S->sysfail(sim::SYS_TIMERFD_SETTIME)) FAIL((int)e);
    if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec >= SEC || n->it_value.tv_sec < 0) FAIL(EINVAL);
    if (o) { memset(o, 0, sizeof *o); if (f->armed && f->expiry > S->now) { ns_t left = f->expiry - S->now; o->it_value.tv_sec = left / SEC; o->it_value.tv_nsec = left % SEC; } }
    ns_t v = n->it_value.tv_sec * SEC + n->it_value.tv_nsec; f->interval = n->it_interval.tv_sec * SEC + n->it_interval.tv_nsec;
    f->armed = v > 0; f->expiry = (flags & TFD_TIMER_ABSTIME) ? v : S->now + v; return 0; }
int timerfd_gettime(int fd, struct itimerspec *o) { if (!IN_SIM) return (int)syscall(SYS_timerfd_gettime, fd, o); File *f = getf(fd); if (!f) FAIL(EBADF); memset(o, 0, sizeof *o); if (f->armed && f->expiry > S->now) { ns_t left = f->expiry - S->now; o->it_value.tv_sec = left / SEC; o->it_value.tv_nsec = left % SEC; } return 0; }
static ns_t wall() { return WALL_BASE * SEC + S->now + NODE->wall_off; }
time_t time(time_t *t) { time_t v; if (IN_SIM) v = wall() / SEC; else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } if (t) *t = v; return v; }
int gettimeofday(struct timeval *tv, void *) { if (!IN_SIM) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; } ns_t w = wall(); tv->tv_sec = w / SEC; tv->tv_usec = (w % SEC) / US; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { if (!IN_SIM) { ts->tv_sec = WALL_BASE; ts->tv_nsec = 0; return 0; } ns_t w = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall() : S->now + 1000 * SEC; ts->tv_sec = w / SEC; ts->tv_nsec = w % SEC; return 0; }
void sim_sleep_ns(int64_t d) { tick(); S->block([]() { return false; }, S->now + d); }
unsigned sleep(unsigned s) { if (!IN_SIM) { struct timespec ts = {(time_t)s, 0}; syscall(SYS_nanosleep, &ts, nullptr); return 0; } sim_sleep_ns(s * SEC); return 0; }
int usleep(useconds_t u) { if (!IN_SIM) { struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; syscall(SYS_nanosleep, &ts, nullptr); return 0; } sim_sleep_ns(u * US); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!IN_SIM) return (int)syscall(SYS_nanosleep, a, b); sim_sleep_ns(a->tv_sec * SEC + a->tv_nsec); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) { if (!IN_SIM) return (int)syscall(SYS_clock_nanosleep, c, fl, a, b); sim_sleep_ns(a->tv_sec * SEC + a->tv_nsec); return 0; }
// ------------------------------------------------------------- randomness
static int node_rand() { Node *n = NODE; return (int)(Rng(S->seed, 0x5eed, n->id * 64 + n->incarnation, n->rnd_ctr++).next() & 0x7fffffff); }
static unsigned ext_rand_state = 12345;
int rand(void) { if (!IN_SIM) { ext_rand_state = ext_rand_state * 1103515245 + 12345; return (ext_rand_state >> 1) & 0x7fffffff; } return node_rand(); }
void srand(unsigned) {}
long random(void) { return rand(); }
void srandom(unsigned) {}
int rand_r(unsigned *) { return rand(); }
// outside of the nodes too: libgnutls seeds its generator from here, possibly before the run starts
static uint64_t ext_rnd_ctr;
ssize_t getrandom(void *b, size_t l, unsigned) { if (!IN_SIM) { for (size_t i = 0; i < l; i++) ((unsigned char *)b)[i] = (unsigned char)Rng(S ? S->seed : 0, 0xe7, ext_rnd_ctr++).next(); return l; } Node *n = NODE; for (size_t i = 0; i < l; i++) { ((unsigned char *)b)[i] = (unsigned char)(Rng(S->seed, 0x9e7, n->id * 64 + n->incarnation, n->grnd_ctr++).next()); } return l; }
int getentropy(void *b, size_t l) { return getrandom(b, l, 0) == (ssize_t)l ? 0 : -1; }
// ------------------------------------------------------------- names
struct gai_blk { struct addrinfo ai; struct sockaddr_storage ss; };
int getaddrinfo(const char *h, const char *s, const struct addrinfo *hints, struct addrinfo **res) {
    if (!IN_SIM) { static int (*real)(const char *, const char *, const struct addrinfo *, struct addrinfo **); if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "getaddrinfo"); return real(h, s, hints, res); }
    tick(); if (int64_t e = S->sysfail(sim::SYS_GAI)) { (void)e; return EAI_AGAIN; }
    Addr a; unsigned b[4] = {0, 0, 0, 0}; bool v6 = hints && hints->ai_family == AF_INET6;
    if (h) { if (sscanf(h, "%u.%u.%u.%u", b, b + 1, b + 2, b + 3) == 4) a.ip = (b[0] << 24) | (b[1] << 16) | (b[2] << 8) | b[3]; else { bool ok = false; for (auto &n : S->nodes) if (n->name == h) { a.ip = n->ip; ok = true; } if (!ok) return EAI_NONAME; } }
    else a.ip = 0;
    if (s) { char *e; long p = strtol(s, &e, 10); if (*e || p < 0 || p > 65535 || e == s) return EAI_SERVICE; a.port = (uint16_t)p; }
    auto *k = (gai_blk *)calloc(1, sizeof(gai_blk)); socklen_t l = sizeof(k->ss); to_sa(a, v6, (sockaddr *)&k->ss, &l);
    k->ai.ai_family = v6 ? AF_INET6 : AF_INET; k->ai.ai_socktype = hints ? hints->ai_socktype : 0; k->ai.ai_protocol = hints ? hints->ai_protocol : 0; k->ai.ai_addr = (sockaddr *)&k->ss; k->ai.ai_addrlen = l; *res = &k->ai; S->cnt["gai_open"]++; return 0; }
void freeaddrinfo(struct addrinfo *r) { if (!IN_SIM) { static void (*real)(struct addrinfo *); if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "freeaddrinfo"); return real(r); } if (r) { S->cnt["gai_open"]--; free((gai_blk *)r); } }

// ------------------------------------------------------------- threads (images are linked with --wrap for these)
struct MtxState { Fiber *owner = nullptr; int count = 0; int type = PTHREAD_MUTEX_NORMAL; };
static std::map<void *, MtxState> *mtx; // per run (process)
static std::map<void *, int> *mattr;
static MtxState &M(void *m) { if (!mtx) mtx = new std::map<void *, MtxState>; return (*mtx)[m]; }
int __wrap_pthread_mutexattr_init(pthread_mutexattr_t *a) { memset(a, 0, sizeof *a); return 0; }
int __wrap_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { if (!mattr) mattr = new std::map<void *, int>; (*mattr)[a] = t; return 0; }
int __wrap_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { MtxState &s = M(m); s = MtxState(); if (a && mattr && mattr->count((void *)a)) s.type = (*mattr)[(void *)a]; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { if (mtx) mtx->erase(m); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!IN_SIM) return 0;
    tick(); MtxState &s = M(m);
    if (s.owner == S->cur) { if (s.type == PTHREAD_MUTEX_RECURSIVE) { s.count++; return 0; } if (s.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; S->violate("DEADLOCK: thread relocks a mutex it holds: " + S->cur->name); S->cur->st = FS_DEAD; fiber_switch_out(); }
    if (s.owner) { S->cnt["mutex_contended"]++; S->block([m]() { return M(m).owner == nullptr; }, -1); }
    MtxState &s2 = M(m); s2.owner = S->cur; s2.count = 1; return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!IN_SIM) return 0; tick(); MtxState &s = M(m); if (s.owner) return EBUSY; s.owner = S->cur; s.count = 1; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!IN_SIM) return 0; tick(); MtxState &s = M(m); if (s.owner != S->cur) { if (s.type == PTHREAD_MUTEX_ERRORCHECK) return EPERM; return 0; } if (--s.count == 0) s.owner = nullptr; return 0; }
int sim_pthread_create(pthread_t *id, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    tick(); if (int64_t e = S->sysfail(sim::SYS_PTHREAD_CREATE)) return (int)e;
    Node *n = NODE; n->nthreads++; char nm[64]; snprintf(nm, sizeof nm, "%s.t%d", n->name.c_str(), n->nthreads);
    Fiber *f = S->spawn(n, nm, nullptr, 768 * 1024); f->fn = [fn, arg, f]() { f->retval = fn(arg); };
    S->cnt["threads"]++; if (id) *id = (pthread_t)(uintptr_t)(f->id + 1); return 0; }
int __wrap_pthread_join(pthread_t id, void **r) { tick(); Fiber *f = S->fibers[(uintptr_t)id - 1].get(); S->block([f]() { return f->st == FS_DONE; }, -1); if (r) *r = f->retval; return 0; }
int __wrap_pthread_detach(pthread_t) { return 0; }
pthread_t __wrap_pthread_self(void) { return (pthread_t)(uintptr_t)(S->cur->id + 1); }
int __wrap_pthread_attr_init(pthread_attr_t *a) { memset(a, 0, sizeof *a); return 0; }
int __wrap_pthread_attr_destroy(pthread_attr_t *) { return 0; }
int __wrap_pthread_attr_setdetachstate(pthread_attr_t *, int) { return 0; }
int __wrap_pthread_sigmask(int, const sigset_t *, sigset_t *) { S->cur->detached = true; return 0; }
int __wrap_sigaction(int sig, const struct sigaction *sa, struct sigaction *) { if (sig == SIGPIPE && sa) simapp_note(NODE, "sigpipe_disp", sa->sa_handler == SIG_IGN ? 1 : 2, 0, ""); return 0; }
void (*__wrap_signal(int sig, void (*h)(int)))(int) { if (sig == SIGPIPE) simapp_note(NODE, "sigpipe_disp", h == SIG_IGN ? 1 : 2, 0, ""); return SIG_DFL; }
int __wrap_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *) { return 0; }
static std::map<void *, uint64_t> *condgen;
int __wrap_pthread_cond_signal(pthread_cond_t *c) { if (!condgen) condgen = new std::map<void *, uint64_t>; (*condgen)[c]++; return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return __wrap_pthread_cond_signal(c); }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!condgen) condgen = new std::map<void *, uint64_t>; uint64_t g = (*condgen)[c]; __wrap_pthread_mutex_unlock(m); S->block([c, g]() { return (*condgen)[c] != g; }, -1); return __wrap_pthread_mutex_lock(m); }
void __wrap_exit(int c) { simapp_note(NODE, "exit", c, 0, ""); S->cur->st = FS_DEAD; S->kill_node(NODE); fiber_switch_out(); __builtin_unreachable(); }
void __wrap_abort(void) { S->violate("ABORT: node called abort()"); S->cur->st = FS_DEAD; fiber_switch_out(); __builtin_unreachable(); }

// ------------------------------------------------------------- heap of the images
static bool malloc_fails() {
    if (!IN_SIM || (S->pf.malloc_fail <= 0 && !S->ch.replay) || !S->pf.on(NODE->id)) return false;
    int64_t v = S->ch.choose(K_ALLOC, [&](Rng &r) -> int64_t { return !S->quiet() && r.chance(S->pf.malloc_fail) ? 1 : 0; });
    if (v) { S->cnt["malloc_fail"]++; S->log(EV_FAULT, NODE->id, -1, Addr(), Addr(), "", "malloc_fail"); errno = ENOMEM; } return v; }
static void *track(void *p) { if (p && IN_SIM) { NODE->heap.insert(p); } return p; }
void *__wrap_malloc(size_t n) { if (malloc_fails()) return nullptr; return track(malloc(n)); }
void *__wrap_calloc(size_t a, size_t b) { if (malloc_fails()) return nullptr; return track(calloc(a, b)); }
void *__wrap_realloc(void *p, size_t n) { if (malloc_fails()) return nullptr; if (p && IN_SIM) NODE->heap.erase(p); return track(realloc(p, n)); }
char *__wrap_strdup(const char *s) { if (malloc_fails()) return nullptr; return (char *)track(strdup(s)); }
char *__wrap_strndup(const char *s, size_t n) { if (malloc_fails()) return nullptr; return (char *)track(strndup(s, n)); }
void __wrap_free(void *p) { if (p && IN_SIM) NODE->heap.erase(p); free(p); }
int sim_pool_fail(int pool, size_t) {
    if (!IN_SIM || (S->pf.alloc <= 0 && !S->ch.replay) || !S->pf.on(NODE->id)) return 0;
    int64_t v = S->ch.choose(K_ALLOC, [&](Rng &r) -> int64_t { return !S->quiet() && r.chance(S->pf.alloc) ? 1 : 0; });
    if (v) { S->cnt["pool_fail"]++; S->log(EV_FAULT, NODE->id, -1, Addr(), Addr(), "", "pool_fail", pool); } return v != 0; }
int sim_tls_fail(void) { return malloc_fails() ? 1 : 0; }
// ------------------------------------------------------------- logs of the images are discarded (or shown)
static int showlog = -1;
static int lg(const char *f, va_list ap) { if (showlog < 0) showlog = getenv("SIM_LOG") != nullptr; if (showlog) { static bool nl = true; if (nl) fprintf(stderr, "    %.3f [%s] ", S ? S->now / 1e9 : 0.0, IN_SIM ? NODE->name.c_str() : "-"); vfprintf(stderr, f, ap); nl = f[0] && f[strlen(f) - 1] == '\n'; } return 1; }
int __wrap_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = lg(f, ap); va_end(ap); return r; }
int __wrap_vfprintf(FILE *, const char *f, va_list ap) { char tmp[4096]; va_list a2; va_copy(a2, ap); vsnprintf(tmp, sizeof tmp, f, a2); va_end(a2); /* evaluates arguments like the real call */ return lg(f, ap); }
int __wrap_vprintf(const char *f, va_list ap) { return __wrap_vfprintf(nullptr, f, ap); }
int __wrap_puts(const char *s) { return (int)strlen(s); }
int __wrap_putchar(int c) { return c; }
int __wrap_fputs(const char *s, FILE *f) { return f == stdout || f == stderr ? 1 : fputs(s, f); }
int __wrap_fputc(int c, FILE *f) { return f == stdout || f == stderr ? c : fputc(c, f); }
int __wrap_fprintf(FILE *, const char *f, ...) { va_list ap; va_start(ap, f); int r = lg(f, ap); va_end(ap); return r; }
int __wrap_fflush(FILE *f) { if (!f || f == stdout || f == stderr) return 0; return fflush(f); }
// ------------------------------------------------------------- disk of the images
struct Cookie { std::string name; Bytes data; size_t pos = 0; bool wr = false; Node *n; };
static int64_t disk_fault(const char *op) {
    if ((S->pf.disk <= 0 && !S->ch.replay) || !S->pf.on(NODE->id)) return 0;
    int64_t v = S->ch.choose(K_DISK, [&](Rng &r) -> int64_t { if (S->quiet() || !r.chance(S->pf.disk)) return 0; return 1 + r.below(1000); });
    if (v) { S->cnt[std::string("disk_") + op]++; S->log(EV_FAULT, NODE->id, -1, Addr(), Addr(), "", op, v); } return v; }
static ssize_t ck_read(void *c, char *b, size_t n) { auto k = (Cookie *)c; int64_t v = disk_fault("read"); if (v && v % 3) { errno = EIO; return -1; } Bytes &d = S->fs.files[k->name]; size_t left = k->pos < d.size() ? d.size() - k->pos : 0; n = std::min(n, left); if (v && n) n = (size_t)v % n; /* the file ends early */ memcpy(b, d.data() + k->pos, n); k->pos += n; return n; }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    tick(); auto k = (Cookie *)c; int64_t v = disk_fault("write"); Bytes &d = S->fs.files[k->name]; size_t m = n;
    if (v) { m = (size_t)(v - 1) % (n + 1); if (m == n) m = 0; }
    if (d.size() < k->pos) d.resize(k->pos); d.replace(k->pos, std::min(m, d.size() - k->pos), b, m); k->pos += m;
    if (v) { errno = ENOSPC; return m; } return n; }
static int ck_seek(void *c, off64_t *o, int wh) { auto k = (Cookie *)c; Bytes &d = S->fs.files[k->name]; off64_t p = wh == SEEK_SET ? *o : wh == SEEK_CUR ? (off64_t)k->pos + *o : (off64_t)d.size() + *o; if (p < 0) return -1; k->pos = p; *o = p; return 0; }
static int ck_close(void *c) {
    tick(); auto k = (Cookie *)c; int r = 0; Bytes &d = S->fs.files[k->name];
    if (k->wr) { if (int64_t v = disk_fault("close")) { errno = EIO; r = -1; if (!d.empty()) d.resize((size_t)v % d.size()); } S->fs.closed.push_back({S->now, k->name, d}); } // a failed close: the tail never reached the disk
    S->cnt["file_close"]++; delete k; return r; }
FILE *__wrap_fopen(const char *n, const char *mode) {
    tick(); bool wr = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+'); std::string key = std::to_string(NODE->ip) + ":" + n;
    if (disk_fault("open")) { errno = wr ? ENOSPC : EIO; return nullptr; }
    if (!wr && !S->fs.files.count(key)) { errno = ENOENT; return nullptr; }
    if (strchr(mode, 'w')) S->fs.files[key].clear();
    auto k = new Cookie{key, "", 0, wr, NODE}; if (strchr(mode, 'a')) k->pos = S->fs.files[key].size();
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close}; S->cnt["file_open"]++;
    return fopencookie(k, mode, io); }

// ------------------------------------------------------------- basic-block callback of the instrumented images
static void preempt_point(Sim *s);
void __sanitizer_cov_trace_pc(void) {
    Sim *s = S; if (!s || !s->cur) return;
    s->bb++;
    if (sim::cov && s->cur->node && s->cur->node->img) { uint8_t *c = &sim::cov[((uintptr_t)__builtin_return_address(0) - s->cur->node->img->base) & sim::cov_mask]; if (!*c) *c = 1; }
    if (s->bb - s->bb_last_sys > 60000000ULL) { s->violate("HANG: a node executed 60M basic blocks without a system call, fiber " + s->cur->name); s->cur->st = FS_DEAD; fiber_switch_out(); }
    preempt_point(s);
}
static inline void mem_point() { Sim *s = S; if (!s || !s->cur) return; s->bb++; preempt_point(s); }
#define TS(n) void __tsan_##n(void *) { mem_point(); }
TS(read1) TS(read2) TS(read4) TS(read8) TS(read16) TS(write1) TS(write2) TS(write4) TS(write8) TS(write16)
TS(unaligned_read2) TS(unaligned_read4) TS(unaligned_read8) TS(unaligned_read16) TS(unaligned_write2) TS(unaligned_write4) TS(unaligned_write8) TS(unaligned_write16)
TS(volatile_read1) TS(volatile_read2) TS(volatile_read4) TS(volatile_read8) TS(volatile_read16) TS(volatile_write1) TS(volatile_write2) TS(volatile_write4) TS(volatile_write8) TS(volatile_write16)
TS(func_entry)
void __tsan_func_exit(void) {} void __tsan_init(void) {}
void __tsan_read_range(void *, size_t) { mem_point(); } void __tsan_write_range(void *, size_t) { mem_point(); }
void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
#define TSA(b, T) \
T __tsan_atomic##b##_load(const volatile T *a, int) { mem_point(); return *a; } \
void __tsan_atomic##b##_store(volatile T *a, T v, int) { mem_point(); *a = v; } \
T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { mem_point(); T o = *a; *a = v; return o; } \
T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { mem_point(); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { mem_point(); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { mem_point(); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { mem_point(); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { mem_point(); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { mem_point(); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { mem_point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { return __tsan_atomic##b##_compare_exchange_strong(a, c, v, m, f); } \
T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { mem_point(); T o = *a; if (o == c) *a = v; return o; }
TSA(8, unsigned char) TSA(16, unsigned short) TSA(32, unsigned) TSA(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
static void preempt_point(Sim *s) {
    if (!s->cur->node || !s->cur->node->mt) return;
    auto go = [s](int64_t us) { s->ch.record(K_PREEMPT, (uint32_t)s->bb, us); s->cnt["preempt"]++; if (us <= 1) { s->yield(); return; } s->cnt["preempt_for_a_while"]++; int e = errno; s->block([]() { return false; }, s->now + us * US); errno = e; };
    if (s->ch.replay) { auto it = s->preempt_at.find(s->bb); if (it != s->preempt_at.end()) go(it->second); return; }
    if (s->pf.preempt <= 0) return;
    if (s->next_preempt == UINT64_MAX) s->next_preempt = s->bb + 1 + (uint64_t)(s->preempt_rng.below((uint64_t)(2.0 / s->pf.preempt) + 1));
    if (s->bb >= s->next_preempt) { s->next_preempt = UINT64_MAX; if (!s->quiet()) { int64_t us = 1; if (s->pf.presleep_n > 0 && s->now >= s->pf.stall_from && s->preempt_rng.chance(s->pf.presleep)) { s->pf.presleep_n--; us = s->preempt_rng.range(2, s->pf.presleep_max / US); } go(us); } }
}
// ------------------------------------------------------------- glue entry points
void simapp_server_handle(void *n, const app_msg_t *q, const char *p, app_act_t *a) { H->srv_handle((Node *)n, q, p, a); }
void simapp_server_rx(void *n, const app_msg_t *q, const char *p, unsigned char *b, size_t l, size_t *e, app_act_t *a) { H->srv_rx((Node *)n, q, p, b, l, e, a); }
void simapp_server_up(void *n) { H->srv_up((Node *)n); }
void simapp_server_exit(void *n, int r) { H->srv_exit((Node *)n, r); }
void simapp_client_created(void *n, int r) { H->cli_created((Node *)n, r); }
void simapp_client_next(void *n, cli_op_t *o) { H->cli_next((Node *)n, o); }
void simapp_client_result(void *n, const cli_op_t *o, long r, const app_msg_t *q, const app_msg_t *p) { H->cli_result((Node *)n, o, r, q, p); }
void simapp_pool_usage(void *n, const char *w, int a, int b, int c) { H->pool_usage((Node *)n, w, a, b, c); }
void simapp_pool_next(void *n, int th, pool_op_t *o) { H->pool_next((Node *)n, th, o); }
void simapp_pool_begin(void *n, int th, int pool, size_t len) { H->pool_ev((Node *)n, 0, th, pool, len, nullptr, nullptr); }
void simapp_pool_got(void *n, int th, int pool, size_t len, void *p, void *b) { H->pool_ev((Node *)n, 1, th, pool, len, p, b); }
void simapp_pool_put(void *n, int th, int pool, void *p) { H->pool_ev((Node *)n, 2, th, pool, 0, p, nullptr); }
void simapp_pool_freed(void *n, int th, int pool) { H->pool_ev((Node *)n, 3, th, pool, 0, nullptr, nullptr); }
void simapp_pool_phase(void *n, int ph) { H->pool_ev((Node *)n, 4, ph, 0, 0, nullptr, nullptr); }
void simapp_http_next(void *n, http_op_t *o) { H->http_next((Node *)n, o); }
long simapp_tls_out(const void *d, size_t n, void *o, size_t c) { if (IN_SIM) thread_stall(8); return IN_SIM ? H->tls_out(NODE, d, n, o, c) : -1; }
void simapp_http_ev(void *n, const http_op_t *o, long r, const void *d, size_t l) { H->http_ev((Node *)n, o, r, d, l); }
void simapp_note(void *n, const char *k, long a, long b, const char *s) { if (!n && S && S->cur) n = S->cur->node; if (H) H->note((Node *)n, k, a, b, s); }
void simapp_violate(void *, const char *m) { S->violate(m); }
void *sim_node_data(void *n) { return ((Node *)n)->data; }
}
