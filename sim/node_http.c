/* HTTP-over-TLS client of the harness (not code under test): executes the simulator's steps. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <netinet/in.h>
#include <gnutls/gnutls.h>
#include "simapi.h"
int node_image_anchor = 1;
static int fd = -1, up;
static gnutls_session_t ses;
static gnutls_certificate_credentials_t cred;
static int wait_io(int wr, int64_t ns)
{
    fd_set s; struct timeval tv; FD_ZERO(&s); FD_SET(fd, &s);
    tv.tv_sec = ns / 1000000000LL; tv.tv_usec = (ns % 1000000000LL) / 1000;
    return select(fd + 1, wr ? NULL : &s, wr ? &s : NULL, NULL, &tv);
}
/* the session of the last connection, resumed by the next (TLS 1.2 with session identifiers; the proxy keeps a cache of sessions) */
static gnutls_datum_t saved; static int full;
static void drop(void) { if (up && full && gnutls_protocol_get_version(ses) == GNUTLS_TLS1_2) { gnutls_datum_t d; if (gnutls_session_get_data2(ses, &d) == 0) { if (saved.data) gnutls_free(saved.data); saved = d; } } full = 0;
    if (up) { gnutls_deinit(ses); gnutls_certificate_free_credentials(cred); up = 0; } if (fd >= 0) { close(fd); fd = -1; } }
static long do_connect(void *nd, const http_op_t *o, int tls)
{
    struct sockaddr_in a; int r; drop();
    fd = socket(AF_INET, SOCK_STREAM, 0); if (fd < 0) return -1;
    memset(&a, 0, sizeof a); a.sin_family = AF_INET; inet_pton(AF_INET, o->host, &a.sin_addr); a.sin_port = htons(o->port);
    if (connect(fd, (struct sockaddr *)&a, sizeof a) < 0) { close(fd); fd = -1; return -2; }
    fcntl(fd, F_SETFL, O_NONBLOCK);
    if (!tls) return 0;
    gnutls_certificate_allocate_credentials(&cred);
    gnutls_certificate_set_x509_trust_file(cred, o->trust, GNUTLS_X509_FMT_PEM);
    if (o->cert[0] && gnutls_certificate_set_x509_key_file(cred, o->cert, o->key, GNUTLS_X509_FMT_PEM) < 0) { gnutls_certificate_free_credentials(cred); drop(); return -3; }
    gnutls_init(&ses, GNUTLS_CLIENT | GNUTLS_NO_TICKETS); up = 1;
    gnutls_priority_set_direct(ses, o->prio, NULL); gnutls_credentials_set(ses, GNUTLS_CRD_CERTIFICATE, cred);
    gnutls_transport_set_int(ses, fd); gnutls_handshake_set_timeout(ses, 0);
    if (saved.data && strstr(o->cert, "good_client") && strstr(o->prio, "-VERS-TLS1.3")) gnutls_session_set_data(ses, saved.data, saved.size);
    for (;;) {
        r = gnutls_handshake(ses);
        if (r == 0) { full = strstr(o->cert, "good_client") != NULL; if (gnutls_session_is_resumed(ses)) simapp_note(nd, "tls_resumed", 1, 0, ""); return 0; }
        if (r != GNUTLS_E_AGAIN && r != GNUTLS_E_INTERRUPTED) { drop(); return -1000 + r; }
        if (wait_io(gnutls_record_get_direction(ses), o->ns) <= 0) { drop(); return -4; }
    }
}
int node_http_main(void *node)
{
    static http_op_t o; static unsigned char buf[20000]; long r;
    for (;;) {
        memset(&o, 0, sizeof o); simapp_http_next(node, &o);
        if (o.kind == H_END) break;
        r = 0;
        switch (o.kind) {
        case H_CONNECT: r = do_connect(node, &o, 1); break;
        case H_TCP: r = do_connect(node, &o, 0); break;
        case H_SLEEP: sim_sleep_ns(o.ns); break;
        case H_SEND: { size_t off = 0; r = -10; if (!up) break;
            while (off < o.len) { long k = gnutls_record_send(ses, o.data + off, o.len - off);
                if (k == GNUTLS_E_AGAIN || k == GNUTLS_E_INTERRUPTED) { if (wait_io(1, 200000000000LL) <= 0) { k = -11; } else continue; }
                if (k <= 0) { r = k ? k : -12; break; } off += k; }
            if (off == o.len) r = (long)off; break; }
        case H_RAW: r = fd >= 0 ? send(fd, o.data, o.len, MSG_NOSIGNAL) : -10; break;
        case H_RECV: if (!up) { r = -10; break; }
            for (;;) { r = gnutls_record_recv(ses, buf, sizeof buf);
                if (r == GNUTLS_E_AGAIN || r == GNUTLS_E_INTERRUPTED) { if (wait_io(0, o.ns) <= 0) { r = -11; break; } continue; }
                break; }
            if (r > 0) { simapp_http_ev(node, &o, r, buf, r); continue; } break;
        case H_BYE: if (up) r = gnutls_bye(ses, GNUTLS_SHUT_WR); break;
        case H_CLOSE: drop(); break;
        }
        simapp_http_ev(node, &o, r, NULL, 0);
    }
    drop();
    return 0;
}
