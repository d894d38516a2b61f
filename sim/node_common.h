/* Shared by the node images: buffer-pool and TLS-object accounting, with failure injection. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "coap_mem.h"
#include "simapi.h"

int node_image_anchor = 1;
int sim_pool_fail(int pool, size_t len);
int sim_tls_fail(void);

/* ---- buffer pools: observation and failure injection at the calls from other files ---- */
static int popc(const char *a, size_t n) { int c = 0; size_t i; for (i = 0; i < n; i++) c += __builtin_popcount((unsigned char)a[i]); return c; }
static int in_use(int pool)
{
    const char *a = pool == 0 ? coap_mem_small_get_active() : pool == 1 ? coap_mem_medium_get_active() : coap_mem_large_get_active();
    size_t n = pool == 0 ? coap_mem_small_get_active_len() : pool == 1 ? coap_mem_medium_get_active_len() : coap_mem_large_get_active_len();
    return a ? popc(a, n) : 0;
}
static int inside(int pool, void *p)
{
    char *b = pool == 0 ? coap_mem_small_get_buf() : pool == 1 ? coap_mem_medium_get_buf() : coap_mem_large_get_buf();
    size_t n = pool == 0 ? coap_mem_small_get_num() : pool == 1 ? coap_mem_medium_get_num() : coap_mem_large_get_num();
    size_t l = pool == 0 ? coap_mem_small_get_len() : pool == 1 ? coap_mem_medium_get_len() : coap_mem_large_get_len();
    return b && (char *)p >= b && (char *)p < b + n * l;
}
static const char *pool_name[] = {"small", "medium", "large"};
/* with several threads in the node, occupancy can change between the two readings */
int node_single_thread = 1;
static void check_free(int pool, void *p, void (*real)(void *))
{
    char msg[160];
    int before;
    if (p && !inside(pool, p)) {
        snprintf(msg, sizeof msg, "POOL: buffer released to the %s pool does not belong to it (%s)", pool_name[pool],
                 inside(0, p) ? "belongs to small" : inside(1, p) ? "belongs to medium" : inside(2, p) ? "belongs to large" : "in no pool");
        simapp_note(NULL, "badfree", pool, 0, msg);
    }
    before = in_use(pool);
    real(p);
    if (p && node_single_thread && inside(pool, p) && in_use(pool) != before - 1) {
        snprintf(msg, sizeof msg, "POOL: releasing a %s buffer changed the number in use from %d to %d (double release?)", pool_name[pool], before, in_use(pool));
        simapp_note(NULL, "badfree", pool, 1, msg);
    }
}
#define POOLWRAP(nm, ix) \
    void *__real_coap_mem_##nm##_alloc(size_t len); void __real_coap_mem_##nm##_free(void *p); \
    void *__wrap_coap_mem_##nm##_alloc(size_t len) { if (sim_pool_fail(ix, len)) return NULL; return __real_coap_mem_##nm##_alloc(len); } \
    void __wrap_coap_mem_##nm##_free(void *p) { check_free(ix, p, __real_coap_mem_##nm##_free); }
POOLWRAP(small, 0)
POOLWRAP(medium, 1)
POOLWRAP(large, 2)

static void report_pools(void *node, const char *when) { simapp_pool_usage(node, when, in_use(0), in_use(1), in_use(2)); }
void node_report_pools(void *node, const char *when) { report_pools(node, when); }

#ifdef COAP_DTLS_EN
#include <gnutls/gnutls.h>
#include <gnutls/x509.h>
/* Diffie-Hellman parameters: a well-known group instead of minutes of prime search */
int __wrap_gnutls_dh_params_generate2(gnutls_dh_params_t p, unsigned bits)
{ (void)bits; return gnutls_dh_params_import_raw(p, &gnutls_ffdhe_2048_group_prime, &gnutls_ffdhe_2048_group_generator); }
/* library objects: live count and failing creation */
static int tls_live[5];
#define TLSOBJ(ix, mk, mkargs, mkcall, rm, rmarg) \
    int __real_##mk mkargs; void __real_##rm(rmarg); \
    int __wrap_##mk mkargs { int r; if (sim_tls_fail()) return GNUTLS_E_MEMORY_ERROR; r = __real_##mk mkcall; if (r >= 0) tls_live[ix]++; return r; } \
    void __wrap_##rm(rmarg a) { tls_live[ix]--; __real_##rm(a); }
TLSOBJ(0, gnutls_init, (gnutls_session_t *s, unsigned f), (s, f), gnutls_deinit, gnutls_session_t)
TLSOBJ(1, gnutls_certificate_allocate_credentials, (gnutls_certificate_credentials_t *c), (c), gnutls_certificate_free_credentials, gnutls_certificate_credentials_t)
TLSOBJ(2, gnutls_dh_params_init, (gnutls_dh_params_t *d), (d), gnutls_dh_params_deinit, gnutls_dh_params_t)
TLSOBJ(3, gnutls_priority_init, (gnutls_priority_t *p, const char *s, const char **e), (p, s, e), gnutls_priority_deinit, gnutls_priority_t)
TLSOBJ(4, gnutls_x509_crt_init, (gnutls_x509_crt_t *c), (c), gnutls_x509_crt_deinit, gnutls_x509_crt_t)
/* a peer that presents no certificate at all */
int __real_gnutls_certificate_set_x509_key_file(gnutls_certificate_credentials_t c, const char *cf, const char *kf, gnutls_x509_crt_fmt_t t);
int __wrap_gnutls_certificate_set_x509_key_file(gnutls_certificate_credentials_t c, const char *cf, const char *kf, gnutls_x509_crt_fmt_t t)
{ if (cf && strstr(cf, "/none_")) return GNUTLS_E_SUCCESS; return __real_gnutls_certificate_set_x509_key_file(c, cf, kf, t); }
ssize_t __real_gnutls_record_send(gnutls_session_t s, const void *d, size_t n);
ssize_t __wrap_gnutls_record_send(gnutls_session_t s, const void *d, size_t n)
{
    static unsigned char out[70000]; long k = simapp_tls_out(d, n, out, sizeof out); /* an authenticated peer that sends something else, or nothing */
    ssize_t r; if (k == 0) return n; r = k > 0 ? __real_gnutls_record_send(s, out, k) : __real_gnutls_record_send(s, d, n); if (k > 0 && r == k) r = n;
    if (n > 1 && ((const unsigned char *)d)[1] >= 1 && ((const unsigned char *)d)[1] < 32) simapp_note(NULL, "tls_send_req", n, 0, "");
    return r;
}
static void report_tls(void *node, const char *when)
{
    char m[160]; int i, n = 0; for (i = 0; i < 5; i++) n += tls_live[i] < 0 ? -tls_live[i] : tls_live[i];
    snprintf(m, sizeof m, "%d sessions, %d credentials, %d DH parameters, %d priorities, %d certificates", tls_live[0], tls_live[1], tls_live[2], tls_live[3], tls_live[4]);
    simapp_note(node, when, n, 0, m);
}
#else
static void report_tls(void *node, const char *when) { (void)node; (void)when; }
#endif
void node_usage(int *pool, int *tls)
{
    int i; for (i = 0; i < 3; i++) pool[i] = in_use(i);
    for (i = 0; i < 5; i++) tls[i] = 0;
#ifdef COAP_DTLS_EN
    for (i = 0; i < 5; i++) tls[i] = tls_live[i];
#endif
}
