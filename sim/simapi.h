/* Interface between the node glue (compiled into each node image together with
 * /repo's sources) and the simulator.  Neutral types only: the simulator never
 * sees the layout of FreeCoAP's own structures. */
#ifndef SIMAPI_H
#define SIMAPI_H
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif

#define APP_MAX_OPS 320
#define APP_MAX_VALS 4096
typedef struct { unsigned num, len, off; } app_op_t;
typedef struct {
    unsigned ver, type, code_class, code_detail, msg_id, token_len;
    unsigned char token[8];
    unsigned num_ops, vals_len, overflow;
    app_op_t op[APP_MAX_OPS];
    unsigned char vals[APP_MAX_VALS];
    unsigned payload_len;
    unsigned char payload[2048];
} app_msg_t;

/* node configuration handed to the glue */
typedef struct {
    char host[64], port[16];
    char key[128], cert[128], trust[128], crl[128], cn[64];
    unsigned snum, slen, mnum, mlen, lnum, llen;     /* pools */
    unsigned num_sep; char sep[4][64];
    int index;                                       /* which client/server this is */
} node_cfg_t;

/* server side: what the application does with a request */
typedef struct {
    int mode;                      /* 0 = respond, 1 = library block-wise, 2 = return error, 3 = app sets nothing */
    int err;                       /* mode 2 */
    unsigned block1, block2;       /* mode 1 */
    unsigned char *body; size_t body_len; /* mode 1: body / buffer given to the library */
    int with_rx;
    app_msg_t resp;                /* code, options, payload */
} app_act_t;

/* client side: next operation */
enum { COP_END = 0, COP_EXCHANGE, COP_BLOCKWISE, COP_SLEEP, COP_RECREATE };
typedef struct {
    int kind;
    app_msg_t req;                 /* type, code, options, payload */
    unsigned block1, block2;
    unsigned char *body; size_t body_len; int have_resp;   /* block-wise */
    int64_t sleep_ns;
    int id;
    int keep, reuse;               /* keep the request object after this operation; use the kept one for this operation */
} cli_op_t;

/* ---- glue -> simulator ---- */
void simapp_server_handle(void *node, const app_msg_t *req, const char *peer, app_act_t *act);
/* block_rx upcall: body received so far; returns code detail+class in act->resp */
void simapp_server_rx(void *node, const app_msg_t *req, const char *peer, unsigned char *body, size_t body_len, size_t *body_end, app_act_t *act);
void simapp_server_up(void *node);
void simapp_server_exit(void *node, int ret);
void simapp_client_created(void *node, int ret);
void simapp_client_next(void *node, cli_op_t *op);
void simapp_client_result(void *node, const cli_op_t *op, long ret, const app_msg_t *req, const app_msg_t *resp);
void simapp_pool_usage(void *node, const char *when, int small, int medium, int large);
/* pools shared by threads */
#define POOL_MAX_THREADS 8
enum { POOL_END = 0, POOL_ALLOC, POOL_FREE, POOL_SLEEP };
typedef struct { int kind, pool, slot; size_t len; unsigned char pat; int64_t sleep_ns; } pool_op_t;
void simapp_pool_next(void *node, int th, pool_op_t *op);
void simapp_pool_begin(void *node, int th, int pool, size_t len);
void simapp_pool_got(void *node, int th, int pool, size_t len, void *p, void *base);
void simapp_pool_put(void *node, int th, int pool, void *p);
void simapp_pool_freed(void *node, int th, int pool);
void simapp_pool_phase(void *node, int phase);
/* HTTP clients of the proxy */
enum { H_END = 0, H_CONNECT, H_TCP, H_SLEEP, H_SEND, H_RAW, H_RECV, H_BYE, H_CLOSE };
typedef struct { int kind; const unsigned char *data; size_t len; int64_t ns; char host[32]; int port; char cert[128], key[128], trust[128], prio[96]; } http_op_t;
void simapp_http_next(void *node, http_op_t *op);
long simapp_tls_out(const void *d, size_t n, void *out, size_t cap); /* -1: unchanged, 0: swallow, >0: length of the replacement */
void simapp_http_ev(void *node, const http_op_t *op, long ret, const void *data, size_t len);
void simapp_note(void *node, const char *key, long a, long b, const char *s);
void simapp_violate(void *node, const char *msg);
void sim_sleep_ns(int64_t ns);
void *sim_node_data(void *node);

#ifdef __cplusplus
}
#endif
#endif
