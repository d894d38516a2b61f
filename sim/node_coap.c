/* Node glue compiled into each image with /repo/lib: a server application and a client
 * application driven by the simulator through simapi.h.  Uses only FreeCoAP's public API. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <arpa/inet.h>
#include "coap_msg.h"
#include "coap_mem.h"
#include "coap_log.h"
#include "coap_client.h"
#include "coap_server.h"
#include "simapi.h"

#include "node_common.h"

/* ---- conversions ---- */
static void to_app(coap_msg_t *m, app_msg_t *a)
{
    coap_msg_op_t *op;
    memset(a, 0, offsetof(app_msg_t, op));
    a->ver = coap_msg_get_ver(m); a->type = coap_msg_get_type(m);
    a->code_class = coap_msg_get_code_class(m); a->code_detail = coap_msg_get_code_detail(m);
    a->msg_id = coap_msg_get_msg_id(m); a->token_len = coap_msg_get_token_len(m);
    if (a->token_len <= 8) memcpy(a->token, coap_msg_get_token(m), a->token_len);
    for (op = coap_msg_get_first_op(m); op; op = coap_msg_op_get_next(op)) {
        unsigned l = coap_msg_op_get_len(op);
        if (a->num_ops >= APP_MAX_OPS || a->vals_len + l > APP_MAX_VALS) { a->overflow = 1; break; }
        a->op[a->num_ops].num = coap_msg_op_get_num(op); a->op[a->num_ops].len = l; a->op[a->num_ops].off = a->vals_len;
        memcpy(a->vals + a->vals_len, coap_msg_op_get_val(op), l);
        a->vals_len += l; a->num_ops++;
    }
    a->payload_len = coap_msg_get_payload_len(m);
    if (a->payload_len > sizeof a->payload) { a->overflow = 1; a->payload_len = sizeof a->payload; }
    if (a->payload_len) memcpy(a->payload, coap_msg_get_payload(m), a->payload_len);
}
static int put_payload(const app_msg_t *a, coap_msg_t *m)
{
    return coap_msg_set_payload(m, (char *)a->payload, a->payload_len);
}
static int put_options(const app_msg_t *a, coap_msg_t *m)
{
    unsigned i; int ret;
    for (i = 0; i < a->num_ops; i++) { ret = coap_msg_add_op(m, a->op[i].num, a->op[i].len, (const char *)a->vals + a->op[i].off); if (ret < 0) return ret; }
    return 0;
}
/* Applications compose messages in different ways; the way is a function of the message. */
static int from_app(const app_msg_t *a, coap_msg_t *m, int set_type)
{
    unsigned i, h = 2166136261u; int ret; coap_msg_t t;
    for (i = 0; i < a->vals_len; i++) h = (h ^ a->vals[i]) * 16777619u;
    for (i = 0; i < a->payload_len; i++) h = (h ^ a->payload[i]) * 16777619u;
    h = (h ^ a->num_ops ^ (a->code_detail << 5)) * 16777619u; h ^= h >> 15;
    if (set_type) { ret = coap_msg_set_type(m, a->type); if (ret < 0) return ret; }
    switch (h % 12) {
    case 0: /* payload first */
        if ((ret = coap_msg_set_code(m, a->code_class, a->code_detail)) < 0) return ret;
        if ((ret = put_payload(a, m)) < 0) return ret;
        return put_options(a, m);
    case 1: /* a first payload, replaced */
        if ((ret = coap_msg_set_payload(m, "draft", 5)) < 0) return ret;
        if ((ret = put_options(a, m)) < 0) return ret;
        if ((ret = coap_msg_set_code(m, a->code_class, a->code_detail)) < 0) return ret;
        return put_payload(a, m);
    case 2: /* a first payload, withdrawn */
        if ((ret = coap_msg_set_payload(m, "a longer draft of the text", 26)) < 0) return ret;
        coap_msg_clear_payload(m);
        if ((ret = coap_msg_set_code(m, 5, 31)) < 0) return ret;
        if ((ret = coap_msg_set_code(m, a->code_class, a->code_detail)) < 0) return ret;
        if ((ret = put_options(a, m)) < 0) return ret;
        return a->payload_len ? put_payload(a, m) : 0;
    case 3: /* options and payload by way of another message */
        coap_msg_create(&t);
        ret = coap_msg_set_type(&t, coap_msg_get_type(m));
        if (ret >= 0) ret = coap_msg_set_code(&t, a->code_class, a->code_detail);
        if (ret >= 0) ret = put_options(a, &t);
        if (ret >= 0) ret = put_payload(a, &t);
        if (ret >= 0) ret = coap_msg_copy(m, &t);
        coap_msg_destroy(&t);
        return ret;
    }
    ret = coap_msg_set_code(m, a->code_class, a->code_detail); if (ret < 0) return ret;
    ret = put_options(a, m); if (ret < 0) return ret;
    if (a->payload_len) { ret = put_payload(a, m); if (ret < 0) return ret; }
    return 0;
}

/* ---- server application ---- */
static void *srv_node;
static coap_server_t srv;
static void peer_str(coap_server_trans_t *t, char *b, size_t n)
{
    char a[128] = "";
    inet_ntop(COAP_IPV_AF_INET, &t->client_sin.COAP_IPV_SIN_ADDR, a, sizeof a);
    snprintf(b, n, "%s|%u", a, (unsigned)ntohs(t->client_sin.COAP_IPV_SIN_PORT));
}
static int srv_rx(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp)
{
    app_msg_t a; app_act_t act; char peer[160]; size_t end = coap_server_trans_get_body_end(t); int ret;
    memset(&act, 0, sizeof act);
    to_app(req, &a); peer_str(t, peer, sizeof peer);
    simapp_server_rx(srv_node, &a, peer, (unsigned char *)coap_server_trans_get_body(t), coap_server_trans_get_body_len(t), &end, &act);
    coap_server_trans_set_body_end(t, end);
    if (act.mode == 2) return act.err;
    ret = from_app(&act.resp, resp, 0);
    return ret;
}
static int srv_handle(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp)
{
    app_msg_t a; app_act_t act; char peer[160];
    memset(&act, 0, sizeof act);
    to_app(req, &a); peer_str(t, peer, sizeof peer);
    simapp_server_handle(srv_node, &a, peer, &act);
    if (act.mode == 2) return act.err;
    if (act.mode == 1) return coap_server_trans_handle_blockwise(t, req, resp, act.block1, act.block2, (char *)act.body, act.body_len, act.with_rx ? srv_rx : NULL);
    if (act.mode == 3) return 0;
    return from_app(&act.resp, resp, 0);
}
int node_server_main(void *node, const node_cfg_t *c)
{
    int ret; unsigned i;
    srv_node = node;
    coap_log_set_level(getenv("SIM_LOG") ? COAP_LOG_DEBUG : COAP_LOG_ERROR);
    ret = coap_mem_all_create(c->snum, c->slen, c->mnum, c->mlen, c->lnum, c->llen);
    if (ret < 0) { simapp_note(node, "mem_create_failed", ret, 0, ""); return ret; }
#ifdef COAP_DTLS_EN
    ret = coap_server_create(&srv, srv_handle, c->host, c->port, c->key, c->cert, c->trust, c->crl);
#else
    ret = coap_server_create(&srv, srv_handle, c->host, c->port);
#endif
    if (ret < 0) { simapp_note(node, "server_create_failed", ret, 0, ""); report_pools(node, "end"); report_tls(node, "tls_end"); coap_mem_all_destroy(); simapp_note(node, "server_down", ret, 0, ""); return ret; }
    for (i = 0; i < c->num_sep; i++) { ret = coap_server_add_sep_resp_uri_path(&srv, c->sep[i]); if (ret < 0) simapp_note(node, "sep_failed", ret, 0, ""); }
    report_pools(node, "start");
    simapp_server_up(node);
    ret = coap_server_run(&srv);
    simapp_server_exit(node, ret);
    coap_server_destroy(&srv);
    report_pools(node, "end");
    report_tls(node, "tls_end");
    coap_mem_all_destroy();
    simapp_note(node, "server_down", ret, 0, "");
    return ret;
}
/* called by the simulator on a fresh fiber of the same node: orderly shutdown while the loop is blocked */
void node_server_shutdown(void *node)
{
    coap_server_destroy(&srv);
    report_pools(node, "end");
    report_tls(node, "tls_end");
    coap_mem_all_destroy();
}

/* ---- client application ---- */
int node_client_main(void *node, const node_cfg_t *c)
{
    static coap_client_t cli;
    static cli_op_t op;
    static app_msg_t q, r;
    coap_msg_t req, resp;
    long res; int ret, kept = 0;
    coap_log_set_level(getenv("SIM_LOG") ? COAP_LOG_DEBUG : COAP_LOG_ERROR);
    ret = coap_mem_all_create(c->snum, c->slen, c->mnum, c->mlen, c->lnum, c->llen);
    if (ret < 0) { simapp_note(node, "mem_create_failed", ret, 0, ""); return ret; }
    report_pools(node, "start");
again:
#ifdef COAP_DTLS_EN
    ret = coap_client_create(&cli, c->host, c->port, c->key, c->cert, c->trust, c->crl, c->cn[0] ? c->cn : NULL);
#else
    ret = coap_client_create(&cli, c->host, c->port);
#endif
    if (ret < 0) report_tls(node, "tls_end");
    simapp_client_created(node, ret);
    for (;;) {
        memset(&op, 0, offsetof(cli_op_t, req)); op.kind = COP_END;
        simapp_client_next(node, &op);
        if (op.kind == COP_END) break;
        if (op.kind == COP_SLEEP) { sim_sleep_ns(op.sleep_ns); continue; }
        if (op.kind == COP_RECREATE) { if (kept) { coap_msg_destroy(&req); kept = 0; } if (ret >= 0) coap_client_destroy(&cli); report_pools(node, "idle"); goto again; }
        if (ret < 0) { simapp_client_result(node, &op, -100000, NULL, NULL); continue; }
        if (kept && !op.reuse) { coap_msg_destroy(&req); kept = 0; }
        coap_msg_create(&resp); res = 0;
        if (!kept) { coap_msg_create(&req); res = from_app(&op.req, &req, 1); }
        if (res < 0) { simapp_note(node, "compose_failed", res, op.id, ""); res = -200000 + res; }
        else if (op.kind == COP_EXCHANGE) res = coap_client_exchange(&cli, &req, &resp);
        else if (op.have_resp && (res = coap_client_exchange(&cli, &req, &resp)) < 0) ;   /* a plain exchange first, the rest block-wise */
        else res = coap_client_exchange_blockwise(&cli, &req, &resp, op.block1, op.block2, (char *)op.body, op.body_len, op.have_resp);
        to_app(&req, &q); to_app(&resp, &r);
        coap_msg_destroy(&resp); kept = op.keep && res > -100000;
        if (!kept) coap_msg_destroy(&req);
        if (!kept) report_pools(node, "idle");
        simapp_client_result(node, &op, res, &q, &r);
    }
    if (kept) coap_msg_destroy(&req);
    if (ret >= 0) coap_client_destroy(&cli);
    report_pools(node, "end");
    report_tls(node, "tls_end");
    coap_mem_all_destroy();
    simapp_note(node, "client_down", 0, 0, "");
    return 0;
}
