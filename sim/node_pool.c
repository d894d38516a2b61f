/* Node glue for M02: threads of one process sharing the three buffer pools.
 * Which call each thread makes next is decided by the simulator. */
#include <stdio.h>
#include <string.h>
#include <pthread.h>
#include "coap_mem.h"
#include "simapi.h"

int node_image_anchor = 1;
#define SLOTS 64
#define DRAIN_SLOTS 4096
static void *node_h;
typedef struct { unsigned char *p; size_t len; int pool; unsigned char pat; } slot_t;
static slot_t slots[POOL_MAX_THREADS][SLOTS], drain_slots[DRAIN_SLOTS];

static void *do_alloc(int pool, size_t len) { return pool == 0 ? coap_mem_small_alloc(len) : pool == 1 ? coap_mem_medium_alloc(len) : coap_mem_large_alloc(len); }
static void do_free(int pool, void *p) { if (pool == 0) coap_mem_small_free(p); else if (pool == 1) coap_mem_medium_free(p); else coap_mem_large_free(p); }
static char *pool_buf(int pool) { return pool == 0 ? coap_mem_small_get_buf() : pool == 1 ? coap_mem_medium_get_buf() : coap_mem_large_get_buf(); }

static void one(int th, const pool_op_t *op)
{
    slot_t *s = th == POOL_MAX_THREADS ? &drain_slots[op->slot % DRAIN_SLOTS] : &slots[th][op->slot % SLOTS];
    if (op->kind == POOL_ALLOC) {
        void *p;
        if (s->p) return;
        simapp_pool_begin(node_h, th, op->pool, op->len);
        p = do_alloc(op->pool, op->len);
        simapp_pool_got(node_h, th, op->pool, op->len, p, pool_buf(op->pool));
        if (p == NULL) return;
        s->p = p; s->len = op->len; s->pool = op->pool; s->pat = op->pat;
        memset(s->p, s->pat, s->len);
    } else if (op->kind == POOL_FREE) {
        size_t i;
        if (!s->p) return;
        for (i = 0; i < s->len; i++) if (s->p[i] != s->pat) { simapp_violate(node_h, "M02: the contents of a held buffer changed: another holder wrote to it"); break; }
        simapp_pool_put(node_h, th, s->pool, s->p);
        do_free(s->pool, s->p);
        simapp_pool_freed(node_h, th, s->pool);
        s->p = NULL;
    }
}
static void *worker(void *a)
{
    int th = (int)(long)a; pool_op_t op;
    for (;;) {
        memset(&op, 0, sizeof op);
        simapp_pool_next(node_h, th, &op);
        if (op.kind == POOL_END) break;
        if (op.kind == POOL_SLEEP) { sim_sleep_ns(op.sleep_ns); continue; }
        one(th, &op);
    }
    return NULL;
}
int node_pool_main(void *node, const node_cfg_t *c)
{
    pthread_t t[POOL_MAX_THREADS]; int i, n = c->index, ret;
    node_h = node;
    /* num_sep: how often to try a configuration the pools cannot have; sep[0]: which */
    for (i = 0; i < (int)c->num_sep; i++) {
        unsigned w = (unsigned char)c->sep[0][i], v[6] = {c->snum, c->slen, c->mnum, c->mlen, c->lnum, c->llen};
        if (w & 8) v[2 * (w % 3)] += 1 + (w >> 4) % 7; else v[2 * (w % 3) + 1] = 0;
        ret = coap_mem_all_create(v[0], v[1], v[2], v[3], v[4], v[5]);
        simapp_note(node, "pool_bad_config", ret, 0, "");
        if (ret >= 0) coap_mem_all_destroy();
    }
    for (i = 0; i < 20; i++) {
        ret = coap_mem_all_create(c->snum, c->slen, c->mnum, c->mlen, c->lnum, c->llen);
        simapp_note(node, "pool_created", ret, i, "");
        if (ret >= 0) break;
    }
    if (ret < 0) return ret;
    for (i = 1; i < n; i++) if (pthread_create(&t[i], NULL, worker, (void *)(long)i)) return -1;
    worker((void *)0L);
    for (i = 1; i < n; i++) pthread_join(t[i], NULL);
    simapp_pool_phase(node, 1);           /* everything was released: one thread drains every pool */
    worker((void *)(long)POOL_MAX_THREADS);
    simapp_pool_phase(node, 2);
    coap_mem_all_destroy();
    simapp_note(node, "pool_down", 0, 0, "");
    return 0;
}
