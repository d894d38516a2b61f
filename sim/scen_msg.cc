// M01: messages of any shape, both directions, against the independent codec.
#include "world.h"
#include "scen.h"
#include <errno.h>
#include <string.h>
#include <stdarg.h>
namespace sim {
static Bytes rb(Rng &r, size_t n) { Bytes b; for (size_t i = 0; i < n; i++) b.push_back((char)r.next()); return b; }
static std::string fmt(const char *f, ...) { char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static int r_pick_cls(Rng &r) { return r.chance(0.7) ? 2 : r.chance(0.5) ? 4 : 5; }
static unsigned opnum(Rng &r) {
    static const unsigned known[] = {1, 3, 4, 5, 7, 8, 12, 14, 15, 17, 20, 28, 35, 39, 60}; static const unsigned edge[] = {2, 10, 12, 14, 24, 26, 254, 256, 258, 266, 268, 270, 280, 282, 524, 536, 538, 540, 1024, 4096, 32766, 32768, 65000, 65266, 65268, 65532, 65534, 0};
    switch (r.below(4)) { case 0: return known[r.below(sizeof known / sizeof *known)]; case 1: return edge[r.below(sizeof edge / sizeof *edge)]; case 2: return 2 * (unsigned)r.below(150); default: return 2 * (unsigned)r.below(32768); }
}
static size_t oplen(Rng &r) { static const unsigned e[] = {0, 1, 2, 11, 12, 13, 14, 15, 254, 255, 256, 257, 267, 268, 269, 270, 271, 524, 525, 526, 800, 1000, 1100}; return r.chance(0.5) ? r.below(20) : e[r.below(sizeof e / sizeof *e)]; }
// a message whose encoded size lies near `target`, options in any order of addition
static bool g_many;
static void shape(Rng &r, Msg &m, size_t tok) {
    int style = (int)r.below(5); size_t target = r.chance(0.35) ? r.range(1130, 1175) : r.range(20, 1152); Msg z = m; z.token = Bytes(tok, 't');
    auto size = [&](const Msg &x) { return ref::build(x).size(); }; int maxops = style == 0 ? 1 : style == 1 ? (g_many ? 90 : 30) : (int)r.range(0, 12); unsigned base = opnum(r); size_t lmax = style == 1 ? r.below(4) : 1200;
    std::vector<ref::Opt> add; for (int i = 0; i < maxops; i++) { ref::Opt o{r.chance(0.3) && !add.empty() ? add.back().num : style == 1 && r.chance(0.7) ? base : opnum(r), Bytes()}; o.val = rb(r, std::min<size_t>(oplen(r), lmax)); Msg t = z; t.ops.push_back(o); if (size(t) > target) continue; z.ops.push_back(o); add.push_back(o); }
    for (auto &o : add) { size_t at = r.below(m.ops.size() + 1); if (o.num == 11) at = m.ops.size(); m.ops.insert(m.ops.begin() + (r.chance(0.5) ? m.ops.size() : at), o); }
    size_t have = size(z); if (r.chance(0.85) && have + 2 < target) { size_t n = r.chance(0.6) ? target - have - 1 : r.range(1, target - have); n = std::min<size_t>(n, 1152); m.payload = rb(r, n); if (r.chance(0.2)) m.payload.assign(n, (char)(r.chance(0.5) ? 0xff : 0)); }
}
void p_M01(World &w) {
    Rng &r = w.rp; w.img = r.chance(0.2) ? "plain6" : "plain4"; Swarm::net(S->pf, r, r.chance(0.6) ? 0 : 1); if (r.chance(0.6)) S->pf.drop = std::min(S->pf.drop, 0.1); S->pf.sched = 0; World *W = &w; uint64_t sd = r.next(); int mode = (int)r.below(10); g_many = r.chance(0.15);
    if (mode < 8) { // a real server
        std::vector<std::string> seps; if (r.chance(0.3)) seps.push_back("/m"); Node *sv = w.add_server(IP(10, 0, 0, 1), 5683, seps); w.cfg[sv->id].snum = w.cfg[sv->id].mnum = g_many ? 1280 : 448; w.start_server(sv);
        w.routes["m"] = [W, sd](Node *, const Msg &, Addr, app_act_t *act) { Rng rr(sd, 0x31, W->inv.size()); Msg m; m.cls = r_pick_cls(rr); m.det = (int)rr.range(0, 31); shape(rr, m, 8); act->mode = 0; ref_to_app(m, &act->resp); W->stat["big_msgs"]++; };
    }
    bool rawsrv = mode >= 8; auto lastreq = std::make_shared<Msg>();
    if (rawsrv) { RawPeer *sp = w.add_raw(IP(10, 0, 0, 1), 5683); w.saddr = sp->a; auto seen = std::make_shared<std::map<Bytes, Bytes>>();
        sp->on = [W, sd, seen](RawPeer &me, Addr from, const Bytes &d) { Msg q; if (ref::parse(d, q) != ref::OK || !q.request()) return; Bytes &b = (*seen)[d]; if (b.empty()) { Rng rr(sd, 0x32, seen->size()); Msg m; m.cls = r_pick_cls(rr); m.det = (int)rr.range(0, 31); m.token = q.token; shape(rr, m, 4); m.type = q.type == ref::CON ? (rr.chance(0.7) ? ref::ACK : ref::CON) : ref::NON; m.mid = m.type == ref::ACK ? q.mid : (q.mid + 7) & 0xffff; b = ref::build(m); if (b.size() > 1152) { m.payload.clear(); b = ref::build(m); } if (b.size() > 1152) { m.ops.clear(); b = ref::build(m); } W->stat["big_msgs"]++; } W->raw_send(&me, from, b); }; }
    if (mode < 5 || rawsrv) { // real clients
        int nc = (int)r.range(1, 2);
        for (int i = 0; i < nc; i++) { Node *c = w.add_client(IP(10, 0, 1, i + 1), w.saddr); w.cfg[c->id].snum = w.cfg[c->id].mnum = g_many ? 320 : 128; int no = (int)r.range(2, 8);
            for (int j = 0; j < no; j++) { Msg m; m.type = r.chance(0.7) ? ref::CON : ref::NON; m.det = (int)r.range(1, r.chance(0.1) ? 31 : 4); m.ops.push_back({11, "m"}); shape(r, m, 4); for (int k = (int)r.below(3); k > 0; k--) { Msg t = m; t.ops.push_back({11, rb(r, r.below(14))}); m = t; } w.add_op(c, w.mk_op(m)); if (r.chance(0.2)) w.add_sleep(c, r.range(0, 3 * SEC)); }
            w.start_client(c, r.range(1 * MS, SEC)); }
        w.on_result = [W](Node *n, const cli_op_t *op, long ret, const Msg &, const Msg &) {
            if (op->kind != COP_EXCHANGE) return; Msg q; app_to_ref(&op->req, q); q.token = "abcd"; size_t sz = ref::build(q).size(); bool sent = false; for (auto it = S->hist.rbegin(); it != S->hist.rend() && it->t >= W->opstart[op->id]; ++it) if (it->k == EV_SEND && it->node == n->id) { Msg m; if (ref::parse(it->data, m) != ref::OK || m.request()) sent = true; }
            if (sz > 1152) { W->stat["too_big"]++; if (sent) W->v("M01", fmt("client %s op %d: a datagram was sent for a request of %zu bytes that does not fit", n->name.c_str(), op->id, sz)); else if (ret >= 0) W->v("M01", fmt("client %s op %d: request of %zu bytes reported as done", n->name.c_str(), op->id, sz)); }
            else { W->stat["fits"]++; if (!sent) W->v("M01", fmt("client %s op %d: request of %zu bytes (%zu options, payload %zu) fits but was refused with error %ld", n->name.c_str(), op->id, sz, q.ops.size(), q.payload.size(), -ret)); } };
    }
    if (!rawsrv && mode >= 3) { // scripted clients: any token length
        int nc = (int)r.range(1, 3);
        for (int i = 0; i < nc; i++) { RawPeer *p = w.add_raw(IP(10, 0, 2, i + 1), 40000); p->on = [W](RawPeer &me, Addr from, const Bytes &d) { Msg m; if (ref::parse(d, m) == ref::OK && m.type == ref::CON) { Msg a; a.type = ref::ACK; a.mid = m.mid; W->raw_send(&me, from, ref::build(a)); } };
            unsigned mid = (unsigned)r.below(65536); ns_t t = r.range(1 * MS, SEC); int no = (int)r.range(1, 10); for (int j = 0; j < no; j++) { Msg m; m.type = r.chance(0.7) ? ref::CON : ref::NON; m.det = (int)r.range(1, 4); m.mid = ++mid & 0xffff; m.token = rb(r, r.below(9)); m.ops.push_back({11, "m"}); shape(r, m, m.token.size()); Bytes b = ref::build(m); if (b.size() > 1152) continue; RawPeer *P = p; w.plan_at(t, [W, P, b]() { W->raw_send(P, W->saddr, b); }); if (r.chance(0.2)) w.plan_at(t + 50 * MS, [W, P, b]() { W->raw_send(P, W->saddr, b); }); t += r.range(60 * MS, 2 * SEC); } }
    }
    w.ntf = [](std::map<std::string, long> &s) { return s["big_msgs"] > 0; };
}

// ---------------------------------------------------------------- M02: the pools under threads
struct PoolState {
    size_t num[3], len[3]; std::map<char *, int> held[3]; int busy[3] = {0, 0, 0};       // busy: calls of others under way that may occupy or still occupy a buffer
    struct Call { bool on = false; int pool = 0; int maxocc = 0; }; Call call[POOL_MAX_THREADS + 1];
    std::vector<std::vector<pool_op_t>> script; std::vector<size_t> pos; std::vector<std::vector<int>> own; char *base[3] = {nullptr, nullptr, nullptr}; int phase = 0; int drain = 0; size_t drained[3] = {0, 0, 0};
    int occ(int pool, int self) { int n = (int)held[pool].size() + busy[pool]; for (int i = 0; i <= POOL_MAX_THREADS; i++) if (i != self && call[i].on && call[i].pool == pool) n++; return n; }
    void bump(int pool) { for (int i = 0; i <= POOL_MAX_THREADS; i++) if (call[i].on && call[i].pool == pool) call[i].maxocc = std::max(call[i].maxocc, occ(pool, i)); }
};
void p_M02(World &w) {
    Rng &r = w.rp; World *W = &w; w.check_models = false; w.shutdown_at_end = false; auto ps = std::make_shared<PoolState>(); PoolState *P = ps.get();
    Node *n = S->add_node("process", IP(10, 0, 0, 1), take_image("pool")); n->mt = true; int nt = (int)r.range(1, r.chance(0.7) ? 4 : POOL_MAX_THREADS);
    static const double pre[] = {0, 0.002, 0.01, 0.03, 0.1, 0.3}; S->pf.preempt = pre[r.below(6)]; S->pf.sched = r.chance(0.5) ? 0.5 : 0.1; S->pf.base_lat = 1 * MS;
    node_cfg_t c; memset(&c, 0, sizeof c); for (int k = 0; k < 3; k++) { P->num[k] = 8 * (size_t)(r.chance(0.6) ? 1 : r.range(1, 5)); P->len[k] = (size_t)(r.chance(0.3) ? r.range(1, 4) : r.range(1, 100)); if (r.chance(0.002)) { P->num[k] = 8 * (size_t)r.range(6, 320); P->len[k] = (size_t)r.range(1, 40); W->stat["big_pool"]++; } }
    c.snum = P->num[0]; c.slen = P->len[0]; c.mnum = P->num[1]; c.mlen = P->len[1]; c.lnum = P->num[2]; c.llen = P->len[2]; c.index = nt; if (r.chance(0.05)) { c.num_sep = (unsigned)r.range(1, 4); for (unsigned i = 0; i < c.num_sep; i++) c.sep[0][i] = (char)r.next(); } if (r.chance(0.05)) S->pf.malloc_fail = 0.1 + 0.2 * r.below(3); w.cfg[n->id] = c;
    int only = r.chance(0.6) ? (int)r.below(3) : -1; int nops = (int)r.range(5, r.chance(0.3) ? 150 : 50); double pfree = 0.2 + 0.6 * r.below(100) / 100.0; int maxslots = (int)r.range(1, 24); P->script.resize(nt); P->pos.assign(nt + 1, 0);
    for (int t = 0; t < nt; t++) { std::set<int> have; for (int i = 0; i < nops; i++) { pool_op_t o; memset(&o, 0, sizeof o); if (r.chance(0.02)) { o.kind = POOL_SLEEP; o.sleep_ns = r.range(1, 100) * US; }
            else { o.slot = (int)r.below(maxslots); bool h = have.count(o.slot); o.kind = (h || r.chance(pfree)) && !have.empty() ? POOL_FREE : POOL_ALLOC; if (o.kind == POOL_FREE) { auto it = have.begin(); std::advance(it, r.below(have.size())); o.slot = *it; have.erase(it); } else have.insert(o.slot); }
            o.pool = only >= 0 && r.chance(0.9) ? only : (int)r.below(3); size_t L = P->len[o.pool]; o.len = r.chance(0.05) ? L + 1 + r.below(50) : r.chance(0.3) ? L : r.below(L + 1); o.pat = (unsigned char)r.next();
            if (S->ch.choose_at(K_OPSKIP, w.plan_idx++, [](Rng &) -> int64_t { return 0; })) continue; P->script[t].push_back(o); }
        for (int sl = 0; sl < 64; sl++) { pool_op_t o; memset(&o, 0, sizeof o); o.kind = POOL_FREE; o.slot = sl; P->script[t].push_back(o); } }
    w.pool_next_fn = [ps, P, W](int th, pool_op_t *o) {
        if (P->phase == 0) { if (th < (int)P->script.size() && P->pos[th] < P->script[th].size()) *o = P->script[th][P->pos[th]++]; else o->kind = POOL_END; return; }
        // drain: allocate until each pool refuses (slots are reused per pool: at most 40 + 1), then release
        int pool = P->drain / 10000, st = P->drain % 10000; if (pool > 2) { o->kind = POOL_END; return; }
        int full = (int)P->num[pool] + 8; if (st < full) { o->kind = POOL_ALLOC; o->pool = pool; o->slot = st; o->len = P->len[pool]; o->pat = (unsigned char)(st * 7 + pool); P->drain++; return; }
        if (st < 2 * full) { o->kind = POOL_FREE; o->slot = st - full; P->drain++; return; }
        P->drain = (pool + 1) * 10000; o->kind = POOL_SLEEP; o->sleep_ns = 1; };
    w.pool_ev_fn = [ps, P, W](int what, int th, int pool, size_t len, void *p, void *base) {
        if (what == 0) { P->call[th].on = true; P->call[th].pool = pool; P->call[th].maxocc = P->occ(pool, th); P->bump(pool); W->stat["allocs"]++; }
        else if (what == 1) {
            P->call[th].on = false; S->log(EV_APP, 0, -1, Addr(), Addr(), "", "got", th * 10 + pool, p ? (char *)p - (char *)base : -1); static const char *nm[] = {"small", "medium", "large"};
            if (!p) { W->stat["refused"]++; if (len <= P->len[pool] && P->call[th].maxocc < (int)P->num[pool]) { W->v("M02", fmt("thread %d: a request of %zu bytes to the %s pool (%zu buffers of %zu) was refused although at most %d were in use", th, len, nm[pool], P->num[pool], P->len[pool], P->call[th].maxocc)); } return; }
            char *q = (char *)p, *b = (char *)base; if (len > P->len[pool]) { W->v("M02", fmt("thread %d: a request of %zu bytes was granted by the %s pool of %zu-byte buffers", th, len, nm[pool], P->len[pool])); return; }
            if (q < b || q >= b + P->num[pool] * P->len[pool] || (q - b) % (long)P->len[pool]) { W->v("M02", fmt("thread %d: the %s pool handed out an address outside its buffers", th, nm[pool])); return; }
            if (P->held[pool].count(q)) { W->v("M02", fmt("threads %d and %d hold the same buffer of the %s pool", P->held[pool][q], th, nm[pool])); return; }
            P->held[pool][q] = th; if (P->phase == 1) P->drained[pool]++; W->stat["max_held"] = std::max<long>(W->stat["max_held"], P->held[pool].size()); P->bump(pool); }
        else if (what == 2) { P->held[pool].erase((char *)p); P->busy[pool]++; P->bump(pool); S->log(EV_APP, 0, -1, Addr(), Addr(), "", "put", th * 10 + pool); }
        else if (what == 3) { P->busy[pool]--; }
        else if (what == 4) { if (th == 1) { P->phase = 1; S->pf.preempt = 0; } else { W->stat["drained"]++; for (int k = 0; k < 3; k++) if (P->drained[k] != P->num[k]) W->v("M02", fmt("with every buffer released pool %d hands out %zu of its %zu buffers", k, P->drained[k], P->num[k])); } } };
    w.on_note = [W, P](Node *n, const char *k, long ret, long, const char *) {
        if (!strcmp(k, "pool_bad_config")) { W->stat["bad_config"]++; if (ret >= 0) W->v("M02", "the pools were created with a configuration they cannot have (a number of buffers that is no multiple of 8, or buffers without length)"); else if (!n->heap.empty()) W->v("M02", "a refused configuration left memory allocated"); }
        else if (!strcmp(k, "pool_created")) { if (ret >= 0) { S->pf.malloc_fail = 0; return; } W->stat["create_failed"]++; if (!S->cnt["malloc_fail"]) W->v("M02", fmt("the pools could not be created: error %ld", -ret)); else if (!n->heap.empty()) W->v("M02", "a failed creation of the pools left memory allocated"); }
        else if (!strcmp(k, "pool_down") && !n->heap.empty()) W->v("M02", "memory is left allocated after the pools were destroyed"); };
    typedef int (*fn_t)(void *, const node_cfg_t *); auto f = (fn_t)n->img->sym("node_pool_main"); S->spawn(n, n->name, [W, n, f]() { f(n, &W->cfg[n->id]); }, 768 * 1024);
    w.finals.push_back([W]() { if (!W->stat["drained"] && W->stat["create_failed"] < 20) W->v("M02", "the threads did not finish: a pool call never returned"); });
    w.ntf = [](std::map<std::string, long> &s) { return s["allocs"] > 10; };
}
}
