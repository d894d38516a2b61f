// Block-wise transfers: real client and server (B01, B02, B04), scripted client (B03), scripted server (B05).
#include "world.h"
#include "scen.h"
#include <errno.h>
#include <stdarg.h>
namespace sim {
static Bytes rb(Rng &r, size_t n) { Bytes b; for (size_t i = 0; i < n; i++) b.push_back((char)r.next()); return b; }
static std::string fmt(const char *f, ...) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static const unsigned SZ[] = {16, 32, 64, 128, 256, 512, 1024};
static unsigned szx_of(unsigned size) { unsigned x = 0; while ((16u << x) < size) x++; return x; }
typedef std::vector<unsigned char> Buf;
static size_t body_len(Rng &r, unsigned b, size_t max) { // lengths around multiples of the block size
    size_t n; switch (r.below(6)) { case 0: n = r.range(1, 40); break; case 1: n = b * r.range(1, 6); break; case 2: n = b * r.range(1, 6) + (r.chance(0.5) ? 1 : -1); break; case 3: n = r.range(1, 700); break; case 4: n = 16 * r.range(1, 20); break; default: n = r.chance(0.3) ? r.range(1, max) : r.range(1, 2000); }
    return std::max<size_t>(1, std::min(n, max));
}
static Bytes tagged(Rng &r, size_t n, int id) { Bytes b = rb(r, n); char t[16]; snprintf(t, sizeof t, "<%06d>", id); for (size_t i = 0; i < 8 && i < n; i++) b[i] = t[i]; return b; }

// what one client transfer may do on the wire, and what came of it
struct Xfer {
    int op = 0; int method = 0; Bytes body; unsigned b1 = 0, b2 = 0; size_t buf = 0; bool have_resp = false; ns_t t0 = 0;
    unsigned mid = 70000; Bytes token; size_t up_off = 0, up_pend = 0; unsigned up_size = 0; bool up_done = false; size_t down_off = 0; unsigned down_size = 0; int nreq = 0; bool down = false; unsigned min_size = 1024;
    std::vector<Bytes> rx, given; std::vector<int> codes; std::vector<Bytes> served; bool rx_err = false, bad_rx = false; bool big_resp = false; int handler_calls = 0; bool srv_abort = false; size_t max_down = 0;
};
struct BW {
    World *w; std::map<uint32_t, std::shared_ptr<Xfer>> cur; std::map<uint32_t, std::vector<Bytes>> bodies; unsigned s1, s2; bool lossfree, losson; std::map<uint32_t, bool> dirty; std::map<int, std::shared_ptr<Buf>> bufs; bool strict_wire = true; std::map<unsigned, std::pair<uint32_t, Msg>> last;
    double p_resp = 0.5, p_rxerr = 0; uint64_t sd = 0; unsigned srv_body_max = 8192; std::map<uint32_t, std::map<unsigned, Msg>> reqs; size_t get_max = 3000; bool stable = true;
};
static void wire_check(std::shared_ptr<BW> b, Ev &e) {
    World *w = b->w; if (e.k != EV_SEND && e.k != EV_RECV) return; Msg m; if (ref::parse(e.data, m) != ref::OK) return;
    if (e.k == EV_RECV) { // the client takes note of an accepted block
        if (e.node == w->servers[0]->id) return; auto it = b->cur.find(e.to.ip); if (it == b->cur.end() || m.cls != 2 || m.token != it->second->token) return; Xfer &x = *it->second; ref::Block k;
        if (x.up_pend && ref::get_block(m, 27, k)) { x.up_off += x.up_pend; x.up_pend = 0; x.up_size = x.up_size ? std::min(x.up_size, k.size()) : k.size(); }
        if (ref::get_block(m, 23, k) && (size_t)k.num * k.size() == x.down_off) { x.down_off += m.payload.size(); x.down_size = x.down_size ? std::min(x.down_size, k.size()) : k.size(); }
        return; }
    bool from_srv = e.node == w->servers[0]->id; uint32_t cip = from_srv ? e.to.ip : e.from.ip; auto it = b->cur.find(cip); if (it == b->cur.end()) return; Xfer &x = *it->second; ref::Block k1, k2; bool h1 = ref::get_block(m, 27, k1), h2 = ref::get_block(m, 23, k2);
    if (m.find(27) && !h1) { w->v("B04", "malformed Block1 option sent"); return; } if (m.find(23) && !h2) { w->v("B04", "malformed Block2 option sent"); return; }
    if (m.count(27) > 1 || m.count(23) > 1) { w->v("B04", "a block option was sent twice in one message"); return; }
    std::string who = fmt("op %d (method %d, body %zu, sizes %u/%u, server %u/%u): ", x.op, x.method, x.body.size(), x.b1, x.b2, b->s1, b->s2);
    if (!from_srv) {
        if (!m.request() || m.mid == x.mid) return; // acknowledgement, reset or retransmission
        x.mid = m.mid; x.token = m.token; x.nreq++; b->reqs[cip][m.mid] = m;
        if (x.method != 1 && !x.up_done) {
            if (!h1) { w->v("B04", who + "upload request without a Block1 option"); return; }
            size_t off = (size_t)k1.num * k1.size(), want = std::min<size_t>(k1.size(), x.body.size() - std::min(off, x.body.size()));
            if (off != x.up_off) { w->v("B04,B01", who + fmt("block %u of size %u addresses byte %zu, but %zu bytes have been transferred", k1.num, k1.size(), off, x.up_off)); return; }
            if (k1.size() > x.b1 || (x.up_size && k1.size() > x.up_size)) { w->v("B04", who + fmt("announced block size %u exceeds the agreed one", k1.size())); return; }
            if (m.payload.size() != want) { w->v("B04,B01", who + fmt("block %u of size %u carries %zu bytes instead of %zu", k1.num, k1.size(), m.payload.size(), want)); return; }
            if (m.payload != x.body.substr(off, want)) { w->v("B04,B01", who + fmt("block %u carries other bytes than the body's", k1.num)); return; }
            bool more = off + want < x.body.size(); if (k1.more != (unsigned)more) { w->v("B04,B01", who + fmt("block %u at byte %zu of %zu has the wrong more flag", k1.num, off, x.body.size())); return; }
            if (h2 && (k2.num != 0 || k2.size() > x.b2)) { w->v("B04", who + "wrong Block2 option in an upload request"); return; }
            x.min_size = std::min(x.min_size, k1.size()); x.up_pend = want; if (!more) x.up_done = true;
        } else {
            if (!h2) { if (x.have_resp && x.nreq == 1) { x.down = true; return; } w->v("B04", who + "download request without a Block2 option"); return; }
            size_t off = (size_t)k2.num * k2.size();
            if (off != x.down_off) { w->v("B04,B02", who + fmt("requested block %u of size %u (byte %zu), but %zu bytes have been received", k2.num, k2.size(), off, x.down_off)); return; }
            if (k2.size() > x.b2 || (x.down_size && k2.size() > x.down_size)) { w->v("B04", who + fmt("requested block size %u exceeds the agreed one", k2.size())); return; }
            x.min_size = std::min(x.min_size, k2.size()); x.down = true;
        }
        size_t tot = x.body.size() + x.max_down, lim = (x.method == 1 ? 0 : x.body.size() / x.min_size + 2) + x.max_down / x.min_size + 3; (void)tot;
        if ((size_t)x.nreq > lim) { w->v("B04", who + fmt("%d requests for a transfer of at most %zu blocks", x.nreq, lim)); return; }
        return;
    }
    // server -> client: a response to the request this client has outstanding
    if (!m.response() || m.cls != 2) return;
    auto rq = b->reqs[cip]; const Msg *q = nullptr; for (auto &p : rq) if (p.second.token == m.token) q = &b->reqs[cip][p.first]; if (!q) return;
    ref::Block q1, q2; bool g1 = ref::get_block(*q, 27, q1), g2 = ref::get_block(*q, 23, q2);
    if (g1) {
        if (!h1) { w->v("B04", who + "a block was accepted without a Block1 option in the response"); return; }
        if ((size_t)k1.num * k1.size() != (size_t)q1.num * q1.size()) { w->v("B04,B01", who + fmt("block %u/%u acknowledged as %u/%u", q1.num, q1.size(), k1.num, k1.size())); return; }
        if (k1.size() > q1.size() || k1.size() > b->s1) { w->v("B04", who + fmt("server announced block size %u, client uses %u, server asked for at most %u", k1.size(), q1.size(), b->s1)); return; }
    }
    if (h2) {
        if (m.payload.size() > k2.size()) { w->v("B04", who + fmt("response block of size %u carries %zu bytes", k2.size(), m.payload.size())); return; }
        if (k2.more && m.payload.size() != k2.size()) { w->v("B04,B02", who + fmt("response block %u, not the last, carries %zu of %u bytes", k2.num, m.payload.size(), k2.size())); return; }
        if (g2 && (size_t)k2.num * k2.size() != (size_t)q2.num * q2.size()) { w->v("B04,B02", who + fmt("block %u/%u answered with block %u/%u", q2.num, q2.size(), k2.num, k2.size())); return; }
        if ((g2 && k2.size() > q2.size()) || k2.size() > b->s2) { w->v("B04", who + fmt("response block size %u exceeds what was asked for (client %u, server %u)", k2.size(), g2 ? q2.size() : 1024, b->s2)); return; }
        bool ok = false; size_t off = (size_t)k2.num * k2.size(); auto &src = x.method == 1 ? x.served : x.given; for (auto &s : src) if (off <= s.size() && m.payload == s.substr(off, m.payload.size()) && (k2.more ? off + m.payload.size() <= s.size() : off + m.payload.size() == s.size())) ok = true;
        if (!ok && !src.empty() && b->strict_wire) { w->v("B04,B02", who + fmt("response block %u/%u does not hold the bytes of the application's body at that place", k2.num, k2.size())); return; }
    }
}
static void f_block(World &w, int mode) {
    Rng &r = w.rp; w.img = r.chance(0.15) ? "plain6" : "plain4"; auto b = std::make_shared<BW>(); b->w = &w; World *W = &w; b->sd = r.next();
    int lvl = mode == 4 ? (r.chance(0.6) ? 0 : 1) : (int)r.range(0, 2); Swarm::net(S->pf, r, lvl); if (r.chance(0.5)) S->pf.drop = std::min(S->pf.drop, 0.15); if (r.chance(0.3)) S->pf.dup = S->pf.delay = 0;
    S->pf.delay_max = std::min(S->pf.delay_max, 15 * SEC); S->pf.sched = 0; if (r.chance(0.2)) stalls(r);
    b->lossfree = S->pf.drop == 0 && S->pf.dup == 0 && S->pf.delay == 0 && S->pf.stall == 0; b->losson = S->pf.dup == 0 && S->pf.delay == 0; b->stable = b->losson ? r.chance(0.3) : true; b->strict_wire = true;
    b->s1 = SZ[r.below(7)]; b->s2 = SZ[r.below(7)]; b->p_resp = r.chance(0.3) ? 0 : r.chance(0.3) ? 1 : 0.5; b->p_rxerr = r.chance(0.8) ? 0 : 0.2; bool bigresp = r.chance(0.1); bool loss_sep = r.chance(0.3);
    std::vector<std::string> seps; if (loss_sep) seps.push_back("/b/1");
    Node *sv = w.add_server(IP(10, 0, 0, 1), 5683, seps); unsigned llen = r.chance(0.7) ? 8192 : 1024 * (unsigned)r.range(1, 8); w.cfg[sv->id].llen = llen; b->srv_body_max = llen; w.start_server(sv);
    w.routes["b"] = [W, b](Node *, const Msg &m, Addr a, app_act_t *act) {
        auto it = b->cur.find(a.ip); int k = b->stable && it != b->cur.end() ? 500000 + it->second->op : (int)W->inv.size(); Rng rr(b->sd, 0xb1, k); // a stable resource does not change while it is being transferred
        act->mode = 1; act->block1 = b->s1; act->block2 = b->s2; act->with_rx = 1; act->body = nullptr; act->body_len = 0;
        static unsigned char scratch[8192]; act->body = scratch; act->body_len = 64;
        if (m.det == 1) { size_t n = rr.chance(0.05) ? 0 : body_len(rr, b->s2, std::min<size_t>(b->get_max, b->srv_body_max)); auto k2 = std::make_shared<Bytes>(tagged(rr, n, k)); W->keep.push_back(k2); act->body = (unsigned char *)k2->data(); act->body_len = n; if (it != b->cur.end()) { it->second->served.push_back(*k2); it->second->max_down = std::max(it->second->max_down, n); } }
        if (it != b->cur.end()) it->second->handler_calls++;
    };
    w.rx_fn = [W, b, bigresp](Node *, const Msg &q, Addr a, unsigned char *body, size_t len, size_t *end, app_act_t *act) {
        Bytes got((char *)body, *end); auto it = b->cur.find(a.ip); int rk = (int)W->stat["rx_calls"]++; if (b->stable && it != b->cur.end()) rk = 500000 + it->second->op; Rng rr(b->sd, 0xb2, rk);
        bool mine = false; for (auto &s : b->bodies[a.ip]) if (s == got) mine = true;
        if (!mine) { W->v("B01,B03", fmt("the server application was handed a body of %zu bytes that client %s never sent", got.size(), a.str().c_str())); }
        if (it != b->cur.end()) { Xfer &x = *it->second; if (got == x.body) { x.rx.push_back(got); } else if (b->losson && b->lossfree) W->v("B01", fmt("op %d: the server application was handed another transfer's body", x.op));
            if (q.det != x.method && b->lossfree) W->v("B01", "upload handed over with another method"); }
        act->mode = 0; act->resp.code_class = 2; act->resp.code_detail = rr.chance(0.5) ? 1 : 4;
        if (rr.chance(b->p_rxerr)) { if (rr.chance(0.3)) { act->mode = 2; act->err = -EIO; } else { act->resp.code_class = 5; act->resp.code_detail = 0; } if (it != b->cur.end()) it->second->rx_err = true; *end = 0; return; }
        if (rr.chance(b->p_resp)) { size_t cap = bigresp ? len : std::min<size_t>(len, got.size()); size_t n = body_len(rr, b->s2, cap); if (n > cap) n = cap; Bytes g = tagged(rr, n, 900000 + rk % 100000); memcpy(body, g.data(), n); *end = n; if (it != b->cur.end()) { it->second->given.push_back(g); it->second->codes.push_back((int)act->resp.code_detail); it->second->max_down = std::max(it->second->max_down, n); if (n > it->second->buf) it->second->big_resp = true; } }
        else { *end = 0; if (it != b->cur.end()) { it->second->given.push_back(""); it->second->codes.push_back((int)act->resp.code_detail); } }
    };
    int nc = (int)r.range(1, mode == 4 ? 2 : 3); ns_t gap = S->pf.delay_max + 2 * SEC; bool conf = r.chance(0.85);
    for (int i = 0; i < nc; i++) {
        uint32_t ip = IP(10, 0, 1, i + 1); Node *c = w.add_client(ip, w.saddr); int no = (int)r.range(1, 4);
        for (int j = 0; j < no; j++) {
            Msg m; m.type = conf || r.chance(0.5) ? ref::CON : ref::NON; m.det = (int)r.range(1, 3); m.add(11, "b"); m.add(11, std::to_string(r.below(2))); if (r.chance(0.2)) m.add(15, rb(r, r.below(30))); if (r.chance(0.2)) m.add(12, rb(r, 1));
            cli_op_t o = w.mk_op(m, COP_BLOCKWISE); o.block1 = SZ[r.below(7)]; o.block2 = SZ[r.below(7)]; if (m.det == 1 && r.chance(0.2)) { o.have_resp = 1; o.block2 = 1024; }
            size_t n = m.det == 1 ? (r.chance(0.1) ? r.range(1, 200) : 3000) : body_len(r, r.chance(0.5) ? o.block1 : b->s1, r.chance(0.1) ? b->srv_body_max + 200 : std::min<unsigned>(b->srv_body_max, 5000));
            auto buf = std::make_shared<Buf>(n); Bytes t = tagged(r, n, o.id); if (m.det == 1) t.assign(n, (char)0xee); memcpy(buf->data(), t.data(), n); b->bufs[o.id] = buf; o.body = buf->data(); o.body_len = n; w.add_op(c, o); w.add_sleep(c, gap);
        }
        w.start_client(c, r.range(1 * MS, 3 * SEC));
    }
    auto prev = S->on_ev; S->on_ev = [prev, b](Ev &e) { prev(e); Ev c = e; wire_check(b, c); };
    // operations are announced to the checker when the client fetches them
    w.on_opstart = [W, b](Node *n, cli_op_t *op) {
        if (op->kind != COP_BLOCKWISE) return; auto x = std::make_shared<Xfer>(); x->op = op->id; x->method = op->req.code_detail; x->b1 = op->block1; x->b2 = op->block2; x->buf = op->body_len; x->have_resp = op->have_resp; x->t0 = S->now; if (x->method != 1) { x->body.assign((char *)op->body, op->body_len); b->bodies[n->ip].push_back(x->body); }
        b->cur[n->ip] = x; b->reqs[n->ip].clear(); };
    w.on_result = [W, b](Node *n, const cli_op_t *op, long ret, const Msg &, const Msg &resp) {
        auto it = b->cur.find(n->ip); if (it == b->cur.end() || ret <= -100000) return; Xfer &x = *it->second; auto buf = b->bufs[op->id]; bool dirty = b->dirty[n->ip]; b->dirty[n->ip] = false;
        std::string who = fmt("client %s op %d (method %d, body %zu, sizes %u/%u, server %u/%u): ", n->name.c_str(), x.op, x.method, x.buf, x.b1, x.b2, b->s1, b->s2);
        bool ok = ret >= 0 && resp.cls == 2 && (x.method == 1 ? resp.det == 5 : resp.det == 1 || resp.det == 4); W->stat[ok ? "xfer_ok" : ret < 0 ? "xfer_err" : "xfer_errresp"]++; if (ok && x.nreq > 1) W->stat["xfer_multi_ok"]++;
        if (!ok) b->dirty[n->ip] = true;
        if (ret >= 0 && resp.cls == 2 && !ok) { W->v("B01,B02,B04", who + fmt("transfer ended with code %d.%02d and return value %ld", resp.cls, resp.det, ret)); return; }
        if ((size_t)std::max(ret, 0L) > x.buf) { W->v("B02", who + fmt("reported %ld bytes for a buffer of %zu", ret, x.buf)); return; }
        Bytes out((char *)buf->data(), x.buf);
        if (ok && x.method == 1) {
            bool found = false; for (auto &s : x.served) if (s.size() == (size_t)ret && out.compare(0, s.size(), s) == 0) found = true;
            if (!found) { W->v("B02", who + fmt("success with %ld bytes that are not a body the server application provided for this request", ret)); return; }
            for (size_t i = ret; i < x.buf; i++) if ((unsigned char)out[i] != 0xee) { W->v("B02", who + fmt("byte %zu beyond the received body was overwritten", i)); return; }
        }
        if (ok && x.method != 1) {
            if (x.rx.empty()) { W->v("B01", who + "success reported, but the server application did not receive this body"); return; }
            if (b->losson && !x.rx_err && x.rx.size() != 1) { W->v("B01", who + fmt("the server application received the body %zu times", x.rx.size())); return; }
            bool found = false, code = false; for (size_t i = 0; i < x.given.size(); i++) { const Bytes &s = x.given[i]; if (s.empty() ? ret == 0 && out == x.body : (size_t)ret == s.size() && out.compare(0, s.size(), s) == 0 && out.substr(s.size()) == x.body.substr(s.size())) { found = true; if (x.codes[i] == resp.det) code = true; } }
            if (!found) { W->v("B02", who + fmt("the response phase returned %ld bytes that are not what the server application provided", ret)); return; }
            if (!code) { W->v("B01,B02,B04", who + fmt("the upload was answered 2.%02d, which is not the code the server application gave", resp.det)); return; }
        }
        if (b->lossfree && !ok && !dirty && !x.rx_err && !x.big_resp) {
            bool small = x.method == 1 && x.max_down > x.buf; bool big = x.method != 1 && x.body.size() > b->srv_body_max; 
            if (!small && !big) { W->v("B04,B01,B02", who + fmt("transfer failed (%ld, code %d.%02d) on a loss-free network", ret, resp.cls, resp.det)); return; }
            if (big && !(ret >= 0 && resp.code() == 413)) { W->v("B03,B04,B01", who + fmt("body beyond the server's limit of %u answered %ld, %d.%02d", b->srv_body_max, ret, resp.cls, resp.det)); return; }
        }
    };
    w.ntf = [](std::map<std::string, long> &s) { return s["xfer_ok"] + s["xfer_err"] + s["xfer_errresp"] > 0; };
}

// ---------------------------------------------------------------- B03: scripted clients against the real server
struct BSt { bool active = false; int method = 0; std::string path; size_t next = 0; Bytes body; bool down = false; Bytes dbody; unsigned size1 = 1024, size2 = 1024; unsigned last_mid = 70000; bool has_last = false; };
struct B03S { World *w; std::map<Addr, BSt> st; unsigned s1, s2, maxb; uint64_t sd; Addr cur; Msg q; bool busy = false; bool dup = false; int want = 0; /* 0 any 1 accept 2 error 3 either 4 413 */ bool rx_due = false, rx_done = false; bool handler_due = false, handler_done = false, handler_may = false; Bytes rx_body; Bytes resp_body; bool resp_has = false, rx_fail = false; Msg rxresp; Bytes get_body; bool from_idle = false; bool drop_ok = false; };
static void b03_end(B03S &b) { if (!b.busy) return; b.busy = false; }
static void b03_recv(std::shared_ptr<B03S> b, Ev &e) {
    World *w = b->w; if (b->busy && !b->drop_ok && b->want != 0) { w->v("B03", fmt("no answer to block request from %s", b->cur.str().c_str())); }
    b->busy = false; Msg m; if (ref::parse(e.data, m) != ref::OK || !m.request()) return;
    BSt &t = b->st[e.from]; b->cur = e.from; b->q = m; b->dup = t.has_last && t.last_mid == m.mid; if (b->dup) return; t.has_last = true; t.last_mid = m.mid;
    b->busy = true; b->want = 0; b->rx_due = b->rx_done = false; b->handler_due = b->handler_done = b->handler_may = false; b->resp_has = false; b->rx_fail = false; b->from_idle = !t.active; b->drop_ok = false;
    ref::Block k1, k2; bool o1 = m.find(27), o2 = m.find(23); bool g1 = o1 && ref::get_block(m, 27, k1), g2 = o2 && ref::get_block(m, 23, k2); bool badopt = (o1 && !g1) || (o2 && !g2); bool multi = m.count(27) > 1 || m.count(23) > 1;
    if (m.find(9) || m.find(65001)) { b->want = 5; w->stat["critical_in_transfer"]++; return; }      // refused, the transfer stays where it is
    if (!t.active) { b->handler_due = true; t.method = m.det; t.path = m.path(); t.next = 0; t.body.clear(); t.down = m.det == 1; }
    if (m.det > 3) { b->want = t.active ? 2 : 3; t.active = false; return; }
    if (multi) { b->want = 3; }
    else if (badopt) b->want = 2;
    else if (t.active && (m.det != t.method || m.path() != t.path)) b->want = 2;
    else if (t.down) { size_t off = g2 ? (size_t)k2.num * k2.size() : 0; b->want = off != t.next ? 2 : 1; if (t.active && !g2) b->want = t.next ? 2 : 3; }
    else {
        size_t off = g1 ? (size_t)k1.num * k1.size() : 0;
        if (off != t.next) b->want = 2; else if (m.payload.empty()) b->want = 2;
        else if (t.next + m.payload.size() > b->maxb) b->want = 4;
        else { bool odd = g1 && (m.payload.size() > k1.size() || (k1.more && m.payload.size() != k1.size())); b->want = odd ? 3 : 1; }
        if (b->want == 1 || b->want == 3) b->rx_body = t.body + m.payload;
        b->rx_due = (b->want == 1) && !(g1 && k1.more);
    }
    // a block that begins a transfer afresh may be refused or may replace the unfinished one
    if (t.active && b->want == 2 && !badopt && !multi && ((m.det == 1 && (!g2 || k2.num == 0)) || (m.det != 1 && (!g1 || k1.num == 0)))) { b->handler_may = true; }
}
static void b03_send(std::shared_ptr<B03S> b, Ev &e) {
    World *w = b->w; if (!b->busy || e.to != b->cur) return; Msg m; if (ref::parse(e.data, m) != ref::OK) { w->v("B03", "malformed response"); return; }
    if (!m.response() || m.token != b->q.token) return; b->busy = false; BSt &t = b->st[e.to]; const Msg &q = b->q; ref::Block k1, k2, r1, r2; bool g1 = ref::get_block(q, 27, k1), g2 = ref::get_block(q, 23, k2); bool h1 = ref::get_block(m, 27, r1), h2 = ref::get_block(m, 23, r2);
    std::string who = fmt("client %s, method %d, block1 %s %u/%u/%u, block2 %s %u/%u, payload %zu, expecting byte %zu: ", e.to.str().c_str(), q.det, g1 ? "yes" : "no", k1.num, k1.more, k1.size(), g2 ? "yes" : "no", k2.num, k2.size(), q.payload.size(), t.next);
    if (b->want == 5) { if (m.code() != 402) w->v("S07,B03", who + fmt("block request with an unrecognised critical option answered %d.%02d instead of 4.02", m.cls, m.det)); return; }
    bool err = m.cls == 4 || m.cls == 5; if (b->handler_done && b->handler_may) { t = BSt(); t.has_last = true; t.last_mid = q.mid; return; }
    if (b->want == 2 && !err) { w->v("B03", who + fmt("a block that does not continue the transfer was answered %d.%02d", m.cls, m.det)); return; }
    if (b->want == 4 && m.code() != 413) { w->v("B03", who + fmt("a body beyond the limit of %u bytes was answered %d.%02d instead of 4.13", b->maxb, m.cls, m.det)); return; }
    if (b->want == 1 && err && !b->rx_done) { w->v("B03,B04,S04", who + fmt("the next block in sequence was refused with %d.%02d", m.cls, m.det)); return; }
    if (b->rx_due && !b->rx_done) { w->v("B03,B01", who + "complete body not handed to the application"); return; }
    if (b->want == 4 || (err && !b->rx_done)) { w->stat[b->want == 4 ? "too_large" : "refused"]++; t.active = false; t.down = false; t.next = 0; t.body.clear(); return; }
    if (b->rx_done && m.cls != 2) { if (b->rxresp.cls == 2 && !(b->resp_has && g2 && k2.num)) w->v("B03", who + fmt("application answered %d.%02d, response is %d.%02d", b->rxresp.cls, b->rxresp.det, m.cls, m.det)); t.active = false; t.down = false; t.next = 0; t.body.clear(); return; }
    w->stat["accepted"]++;
    if (!t.down) {
        if (!b->rx_done) { if (m.code() != 231) { w->v("B03", who + fmt("intermediate block answered %d.%02d instead of 2.31", m.cls, m.det)); return; } if (g1 && (!h1 || r1.num * r1.size() != t.next)) { w->v("B03,B04", who + "block acknowledged with a wrong Block1 option"); return; } t.active = true; t.body += q.payload; t.next += q.payload.size(); if (t.next > 0 && g1) t.size1 = r1.size(); return; }
        w->stat["body_done"]++; t.body.clear(); t.next = 0; t.active = false;
        if (!b->resp_has) { if (m.code() != b->rxresp.code()) w->v("B03", who + "final response does not carry the application's code"); return; }
        t.down = true; t.dbody = b->resp_body; t.active = true;
    } else if (b->from_idle) t.dbody = b->get_body;
    // a block of the response body
    if (!h2) { w->v("B03,B02,B04", who + "response block without Block2 option"); return; }
    size_t off = (size_t)r2.num * r2.size(); if (off != t.next) { w->v("B03,B02,B04", who + fmt("response block %u/%u addresses byte %zu", r2.num, r2.size(), off)); return; }
    if (off > t.dbody.size() || m.payload != t.dbody.substr(off, m.payload.size()) || m.payload.size() > r2.size() || (r2.more && m.payload.size() != r2.size()) || (!r2.more && off + m.payload.size() != t.dbody.size())) { w->v("B03,B02,B04,S04", who + fmt("response block %u/%u/%u with %zu bytes is not the right piece of this client's %zu byte body", r2.num, r2.more, r2.size(), m.payload.size(), t.dbody.size())); return; }
    t.next += m.payload.size(); t.active = r2.more; t.size2 = r2.size(); if (!r2.more) { t.down = false; t.next = 0; w->stat["download_done"]++; }
}
static void f_B03(World &w) {
    Rng &r = w.rp; w.img = r.chance(0.15) ? "plain6" : "plain4"; Swarm::net(S->pf, r, r.chance(0.7) ? 0 : 1); S->pf.sched = 0; auto b = std::make_shared<B03S>(); b->w = &w; World *W = &w; b->s1 = SZ[r.below(7)]; b->s2 = SZ[r.below(7)]; b->sd = r.next(); bool sep = r.chance(0.2);
    Node *sv = w.add_server(IP(10, 0, 0, 1), 5683, sep ? std::vector<std::string>{"/b/1"} : std::vector<std::string>{}); unsigned llen = r.chance(0.5) ? 64 * (unsigned)r.range(1, 20) : 8192; w.cfg[sv->id].llen = llen; b->maxb = llen; w.start_server(sv);
    double perr = r.chance(0.7) ? 0 : 0.2, presp = r.chance(0.4) ? 0 : 0.6;
    w.routes["b"] = [W, b](Node *, const Msg &m, Addr a, app_act_t *act) {
        if (!b->busy || b->cur != a) { if (!b->dup) W->v("B03", "application invoked without a request"); } else if (!b->handler_due && !b->handler_may) { W->v(b->want == 5 ? "S07,B03" : "B03", fmt("application invoked for a new transfer of %s while one is in progress", a.str().c_str())); } b->handler_done = true;
        Rng rr(b->sd, 1, W->inv.size()); act->mode = 1; act->block1 = b->s1; act->block2 = b->s2; act->with_rx = 1; static unsigned char sc[64]; act->body = sc; act->body_len = 1;
        if (m.det == 1) { size_t n = rr.chance(0.05) ? 0 : body_len(rr, b->s2, b->maxb); auto k = std::make_shared<Bytes>(tagged(rr, n, (int)W->inv.size())); W->keep.push_back(k); act->body = (unsigned char *)k->data(); act->body_len = n; b->get_body = *k; } };
    w.rx_fn = [W, b, perr, presp](Node *, const Msg &, Addr a, unsigned char *body, size_t len, size_t *end, app_act_t *act) {
        Bytes got((char *)body, *end); Rng rr(b->sd, 2, W->stat["rx_calls"]++); if (len != b->maxb) W->v("B03", "unexpected buffer length");
        if (!b->busy || b->cur != a || (b->want != 1 && b->want != 3) || (b->want == 1 && !b->rx_due)) W->v(b->want == 5 ? "S07,B03" : "B03,B01", fmt("a body of %zu bytes was handed to the application although the transfer of %s is not complete", got.size(), a.str().c_str()));
        else if (got != b->rx_body) W->v("B03,B01,S04", fmt("the application was handed %zu bytes that are not the blocks %s sent (%zu bytes)", got.size(), a.str().c_str(), b->rx_body.size()));
        b->rx_done = true; act->mode = 0; act->resp.code_class = 2; act->resp.code_detail = rr.chance(0.5) ? 1 : 4; b->resp_has = false;
        if (rr.chance(perr)) { act->resp.code_class = 5; act->resp.code_detail = 0; *end = 0; } else if (rr.chance(presp)) { size_t n = body_len(rr, b->s2, len); b->resp_body = tagged(rr, n, 1); memcpy(body, b->resp_body.data(), n); *end = n; b->resp_has = true; } else *end = 0;
        app_to_ref(&act->resp, b->rxresp); };
    auto prev = S->on_ev; Node *SV = sv; S->on_ev = [prev, b, SV](Ev &e) { prev(e); if (e.node != SV->id) return; Ev c = e; if (e.k == EV_RECV) b03_recv(b, c); else if (e.k == EV_SEND) b03_send(b, c); };
    // scripted clients follow the protocol, deviating now and then; each waits for the answer before it goes on
    int nc = (int)r.range(1, 4);
    for (int i = 0; i < nc; i++) {
        RawPeer *p = i && r.chance(0.4) ? w.add_raw(w.raws[i - 1]->a.ip, w.raws[i - 1]->a.port + 1) : w.add_raw(IP(10, 0, 2, i + 1), 41000); struct C { int steps = 0; int method = 2; std::string path; unsigned sz = 64, sz2 = 64; size_t off = 0; Bytes body; bool idle = true; unsigned mid; Bytes tok; Bytes lastreq; Rng r{0}; double dev; bool down = false; int left; int sent = 0; ns_t t_sent = 0; };
        auto c = std::make_shared<C>(); c->r = Rng(w.seed, 0xb03, i); c->mid = (unsigned)r.below(65536); c->dev = r.chance(0.3) ? 0 : 0.02 + 0.4 * r.below(100) / 100.0; c->left = (int)r.range(3, 40);
        auto step = std::make_shared<std::function<void()>>(); RawPeer *P = p;
        *step = [W, b, c, P, step]() {
            if (c->left-- <= 0) return; Rng &r = c->r; if (W->skip()) { S->after(50 * MS, *step); return; }
            if (c->idle) { c->method = (int)r.range(1, 3); { static const char *PT[] = {"0", "1", "10", "1/x"}; c->path = PT[r.chance(0.6) ? r.below(2) : r.below(4)]; } c->sz = SZ[r.below(7)]; c->sz2 = SZ[r.below(7)]; c->off = 0; c->body = rb(r, r.chance(0.15) ? b->maxb + r.below(200) : body_len(r, c->sz, b->maxb)); c->idle = false; c->down = c->method == 1; }
            Msg m; m.type = r.chance(0.85) ? ref::CON : ref::NON; m.det = c->method; m.mid = ++c->mid & 0xffff; m.token = rb(r, 1 + r.below(8)); std::string path = c->path; ref::Block k; bool use1 = !c->down, use2 = c->down && !(c->off == 0 && r.chance(0.3)); bool dev = r.chance(c->dev);
            k.szx = szx_of(c->down ? c->sz2 : c->sz); k.num = c->off / k.size(); size_t n = c->down ? 0 : std::min<size_t>(k.size(), c->body.size() - std::min(c->off, c->body.size())); Bytes pl = c->down ? "" : c->body.substr(std::min(c->off, c->body.size()), n); k.more = !c->down && c->off + n < c->body.size(); ref::Block k2; k2.szx = szx_of(c->sz2); bool add2 = !c->down && !k.more; Bytes raw1, raw2;
            if (!c->down && k.num == 0 && !k.more && r.chance(0.3)) use1 = false;
            if (dev) { W->stat["deviation"]++; switch (r.below(15)) {
                case 14: m.add(r.chance(0.5) ? 9 : 65001, rb(r, r.below(4))); break;
                case 0: k.num += 1; break; case 1: k.num = k.num ? k.num - 1 : 3; break; case 2: k.num = (unsigned)r.below(r.chance(0.5) ? 8 : 1 << 20); break; case 3: m.det = (int)r.range(1, r.chance(0.2) ? 4 : 3); break; case 4: { static const char *PT[] = {"0", "1", "10", "1/x", "", "1X", "1/"}; std::string o = path; do path = PT[r.below(7)]; while (path == o); } break; case 5: pl.clear(); break;
                case 6: raw1 = rb(r, r.range(4, 6)); break; case 7: k.szx = 7; break; case 8: k.more ^= 1; break; case 9: use1 = use2 = false; break; case 10: pl = rb(r, r.below(1025)); break; case 11: k.szx = (unsigned)r.below(7); break; /* same number, other size: another offset */
                case 12: if (!c->lastreq.empty()) { W->raw_send(P, W->saddr, c->lastreq); } break; default: { unsigned f = 1u << r.below(3); if (k.num) { unsigned z = k.szx; while (f > 1 && z < 6) { f >>= 1; z++; } k.szx = z; } } break; } }
            m.add(11, "b"); { size_t at = path.find('/'); if (at != std::string::npos) { m.add(11, path.substr(0, at)); m.add(11, path.substr(at + 1)); } else if (!path.empty()) m.add(11, path); } if (use1) m.add(27, raw1.empty() ? ref::put_block(k, (int)c->r.below(3)) : raw1); if (use2) m.add(23, raw1.empty() ? ref::put_block(k) : raw1); if (add2 && r.chance(0.7)) m.add(23, ref::put_block(k2)); m.payload = pl;
            c->tok = m.token; c->lastreq = ref::build(m); if (c->lastreq.size() > 1152) { c->idle = true; S->after(1, *step); return; } c->sent++; int me = c->sent; W->raw_send(P, W->saddr, c->lastreq); if (r.chance(0.1)) { Bytes d = c->lastreq; S->after(r.range(1, 30 * MS), [W, P, d]() { W->raw_send(P, W->saddr, d); }); }
            S->after(3 * SEC, [c, me, step]() { if (c->sent == me) { c->idle = true; (*step)(); } }); };   // unanswered: give the transfer up
        p->on = [W, c, step](RawPeer &me, Addr from, const Bytes &d) {
            Msg m; if (ref::parse(d, m) != ref::OK) return; if (m.type == ref::CON) { Msg a; a.type = ref::ACK; a.mid = m.mid; W->raw_send(&me, from, ref::build(a)); }
            if (!m.response() || m.token != c->tok) return; c->tok = "\x01none"; c->sent++; Msg q; ref::parse(c->lastreq, q); ref::Block k1, r1, r2; ns_t pause = c->r.chance(0.8) ? c->r.range(0, 20 * MS) : c->r.range(0, 3 * SEC);
            if (m.cls != 2) { if (m.code() != 402 || c->r.chance(0.3)) c->idle = true; }
            else if (!c->down) { bool more = ref::get_block(q, 27, k1) && k1.more; c->off += q.payload.size(); if (ref::get_block(m, 27, r1) && r1.size() < c->sz && c->r.chance(0.9)) c->sz = r1.size(); if (!more || m.code() != 231) { if (ref::get_block(m, 23, r2) && !more) { c->down = true; c->off = m.payload.size(); c->sz2 = r2.size(); if (!r2.more) c->idle = true; } else c->idle = true; } }
            else if (ref::get_block(m, 23, r2)) { c->off = (size_t)r2.num * r2.size() + m.payload.size(); c->sz2 = r2.size(); if (c->r.chance(0.1) && c->sz2 > 16) c->sz2 /= 2; if (!r2.more) c->idle = true; } else c->idle = true;
            if (c->r.chance(0.05)) c->idle = true;      // abandons the transfer
            S->after(pause, *step); };
        S->at(r.range(1 * MS, 2 * SEC), [step]() { (*step)(); });
    }
    w.ntf = [](std::map<std::string, long> &s) { return s["accepted"] > 0; };
}

// ---------------------------------------------------------------- B05: the real client against any server
static void f_B05(World &w) {
    Rng &r = w.rp; w.img = r.chance(0.15) ? "plain6" : "plain4"; Swarm::net(S->pf, r, r.chance(0.75) ? 0 : 1); S->pf.delay_max = std::min(S->pf.delay_max, 4 * SEC); S->pf.sched = 0; World *W = &w;
    RawPeer *sp = w.add_raw(IP(10, 0, 0, 1), 5683); w.saddr = sp->a; double dev = r.chance(0.2) ? 0 : 0.02 + 0.3 * r.below(100) / 100.0; bool endless = r.chance(0.1);
    // now and then one transfer of thousands of blocks: block numbers of every encoded length
    bool huge = r.chance(0.006); if (huge) { S->pf = Profile(); S->pf.base_lat = 100 * US; dev = 0; endless = false; }
    struct St { std::map<Bytes, Bytes> reply; Bytes body; size_t upl = 0; bool ok = true, final = false, undecided = false; size_t off = 0; Bytes want; int nreq = 0; unsigned s1, s2; Rng r{0}; int method = 0; size_t buf = 0; Bytes up; bool stop = false; bool first = true; bool errcode = false; unsigned csz = 1024, csz2 = 1024; bool down = false; bool upfin = false; int opid = 0; size_t maxreq = 0; bool haveresp = false; bool upok = false; size_t upoff = 0; unsigned usz = 1024, dsz = 1024; };
    auto st = std::make_shared<St>(); st->r = Rng(w.seed, 0xb05); st->s1 = SZ[r.below(7)]; st->s2 = SZ[r.below(7)]; if (huge) st->s1 = st->s2 = SZ[r.below(2)]; auto bufs = std::make_shared<std::map<int, std::shared_ptr<Buf>>>();
    sp->on = [W, st, dev, endless](RawPeer &me, Addr from, const Bytes &d) {
        Msg q; if (ref::parse(d, q) != ref::OK || !q.request()) return; St &s = *st; auto old = s.reply.find(d); if (old != s.reply.end()) { W->raw_send(&me, from, old->second); return; }
        Rng &r = s.r; s.nreq++; Msg m; m.type = q.type == ref::CON ? ref::ACK : ref::NON; m.mid = q.type == ref::CON ? q.mid : (unsigned)r.below(65536); m.token = q.token; ref::Block k1, k2, r1, r2; bool g1 = ref::get_block(q, 27, k1), g2 = ref::get_block(q, 23, k2); bool bad = r.chance(dev); int what = bad ? (int)r.below(20) : -1; if (bad) W->stat["deviation"]++;
        bool up = q.det != 1 && g1; m.cls = 2;
        if (up) { r1 = k1; unsigned sz = std::min(k1.size(), s.s1); size_t off = (size_t)k1.num * k1.size(); r1.szx = szx_of(sz); r1.num = off / sz; m.det = k1.more ? 31 : (r.chance(0.5) ? 1 : 4); }
        bool resp2 = !up || (!k1.more && !s.body.empty());
        if (resp2) { r2.szx = szx_of(std::min(g2 ? k2.size() : 1024, s.s2)); size_t off = up ? 0 : g2 ? (size_t)k2.num * k2.size() : 0; r2.num = off / r2.size(); size_t n = off < s.body.size() ? std::min<size_t>(r2.size(), s.body.size() - off) : 0; m.payload = off < s.body.size() ? s.body.substr(off, n) : ""; r2.more = off + n < s.body.size(); if (endless && !bad) { m.payload = Bytes(r2.size(), 'e'); r2.more = 1; } if (!up) m.det = q.det == 1 ? (r2.more ? (r.chance(0.5) ? 31 : 5) : 5) : (r2.more ? 31 : 4); }
        bool put1 = up, put2 = resp2 && (!m.payload.empty() || !up); ref::Block &k = up && (!resp2 || r.chance(0.5)) ? r1 : r2; Bytes raw;
        switch (what) { case 0: k.num++; break; case 1: if (k.num) k.num--; else k.num = 5; break; case 2: k.num = (unsigned)r.below(1 << 20); break; case 3: k.szx = 7; break; case 4: k.szx = (unsigned)r.below(7); break; case 5: put1 = false; break; case 6: put2 = false; break; case 7: m.payload = rb(r, r.below(1025)); break; case 8: m.payload.clear(); break; case 9: k.more ^= 1; break; case 10: m.det = (int)r.below(32); break; case 11: m.cls = (int)r.range(4, 5); m.det = (int)r.below(10); break; case 12: raw = rb(r, r.range(4, 8)); break; case 13: raw = "\x00"; break; case 14: if (!m.payload.empty()) m.payload.pop_back(); break; case 15: m.payload += rb(r, r.range(1, 64)); break; case 16: k.num *= 2; break; case 17: { unsigned z = k.szx; k.szx = std::min(6u, z + 1); } break; case 18: k.szx = k.szx ? k.szx - 1 : 0; break; case 19: { unsigned o = k.num * k.size(); k.szx = k.szx ? k.szx - 1 : 0; k.num = o / k.size(); } break; default: break; }
        if (put1) m.add(27, !raw.empty() ? raw : ref::put_block(r1, (int)r.below(3))); if (put2) m.add(23, !raw.empty() && !put1 ? raw : ref::put_block(r2)); if (what == 13 && r.chance(0.5)) m.add(23, ref::put_block(r2));
        if (!m.response()) { m.cls = 5; m.det = 0; } Bytes out = ref::build(m); if (out.size() > 1152) { m.payload.resize(100); out = ref::build(m); }
        s.reply[d] = out; W->raw_send(&me, from, out); };
    // the reference: follows the replies the client takes in
    Node *c = w.add_client(IP(10, 0, 1, 1), w.saddr); int no = huge ? 1 : (int)r.range(1, 5); size_t per_op = 0; (void)per_op;
    for (int j = 0; j < no; j++) { Msg m; m.type = r.chance(0.85) ? ref::CON : ref::NON; m.det = (int)r.range(1, 3); m.add(11, "b"); cli_op_t o = w.mk_op(m, COP_BLOCKWISE); o.block1 = SZ[r.below(7)]; o.block2 = SZ[r.below(7)]; size_t n = m.det == 1 ? (r.chance(0.7) ? 3000 : r.range(1, 1500)) : body_len(r, o.block1, 3000); if (m.det == 1 && r.chance(0.2)) o.have_resp = 1; if (huge) n = (size_t)r.range(st->s1 == 16 ? 33000 : 66000, st->s1 == 16 ? 70000 : 140000);
        auto buf = std::make_shared<Buf>(n); Bytes t = rb(r, n); if (m.det == 1) t.assign(n, (char)0xee); memcpy(buf->data(), t.data(), n); (*bufs)[o.id] = buf; o.body = buf->data(); o.body_len = n; w.add_op(c, o); w.add_sleep(c, S->pf.delay_max + SEC); }
    w.start_client(c, 1 * MS); if (huge) w.stat["huge"]++;
    w.on_opstart = [st, bufs, huge](Node *, cli_op_t *op) { if (op->kind != COP_BLOCKWISE) return; St &s = *st; Rng keep = s.r; unsigned a = s.s1, b = s.s2; s = St(); s.r = keep; s.s1 = a; s.s2 = b; s.opid = op->id; s.method = op->req.code_detail; s.buf = op->body_len; s.csz = op->block1; s.csz2 = op->block2; s.usz = s.csz; s.dsz = s.csz2; s.haveresp = op->have_resp; if (s.method != 1) s.up.assign((char *)op->body, op->body_len);
        s.body = s.r.chance(0.2) ? Bytes() : rb(s.r, body_len(s.r, s.s2, s.r.chance(0.8) ? std::max<size_t>(1, s.buf) : 4000)); if (huge && s.method == 1) s.body = rb(s.r, s.buf - s.r.below(1500)); else if (huge) s.body.clear(); s.maxreq = s.buf / 16 + (s.method == 1 ? 0 : s.buf / 16) + 6; };
    auto prev = S->on_ev; Node *C = c; auto req = std::make_shared<Msg>(); req->mid = 70000; auto answered = std::make_shared<bool>(true);
    S->on_ev = [prev, W, st, C, req, answered](Ev &e) { prev(e); if (e.node != C->id) return; Msg m; if ((e.k != EV_SEND && e.k != EV_RECV) || ref::parse(e.data, m) != ref::OK) return; St &s = *st;
        if (e.k == EV_SEND) { if (!m.request() || m.mid == req->mid) return; *req = m; *answered = false; if ((size_t)++s.upl > s.maxreq) W->v("B05,B01,B02", fmt("op %d: %zu requests for a buffer of %zu bytes", s.opid, s.upl, s.buf)); if (s.stop && !s.undecided) W->v("B05,B01,B02", fmt("op %d: the client went on after a reply that ends the transfer or breaks its sequence", s.opid));
            if (s.stop) return; ref::Block b1, b2; bool h1 = ref::get_block(m, 27, b1), h2 = ref::get_block(m, 23, b2); if (s.undecided) { if (h1 ? b1.size() > s.usz : h2 && b2.size() > s.dsz) W->v("B05,B04", fmt("op %d: announced block size exceeds the agreed %u/%u", s.opid, s.usz, s.dsz)); return; }
            if (h1) { size_t off = (size_t)b1.num * b1.size(), n = off < s.up.size() ? std::min<size_t>(b1.size(), s.up.size() - off) : 0;
                if (off != s.upoff) W->v("B05,B04,B01", fmt("op %d: block %u of size %u addresses byte %zu, but %zu bytes have been acknowledged", s.opid, b1.num, b1.size(), off, s.upoff));
                else if (b1.size() > s.usz) W->v("B05,B04", fmt("op %d: announced block size %u exceeds the agreed %u", s.opid, b1.size(), s.usz));
                else if (m.payload != s.up.substr(off, n) || b1.more != (unsigned)(off + n < s.up.size())) W->v("B05,B04,B01", fmt("op %d: block %u of size %u does not carry the body's bytes or the right more flag", s.opid, b1.num, b1.size())); }
            else if (h2) { if ((size_t)b2.num * b2.size() != s.off) W->v("B05,B04,B02", fmt("op %d: requested block %u of size %u, but %zu bytes have been received", s.opid, b2.num, b2.size(), s.off));
                else if (b2.size() > s.dsz) W->v("B05,B04", fmt("op %d: requested block size %u exceeds the agreed %u", s.opid, b2.size(), s.dsz)); }
            return; }
        if (!m.response() || m.token != req->token || *answered) return; if (ref::bad_critical(m)) { s.undecided = true; return; } *answered = true; if (s.stop) return; ref::Block q1, q2, k1, k2; bool g1 = ref::get_block(*req, 27, q1); bool multi = m.count(27) > 1 || m.count(23) > 1; if (multi) s.undecided = true;
        bool up = s.method != 1 && g1; bool okcode = m.cls == 2 && (m.det == 31 || (s.method == 1 ? m.det == 5 : m.det == 1 || m.det == 4)); if (!okcode) { s.stop = true; s.errcode = true; return; }
        if (up) { if (!ref::get_block(m, 27, k1)) { s.stop = true; s.ok = false; return; } size_t off = (size_t)q1.num * q1.size(); if ((size_t)k1.num * k1.size() != off) { s.stop = true; s.ok = false; return; } s.upoff += req->payload.size(); s.usz = std::min(s.usz, k1.size()); if (q1.more) return; s.upfin = true; s.upok = true; if (m.payload.empty()) { s.stop = true; s.final = true; s.off = s.up.size(); return; } }
        if (!ref::get_block(m, 23, k2)) { s.stop = true; s.ok = false; return; }
        unsigned lim = ref::get_block(*req, 23, q2) ? q2.size() : s.csz2;
        if ((size_t)k2.num * k2.size() != s.off || m.payload.size() > k2.size() || (k2.more && m.payload.size() != k2.size() && !(k2.size() > lim && m.payload.size() == lim)) || s.off + m.payload.size() > s.buf) { s.stop = true; s.ok = false; return; }
        if (m.payload.size() > lim || (k2.more && k2.size() > lim) ) { s.undecided = true; } // more than was asked for: may be refused
        s.want += m.payload; s.off += m.payload.size(); s.dsz = std::min(s.dsz, k2.size()); s.down = true; if (!k2.more) { s.stop = true; s.final = true; } };
    w.on_result = [W, st, bufs](Node *, const cli_op_t *op, long ret, const Msg &, const Msg &resp) {
        St &s = *st; if (ret <= -100000) return; std::string who = fmt("op %d (method %d, buffer %zu): ", s.opid, s.method, s.buf); bool ok = ret >= 0 && resp.cls == 2 && (s.method == 1 ? resp.det == 5 || resp.det == 31 : resp.det == 1 || resp.det == 4 || resp.det == 31); W->stat[ok ? "xfer_ok" : "xfer_fail"]++; if ((size_t)std::max(ret, 0L) > s.buf) { W->v("B05,B01,B02", who + fmt("reported %ld bytes", ret)); return; }
        Bytes out((char *)(*bufs)[op->id]->data(), s.buf); if (s.undecided) { if (ok && !s.ok) W->v("B05,B01,B02", who + "success reported for a transfer that was not in sequence"); return; }
        if (ok && (!s.ok || !s.final)) { W->v("B05,B01,B02", who + fmt("success (%ld bytes) reported although the transfer was %s", ret, s.ok ? "not complete" : "not in sequence")); return; }
        if (ok && s.down && ((size_t)ret != s.want.size() || out.compare(0, ret, s.want) != 0)) { W->v("B05,B01,B02", who + "the returned body is not what the server's blocks add up to"); return; }
        if (ok && !s.down && ret != 0) { W->v("B05,B01,B02", who + fmt("%ld bytes reported as received in an upload that has no response body", ret)); return; }
        if (ok && s.down && s.method == 1) for (size_t i = ret; i < s.buf; i++) if ((unsigned char)out[i] != 0xee) { W->v("B05,B01,B02", who + "bytes beyond the received body were written"); return; }
        if (!ok && !s.stop && ret != -ETIMEDOUT && ret != -ECONNREFUSED) { W->v("B05,B01,B02", who + fmt("the transfer was abandoned with %ld after %zu bytes although every reply continued it", ret, s.method == 1 ? s.off : s.upoff)); return; }
        if (!ok && s.ok && s.final && !s.errcode && ret != -ETIMEDOUT) { W->v("B05,B01,B02", who + fmt("complete, in-sequence transfer reported as failure %ld (%d.%02d)", ret, resp.cls, resp.det)); return; } };
    w.ntf = [](std::map<std::string, long> &s) { return s["xfer_ok"] + s["xfer_fail"] > 0; };
}
void p_B01(World &w) { uint64_t k = w.rp.below(100); if (k < 15) f_B03(w); else if (k < 35) f_B05(w); else f_block(w, 1); }
void p_B02(World &w) { uint64_t k = w.rp.below(100); if (k < 15) f_B03(w); else if (k < 35) f_B05(w); else f_block(w, 2); }
void p_B03(World &w) { if (w.rp.below(100) < 15) f_block(w, 1); else f_B03(w); }
void p_B04(World &w) { uint64_t k = w.rp.below(100); if (k < 12) f_B03(w); else if (k < 30) f_B05(w); else f_block(w, 4); }
void p_B05(World &w) { f_B05(w); }
void f_blockpeers(World &w) { f_B03(w); }
}