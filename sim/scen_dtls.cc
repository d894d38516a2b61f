// DTLS: D01 (only authenticated peers are heard), D02 (sessions are set up despite loss and torn down cleanly).
#include "world.h"
#include "scen.h"
#include <errno.h>
#include <stdarg.h>
namespace sim {
static Bytes rb(Rng &r, size_t n) { Bytes b; for (size_t i = 0; i < n; i++) b.push_back((char)r.next()); return b; }
static std::string fmt(const char *f, ...) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static const char MARK[] = "Xq7#SECRET#k2W";
static void cred(node_cfg_t &c, const std::string &kind, bool server) {
    std::string d = std::string(SIM_DIR) + "certs/", key, cert;
    if (kind == "good") { key = d + (server ? "good_server_privkey.pem" : "good_client_privkey.pem"); cert = d + (server ? "good_server_cert.pem" : "good_client_cert.pem"); }
    else { cert = d + kind + (server ? "_server.pem" : "_client.pem"); key = d + kind + (server ? "_server_key.pem" : "_client_key.pem"); }
    snprintf(c.key, sizeof c.key, "%s", key.c_str()); snprintf(c.cert, sizeof c.cert, "%s", cert.c_str());
    snprintf(c.trust, sizeof c.trust, "%s", (d + (server ? "good_root_client_cert.pem" : "good_root_server_cert.pem")).c_str());
}
static void use_crl(node_cfg_t &c, bool server) { snprintf(c.crl, sizeof c.crl, "%scerts/%s", SIM_DIR, server ? "crl_client.pem" : "crl_server.pem"); }

struct DW { std::function<void(Node *, const char *, long, long, const char *)> note;
    World *w; Node *sv; std::map<int, bool> cli_ok, srv_ok;      // by client node: is its certificate acceptable to the server, is the server's acceptable to it
    std::map<int, int> opnode, invoked; std::map<int, Msg> opreq; std::map<int, Bytes> answer; std::map<int, ns_t> tstart; std::map<int, ns_t> cstall; std::map<int, int> created; std::map<uint32_t, Node *> byip;
    std::map<int, std::shared_ptr<Bytes>> body; std::map<int, Bytes> upl; std::set<int> probe_ops; std::set<int> probes; bool mild = false; bool clean = false; ns_t max_create = 0; std::vector<std::pair<std::pair<Addr, Addr>, Bytes>> cap; // captured datagrams
    std::map<int, int> curop, sends, lastop; std::set<int> abandoned;
};
static int opid_of(const Msg &m) { for (auto &o : m.ops) if (o.num == 15) { const char *p = strstr(o.val.c_str(), "op="); if (p) return atoi(p + 3); } return -1; }
static void d_wire(std::shared_ptr<DW> d) {
    World *w = d->w;
    w->check_models = false;
    auto prev = S->on_ev; (void)prev;
    S->on_ev = [d, w](Ev &e) {
        if (e.k == EV_FAULT && e.tag && !strcmp(e.tag, "stall") && e.node >= 0) d->cstall[e.node] += e.a;
        if (e.k == EV_APP && e.tag && !strcmp(e.tag, "op") && e.a == COP_RECREATE) d->tstart[e.node] = e.t;
        if (e.k == EV_SEND && e.node >= 0) {
            if (e.data.find(MARK) != Bytes::npos) w->v("D01", fmt("application data sent in clear by node %d to %s", e.node, e.to.str().c_str()));
            if (d->cap.size() < 400) d->cap.push_back({{e.from, e.to}, e.data});
        } };
    // every request carries op=<id> and a marker; every response a marker, the id and a fresh number
    auto handle = [d, w](Node *, const Msg &q, Addr peer, app_act_t *act) {
        int id = opid_of(q); auto it = d->byip.find(peer.ip); Node *c = it == d->byip.end() ? nullptr : it->second;
        w->stat["dtls_handled"]++;
        if (!c) { w->v("D01", "application invoked for " + peer.str() + ", which is no DTLS client"); return; }
        if (!d->cli_ok[c->id]) { w->v("D01", "application invoked with a request from " + c->name + ", which holds no acceptable certificate"); return; }
        if (!d->opnode.count(id) || d->opnode[id] != c->id) { w->v("D01", fmt("application invoked for %s with a request it never composed (op %d)", c->name.c_str(), id)); return; }
        const Msg &want = d->opreq[id]; bool same = want.det == q.det && want.cls == q.cls;
        if (same && !d->body.count(id)) { same = want.payload == q.payload && want.ops.size() == q.ops.size(); }
        if (!same) { w->v("D01", fmt("request of %s (op %d) reached the application altered", c->name.c_str(), id)); return; }
        if (d->body.count(id)) { d->lastop[c->id] = id; return; }
        // a client's own retransmission may run again only after a later request has replaced it as the one remembered
        d->invoked[id]++; if (d->invoked[id] > d->sends[id]) w->v("D01,D02", fmt("request of %s (op %d), sent %d times, reached the application %d times", c->name.c_str(), id, d->sends[id], d->invoked[id]));
        if (d->invoked[id] > 1 && d->lastop[c->id] == id) w->v("D02", fmt("duplicate of the last request of %s (op %d) reached the application again", c->name.c_str(), id)); d->lastop[c->id] = id;
        Bytes a = std::string(MARK) + fmt(":%d:", id); Rng r(w->seed, 0xd75, id); a += rb(r, r.below(r.chance(0.2) ? 600 : 30)); d->answer[id] = a; Msg m; m.cls = 2; m.det = 5; m.payload = a; ref_to_app(m, &act->resp); act->mode = 0; };
    w->routes["s"] = handle; w->routes["sep"] = handle;
    w->routes["b"] = [d, w, handle](Node *n, const Msg &q, Addr peer, app_act_t *act) {
        int id = opid_of(q); handle(n, q, peer, act); if (!S->violation.empty() || !d->body.count(id)) return;
        auto k = std::make_shared<Bytes>(8192, '\0'); w->keep.push_back(k); Bytes a = std::string(MARK) + fmt(":%d:", id); Rng r(w->seed, 0xd76, id); a += rb(r, r.below(1500));
        if (q.det == 1) { d->answer[id] = a; memcpy(&(*k)[0], a.data(), a.size()); }
        act->mode = 1; Rng z(w->seed, 0xd77, id); act->block1 = 16u << z.range(2, 6); act->block2 = 16u << z.range(2, 6); act->body = (unsigned char *)k->data(); act->body_len = q.det == 1 ? a.size() : k->size(); act->with_rx = q.det != 1; };
    w->rx_fn = [d, w](Node *, const Msg &q, Addr, unsigned char *b, size_t, size_t *end, app_act_t *act) { int id = opid_of(q); d->upl[id] = Bytes((char *)b, *end); act->mode = 0; act->resp.code_class = 2; act->resp.code_detail = 4; *end = 0; if (!d->body.count(id) || d->upl[id] != *d->body[id]) w->v("D02,D01", fmt("upload of op %d arrived with another body (%zu bytes)", id, d->upl[id].size())); w->stat["dtls_uploads"]++; };
    w->on_next = nullptr;
    w->on_opstart = [d](Node *n, cli_op_t *o) { d->opnode[o->id] = n->id; d->curop[n->id] = o->id; };
    d->note = [d, w](Node *n, const char *k, long a, long, const char *s) { if (!strcmp(k, "tls_send_req")) d->sends[d->curop[n->id]]++; if (!strcmp(k, "tls_end") && a != 0) w->v("D02", n->name + " left TLS objects behind: " + s); };
    w->on_note = d->note;
    w->on_result = [d, w](Node *n, const cli_op_t *op, long ret, const Msg &, const Msg &resp) {
        if (ret <= -100000) { if (d->probes.count(n->id) && !w->dead.count(d->sv->id)) w->v("D02", n->name + " (well-behaved, after the faults stopped) could not set up a session"); return; }
        ns_t el = S->now - w->opstart[op->id], st = d->cstall[n->id];
        if (op->kind == COP_EXCHANGE && el > 124 * SEC + 4 * st) w->v("D02", fmt("exchange over DTLS took %.1f s", el / 1e9));
        bool ok = op->kind == COP_EXCHANGE ? ret == 0 : ret >= 0;
        if (op->kind == COP_BLOCKWISE) d->abandoned.insert(n->id);   // a late duplicate of its first block may restart the transfer at the server
        if (!ok) { w->stat["dtls_op_err"]++; if (d->clean && d->cli_ok[n->id] && !(d->mild && op->req.type == ref::NON)) w->v("D02", fmt("exchange over an undisturbed session failed with error %ld", -ret)); if (d->probes.count(n->id)) w->v("D02", fmt("exchange of %s (well-behaved, after the faults stopped) failed with error %ld", n->name.c_str(), -ret)); return; }
        w->stat["dtls_op_ok"]++;
        if (!d->srv_ok[n->id]) { w->v("D01", n->name + ": success reported with a server whose certificate is not acceptable"); return; }
        if (!d->cli_ok[n->id]) { w->v("D01", n->name + ": success reported although its certificate is not acceptable"); return; }
        if (op->kind == COP_EXCHANGE && d->abandoned.count(n->id) && (resp.code() == 408 || resp.code() == 400)) return;   // the answer to the block the server still waited for
        if (op->kind == COP_EXCHANGE) { if (!d->answer.count(op->id) || resp.payload != d->answer[op->id] || resp.code() != 205) w->v("D01,D02", fmt("%s op %d: success with a response the server never gave to it", n->name.c_str(), op->id)); }
        else if (resp.cls == 2) { if (op->req.code_detail == 1) { Bytes got((char *)op->body, ret > 0 ? (size_t)ret : 0); if (!d->answer.count(op->id) || got != d->answer[op->id]) w->v("D02,D01", fmt("%s op %d: block-wise download over DTLS returned other bytes", n->name.c_str(), op->id)); } else if (!d->upl.count(op->id) || d->upl[op->id] != *d->body[op->id]) w->v("D02,D01", fmt("%s op %d: block-wise upload over DTLS reported done but the server did not receive the body", n->name.c_str(), op->id)); w->stat["dtls_bw_ok"]++; }
    };
}
static void d_op(std::shared_ptr<DW> d, Node *c, Rng &r, bool bw) {
    World *w = d->w; Msg m; m.type = r.chance(0.8) ? ref::CON : ref::NON; m.det = (int)r.range(1, bw ? 3 : 4); if (bw) m.type = ref::CON;
    m.add(11, bw ? "b" : r.chance(0.25) ? "sep" : "s"); int id = w->opctr + 1; m.add(15, fmt("op=%d&", id) + MARK); if (!bw && r.chance(0.5)) m.payload = MARK + rb(r, r.below(400));
    cli_op_t o = w->mk_op(m, bw ? COP_BLOCKWISE : COP_EXCHANGE); d->opnode[o.id] = c->id; d->opreq[o.id] = m;
    if (bw) { o.block1 = 16u << r.range(2, 6); o.block2 = 16u << r.range(2, 6); Bytes b = MARK + rb(r, r.below(1500)); auto k = std::make_shared<Bytes>(b); d->body[o.id] = k; auto buf = std::make_shared<Bytes>(m.det == 1 ? Bytes(8192, '\0') : b); w->keep.push_back(buf); o.body = (unsigned char *)buf->data(); o.body_len = buf->size(); }
    w->add_op(c, o);
}
static Node *d_client(std::shared_ptr<DW> d, int k, const std::string &kind, Rng &r, bool cn, bool crl) {
    World *w = d->w; Node *c = w->add_client(IP(10, 0, 1, k + 1), w->saddr); auto &g = w->cfg[c->id]; cred(g, kind, false); if (cn) snprintf(g.cn, sizeof g.cn, "dummy/server"); if (crl) use_crl(g, false); d->byip[c->ip] = c; d->cli_ok[c->id] = true; d->srv_ok[c->id] = true; return c;
}
static void d_start(std::shared_ptr<DW> d, Node *c, ns_t at) { d->tstart[c->id] = at; d->w->start_client(c, at); }
// an attacker who sees everything on the wire and can send from any address
static void d_attack(std::shared_ptr<DW> d, Rng &r, ns_t horizon, int n) {
    World *w = d->w; uint64_t sd = r.next();
    for (int i = 0; i < n; i++) { ns_t t = r.range(1 * MS, horizon); w->plan_at(t, [d, w, sd, i]() {
        Rng q(sd, 0xa77, i); Addr from, to; Bytes b; auto cli = [&]() { Node *c = w->clients[q.below(w->clients.size())]; Addr a; a.ip = c->ip; a.port = c->next_port > 40000 ? c->next_port - 1 : 40000; return a; };
        bool tosrv = q.chance(0.6); if (tosrv) { to = w->saddr; if (q.chance(0.6)) from = cli(); else { from.ip = IP(10, 0, 9, (int)q.range(1, 3)); from.port = 45000; } } else { to = cli(); from = w->saddr; }
        switch (q.below(6)) {
        case 0: { Msg m; m.type = tosrv ? ref::CON : (int)q.below(3); m.cls = tosrv ? 0 : 2; m.det = tosrv ? 1 : 5; m.mid = (unsigned)q.below(65536); m.token = rb(q, 4); m.add(11, "s"); if (!w->res.empty() && q.chance(0.5)) m.add(15, fmt("op=%d&", (int)q.range(1, w->opctr)) + MARK); m.payload = MARK; b = ref::build(m); w->stat["atk_plain"]++; break; }
        case 1: case 2: { if (d->cap.empty()) return; auto &c = d->cap[q.chance(0.5) ? d->cap.size() - 1 - q.below(std::min<size_t>(d->cap.size(), 12)) : q.below(d->cap.size())]; b = c.second; if (q.chance(0.7)) { from = c.first.first; to = c.first.second; } w->stat["atk_replay"]++; break; }
        case 3: { if (d->cap.empty()) return; auto &c = d->cap[d->cap.size() - 1 - q.below(std::min<size_t>(d->cap.size(), 20))]; b = c.second; if (q.chance(0.7)) { from = c.first.first; to = c.first.second; } int k = (int)q.range(1, 3); for (int j = 0; j < k; j++) b[q.below(b.size())] ^= (char)(1 << q.below(8)); if (q.chance(0.2)) b.resize(q.below(b.size() + 1)); w->stat["atk_modified"]++; break; }
        case 4: { b = rb(q, q.below(200)); if (b.size() > 13) { static const unsigned char ty[] = {20, 21, 22, 23, 23, 22}; b[0] = (char)ty[q.below(6)]; b[1] = (char)0xfe; b[2] = (char)(q.chance(0.5) ? 0xff : 0xfd); if (q.chance(0.7)) { size_t l = b.size() - 13; b[11] = (char)(l >> 8); b[12] = (char)l; b[3] = 0; b[4] = (char)q.below(2); } } w->stat["atk_forged"]++; break; }
        default: { Msg m = w->gen_response(q, 1); b = ref::build(m); w->stat["atk_plain"]++; } }
        S->net_send(from, to, b, -1); }); }
}
static bool bad_kind(const std::string &k, bool crl) { return k == "none" || k == "forged" || k == "subleaf" || k == "rogue" || k == "expired" || k == "future" || (k == "revoked" && crl); }
void p_D01(World &w) {
    Rng &r = w.rp; w.img = "dtls4"; auto d = std::make_shared<DW>(); d->w = &w; Swarm::net(S->pf, r, (int)r.below(2)); S->pf.drop *= 0.5; S->pf.delay_max = std::min(S->pf.delay_max, 4 * SEC); if (r.chance(0.3)) S->pf.corrupt = 0.1;
    static const char *K[] = {"good", "rogue", "expired", "future", "revoked", "forged", "subleaf", "none"}; bool scrl = r.chance(0.5);
    std::string sk = r.chance(0.55) ? "good" : r.chance(0.2) ? "other" : K[r.range(1, 6)];
    Node *sv = d->sv = w.add_server(IP(10, 0, 0, 1), 5684, r.chance(0.5) ? std::vector<std::string>{"/sep"} : std::vector<std::string>{}); cred(w.cfg[sv->id], sk, true); if (scrl) use_crl(w.cfg[sv->id], true);
    static const ns_t skew[] = {-8LL * 365 * 86400 * SEC, 9LL * 365 * 86400 * SEC}; int ss = -1; if (r.chance(0.15)) { ss = (int)r.below(2); sv->wall_off = skew[ss]; S->fault("clock_skew"); }
    d_wire(d); w.start_server(sv); int nc = (int)r.range(1, 3); ns_t t = 50 * MS;
    for (int i = 0; i < nc; i++) {
        std::string k = r.chance(0.5) ? "good" : K[r.range(1, 7)]; bool cn = r.chance(0.7), ccrl = r.chance(0.5); Node *c = d_client(d, i, k, r, cn, ccrl); int cs = -1; if (r.chance(0.1)) { cs = (int)r.below(2); c->wall_off = skew[cs]; S->fault("clock_skew"); }
        d->cli_ok[c->id] = !bad_kind(k, scrl) && ss < 0; d->srv_ok[c->id] = !bad_kind(sk, ccrl) && !(sk == "other" && cn) && cs < 0;
        if (ss >= 0 || cs >= 0) { // a revocation list or root outside its validity: only the negative direction is judged
            if (cs >= 0) d->srv_ok[c->id] = false; if (ss >= 0) d->cli_ok[c->id] = false; }
        int no = (int)r.range(1, 3); for (int j = 0; j < no; j++) { d_op(d, c, r, r.chance(0.15)); if (r.chance(0.2)) { w.add_sleep(c, 0); w.scripts[c->id].ops.back().kind = COP_RECREATE; } }
        w.stat["cert_client_" + k]++; w.stat["cert_server_" + sk]++; d_start(d, c, t); t += r.chance(0.3) ? r.range(1 * MS, 500 * MS) : r.range(3 * SEC, 40 * SEC); }
    d_attack(d, r, t + 20 * SEC, r.chance(0.8) ? (int)r.range(1, 30) : 0);
    World *W = &w;
    w.on_created = [d, W](Node *n, int ret) { W->stat[ret >= 0 ? "session_ok" : "session_refused"]++; if (ret >= 0 && !d->srv_ok[n->id]) W->v("D01", n->name + " set up a session with a server whose certificate it must not accept"); };
    w.fd_check = false; w.ntf = [](std::map<std::string, long> &s) { return s["session_ok"] + s["session_refused"] > 0; };
}
void p_D02(World &w) {
    Rng &r = w.rp; w.img = "dtls4"; auto d = std::make_shared<DW>(); d->w = &w; bool clean = r.chance(0.2); Swarm::net(S->pf, r, clean ? 0 : (int)r.range(0, 2)); S->pf.drop = std::min(S->pf.drop, 0.4); S->pf.delay_max = std::min(S->pf.delay_max, 15 * SEC); if (!clean && r.chance(0.3)) stalls(r);
    bool mild = clean && r.chance(0.6); if (mild) { S->pf.drop = 0.4 * r.below(100) / 100.0; if (r.chance(0.5)) S->pf.dup = 0.2; if (r.chance(0.5)) { S->pf.delay = 0.3; S->pf.delay_max = r.chance(0.5) ? 50 * MS : 1500 * MS; } } d->clean = clean; d->mild = mild; ns_t quiet = mild ? r.range(50, 5000) * MS : r.range(60, 150) * SEC; // a few losses only: they must not matter
    S->pf.quiet_after = quiet; World *W = &w;
    Node *sv = d->sv = w.add_server(IP(10, 0, 0, 1), 5684, r.chance(0.5) ? std::vector<std::string>{"/sep"} : std::vector<std::string>{}); cred(w.cfg[sv->id], "good", true);
    d_wire(d); w.start_server(sv); int nc = (int)r.range(1, clean ? 1 : 3); ns_t t = 50 * MS; if (!clean && r.chance(0.2)) { double p = 0.05 + 0.2 * r.below(100) / 100.0; S->at(40 * MS, [p]() { S->pf.malloc_fail = p; }); }
    if (!clean && r.chance(0.15)) { sysfaults(r, false); }
    for (int i = 0; i < nc; i++) {
        bool bad = !clean && r.chance(0.2); Node *c = d_client(d, i, bad ? "rogue" : "good", r, true, false); d->cli_ok[c->id] = !bad;
        int no = (int)r.range(1, 4); for (int j = 0; j < no; j++) { d_op(d, c, r, r.chance(0.25)); if (r.chance(0.3)) w.add_sleep(c, r.range(0, 8 * SEC)); if (!clean && r.chance(0.2)) { w.add_sleep(c, 0); w.scripts[c->id].ops.back().kind = COP_RECREATE; } }
        d_start(d, c, t);
        if (!clean && r.chance(0.3)) { int at = (int)r.range(1, 60); w.plan_at(t + r.range(0, 30 * SEC), [W, c, at]() { if (c->alive) { c->crash_in = at; c->on_crash = [W, c]() { if (c->alive) { S->fault("client_crash"); S->kill_node(c); } }; } }); }
        t += r.chance(0.4) ? r.range(1 * MS, 300 * MS) : r.range(1 * SEC, 30 * SEC); }
    if (!clean && r.chance(0.4)) d_attack(d, r, quiet, (int)r.range(1, 20));
    w.server_exit_ok = false;
    ns_t tp = std::max(quiet, t) + 420 * SEC + S->pf.delay_max; int np = (int)r.range(1, 2);
    for (int i = 0; i < np; i++) { Node *c = d_client(d, 10 + i, "good", r, true, false); d->probes.insert(c->id); d_op(d, c, r, r.chance(0.3)); d_start(d, c, tp + i * 60 * SEC); }
    w.on_created = [d, W](Node *n, int ret) { ns_t el = S->now - d->tstart[n->id]; W->stat[ret >= 0 ? "session_ok" : "session_failed"]++; d->tstart[n->id] = S->now;
        long ms = (long)(el / MS); long &mx = W->stat["max_setup_ms"]; if (ms > mx) mx = ms;
        if (el > 125 * SEC + 2 * d->cstall[n->id]) W->v("D02", fmt("session set-up of %s took %.1f s", n->name.c_str(), el / 1e9));
        if (ret < 0 && d->clean) W->v("D02", fmt("session set-up on an undisturbed network failed (%d)", ret));
        if (ret < 0 && d->probes.count(n->id) && !W->dead.count(d->sv->id)) W->v("D02", fmt("%s (well-behaved, after the faults stopped) could not set up a session (%d)", n->name.c_str(), ret)); };
    w.ntf = [](std::map<std::string, long> &s) { return s["session_ok"] > 0; };
}
}
