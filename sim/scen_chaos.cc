// Hostile datagrams, failing system calls and allocations, crashes: S05, S06, S08.
#include "world.h"
#include "scen.h"
#include <errno.h>
namespace sim {
static Bytes rb(Rng &r, size_t n) { Bytes b; for (size_t i = 0; i < n; i++) b.push_back((char)r.next()); return b; }
Bytes block_val(unsigned num, int more, int szx) { unsigned v = (num << 4) | (more ? 8 : 0) | (szx & 7); Bytes b; if (v >= 0x10000) b.push_back((char)(v >> 16)); if (v >= 0x100) b.push_back((char)(v >> 8)); if (v) b.push_back((char)v); return b; }

// any datagram: random, truncated, oversized, mutated, every type and code, odd options
Bytes garbage(World &w, Rng &r) {
    switch (r.below(9)) {
    case 0: return rb(r, r.below(80));
    case 1: return rb(r, r.range(1100, 1500));
    case 2: { Bytes b = rb(r, r.range(4, 60)); b[0] = (char)(0x40 | (r.below(4) << 4) | r.below(16)); return b; }
    case 3: { // header, then hostile option bytes
        Bytes b; int tkl = (int)r.below(9); b.push_back((char)(0x40 | (r.below(2) << 4) | tkl)); b.push_back((char)r.range(1, 4)); b += rb(r, 2 + tkl); int n = (int)r.range(1, 6);
        for (int i = 0; i < n; i++) { static const unsigned char nib[] = {0, 1, 11, 12, 13, 14, 15, 3, 4, 13, 14}; unsigned d = nib[r.below(11)], l = nib[r.below(11)]; b.push_back((char)(d << 4 | l)); if (d == 13) b += rb(r, 1); if (d == 14) b += rb(r, 2); if (l == 13) b += r.chance(0.5) ? Bytes("\xff", 1) : rb(r, 1); if (l == 14) b += r.chance(0.5) ? Bytes("\xff\xff", 2) : Bytes("\x03\x00", 2); b += rb(r, r.chance(0.5) ? l : r.below(40)); }
        return b; }
    case 4: { Msg m = w.gen_request(r, r.chance(0.5), 900); m.mid = (unsigned)r.below(65536); m.token = rb(r, r.below(9)); Bytes b = ref::build(m); int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) b[r.below(b.size())] = (char)r.next(); return b; }
    case 5: { Msg m = w.gen_request(r, r.chance(0.5), 300); m.mid = (unsigned)r.below(65536); m.token = rb(r, r.below(9)); Bytes b = ref::build(m); b.resize(r.below(b.size() + 1)); return b; }
    case 6: { Msg m = w.gen_response(r, 1); m.type = (int)r.below(4); m.mid = (unsigned)r.below(65536); m.token = rb(r, r.below(9)); return ref::build(m); }
    case 7: { // block options, valid and not
        Msg m; m.type = r.chance(0.8) ? ref::CON : ref::NON; m.det = (int)r.range(1, 4); m.mid = (unsigned)r.below(65536); m.token = rb(r, r.below(9)); m.add(11, "b"); m.add(11, r.chance(0.8) ? "0" : "1");
        auto bv = [&]() { return r.chance(0.2) ? rb(r, r.below(6)) : block_val((unsigned)(r.chance(0.7) ? r.below(4) : r.below(1 << 20)), (int)r.below(2), (int)r.below(8)); };
        if (r.chance(0.8)) m.add(27, bv()); if (r.chance(0.4)) m.add(23, bv()); if (r.chance(0.1)) m.add(27, bv()); if (r.chance(0.8)) m.payload = rb(r, r.chance(0.5) ? 16u << r.below(7) : r.below(1025)); return ref::build(m); }
    default: { Msg m = w.gen_request(r, r.chance(0.7), 900); m.mid = (unsigned)r.below(65536); m.token = rb(r, r.below(9)); int n = (int)r.below(5); for (int i = 0; i < n; i++) m.add((unsigned)r.below(r.chance(0.5) ? 64 : 65536), rb(r, r.chance(0.8) ? r.below(20) : r.below(400))); Bytes b = ref::build(m); if (b.size() > 1400) b.resize(1400); return b; }
    }
}
// a block-wise resource /b/N: GET serves a body, PUT/POST takes one and may answer with one
void block_routes(World &w, Rng &r0) {
    static const unsigned szs[] = {16, 32, 64, 128, 256, 512, 1024}; World *W = &w; unsigned b1 = szs[r0.below(7)], b2 = szs[r0.below(7)]; uint64_t sd = r0.next();
    w.routes["b"] = [W, b1, b2, sd](Node *, const Msg &, Addr, app_act_t *act) {
        Rng r(sd, 0xb10c, W->inv.size()); auto k = std::make_shared<Bytes>(rb(r, r.chance(0.3) ? r.below(40) : r.chance(0.5) ? r.below(700) : 16 * r.below(60))); W->keep.push_back(k);
        act->mode = 1; act->block1 = b1; act->block2 = b2; act->body = (unsigned char *)k->data(); act->body_len = k->size(); act->with_rx = 1; };
    w.rx_fn = [sd, W](Node *, const Msg &, Addr, unsigned char *b, size_t len, size_t *end, app_act_t *act) {
        Rng r(sd, 0x7a, W->stat["rx_calls"]++); act->mode = r.chance(0.05) ? 2 : 0; act->err = -EIO; act->resp.code_class = 2; act->resp.code_detail = r.chance(0.5) ? 4 : 1; if (r.chance(0.1)) { act->resp.code_class = 5; act->resp.code_detail = 0; }
        if (r.chance(0.5)) *end = 0; else { size_t n = std::min<size_t>(len, r.below(600)); for (size_t i = 0; i < n; i++) b[i] = (unsigned char)r.next(); *end = n; } };
}
void sysfaults(Rng &r, bool startup) {
    double p = r.chance(0.3) ? 0 : 0.01 + 0.25 * r.below(100) / 100.0; auto on = [&](double q) { return r.chance(q); }; Profile &f = S->pf;
    auto arm = [p, &f]() { f.sys = p; };
    if (on(0.6)) f.sysfail.push_back({SYS_SENDTO, {ENETUNREACH, ENOBUFS, EPERM, EHOSTUNREACH, EAGAIN}});
    if (on(0.6)) f.sysfail.push_back({SYS_RECVFROM, {ECONNREFUSED, ENOMEM, EAGAIN, EHOSTUNREACH}});
    if (on(0.4)) f.sysfail.push_back({SYS_SEND, {ECONNREFUSED, ENOBUFS, ENETUNREACH}});
    if (on(0.4)) f.sysfail.push_back({SYS_RECV, {ECONNREFUSED, ENOMEM}});
    if (on(0.5)) f.sysfail.push_back({SYS_TIMERFD_CREATE, {EMFILE, ENFILE, ENOMEM}});
    if (on(0.3)) f.sysfail.push_back({SYS_TIMERFD_SETTIME, {EINVAL}});
    if (startup) { f.sysfail.push_back({SYS_SOCKET, {EMFILE, ENOMEM}}); f.sysfail.push_back({SYS_CONNECT, {ENETUNREACH}}); f.sysfail.push_back({SYS_FCNTL, {EINVAL}}); f.sysfail.push_back({SYS_BIND, {EADDRINUSE}}); f.sysfail.push_back({SYS_GAI, {EAGAIN}}); arm(); } else S->at(20 * MS, arm);
}
struct ChaosK { double sys = 0.6, alloc = 0.5, startup = 0; bool tiny = false, probe = true; };
static void f_chaos(World &w, ChaosK k) {
    Rng &r = w.rp; w.img = r.chance(0.2) ? "plain6" : "plain4"; Swarm::net(S->pf, r, (int)r.range(0, 2)); w.check_models = false; stalls(r);
    ns_t quiet = r.range(10, 60) * SEC; S->pf.quiet_after = quiet; S->pf.delay_max = std::min(S->pf.delay_max, 15 * SEC);
    std::vector<std::string> seps; for (int i = 0; i < 5; i++) if (r.chance(0.4) && seps.size() < 3) seps.push_back("/r" + std::to_string(i));
    if (r.chance(0.3)) seps.push_back("/b/0");
    bool startup = r.chance(k.startup);
    if (r.chance(k.sys)) sysfaults(r, startup);
    if (r.chance(k.alloc)) { double p = 0.005 + 0.15 * r.below(100) / 100.0; S->at(startup ? 0 : 20 * MS, [p]() { S->pf.alloc = p; }); }
    Node *sv = w.add_server(IP(10, 0, 0, 1), 5683, seps); block_routes(w, r); if (r.chance(0.2)) w.handler_err_p = 0.2;
    if (k.tiny) { auto &c = w.cfg[sv->id]; c.snum = 8 * (unsigned)r.range(7, 25); c.slen = 8 * (unsigned)r.range(4, 32); c.mnum = 8 * (unsigned)r.range(2, 5); c.lnum = 8 * (unsigned)r.range(1, 2); }
    w.start_server(sv); World *W = &w;
    int nr = (int)r.range(1, r.chance(0.3) ? 12 : 4);
    for (int i = 0; i < nr; i++) { RawPeer *p = w.add_raw(IP(10, 0, 2, i + 1), 41000); p->on = [W](RawPeer &me, Addr from, const Bytes &d) { Msg m; if (ref::parse(d, m) != ref::OK || m.type != ref::CON) return; if (!me.r.chance(0.5)) return; Msg a; a.type = me.r.chance(0.8) ? ref::ACK : ref::RST; a.mid = m.mid; W->raw_send(&me, from, ref::build(a)); };
        int n = (int)r.range(1, 30); ns_t t = r.range(1 * MS, 5 * SEC);
        for (int j = 0; j < n && t < quiet; j++) { Bytes b; if (r.chance(0.4)) { Msg m = w.gen_request(r, r.chance(0.7), 500); m.mid = (unsigned)r.below(65536); m.token = rb(r, r.below(9)); b = ref::build(m); } else b = garbage(w, r); int rep = r.chance(0.15) ? 2 : 1; for (int q = 0; q < rep; q++) w.plan_at(t + q * MS, [W, p, b]() { W->raw_send(p, W->saddr, b); W->stat["hostile_sent"]++; }); t += r.chance(0.5) ? r.range(0, 20 * MS) : r.range(0, 4 * SEC); } }
    int nc = (int)r.below(3); static const unsigned szs[] = {16, 32, 64, 128, 256, 512, 1024};
    for (int i = 0; i < nc; i++) { Node *c = w.add_client(IP(10, 0, 1, i + 1), w.saddr); if (k.tiny) { auto &cc = w.cfg[c->id]; cc.snum = (unsigned)r.range(30, 80); cc.slen = 8 * (unsigned)r.range(4, 32); cc.mnum = (unsigned)r.range(4, 12); }
        int no = (int)r.range(1, 6); for (int j = 0; j < no; j++) { if (r.chance(0.4)) { Msg m; m.type = r.chance(0.8) ? ref::CON : ref::NON; m.det = (int)r.range(1, 3); m.add(11, "b"); m.add(11, "0"); if (r.chance(0.3)) m.add(15, rb(r, r.below(40))); cli_op_t o = w.mk_op(m, COP_BLOCKWISE); o.block1 = szs[r.below(7)]; o.block2 = szs[r.below(7)]; o.body_len = r.range(1, 1500); auto buf = std::make_shared<Bytes>(rb(r, o.body_len)); w.keep.push_back(buf); o.body = (unsigned char *)buf->data(); w.add_op(c, o); } else w.add_op(c, w.mk_op(w.gen_request(r, r.chance(0.7), 600))); if (r.chance(0.3)) w.add_sleep(c, r.range(0, 10 * SEC)); if (r.chance(0.1)) { w.add_sleep(c, 0); w.scripts[c->id].ops.back().kind = COP_RECREATE; } }
        w.start_client(c, r.range(1 * MS, 3 * SEC)); }
    w.server_exit_ok = startup;
    if (k.probe) {
        // once the disturbance is over a well-behaved newcomer, and one of the peers, are answered at their next request
        ns_t tp = quiet + S->pf.delay_max + 5 * SEC + S->pf.stall_max; S->pf.stall = S->pf.stall; int np = (int)r.range(1, 2);
        for (int i = 0; i < np; i++) { RawPeer *p = w.add_raw(IP(10, 0, 3, i + 1), 42000); Msg q; q.type = ref::CON; q.det = 1; q.mid = (unsigned)r.below(65536); q.token = rb(r, 4); q.add(11, "probe"); ns_t at = tp + i * 10 * SEC; Bytes b = ref::build(q);
            w.routes["probe"] = [](Node *, const Msg &, Addr, app_act_t *act) { act->mode = 0; act->resp.code_class = 2; act->resp.code_detail = 5; act->resp.payload_len = 2; memcpy(act->resp.payload, "ok", 2); };
            S->at(at, [W, p, b]() { S->pf.drop = S->pf.dup = S->pf.delay = 0; W->raw_send(p, W->saddr, b); });
            S->at(at + 3 * SEC, [W, p, q]() { bool ok = false; for (auto &d : p->got) { Msg m; if (ref::parse(d, m) == ref::OK && m.type == ref::ACK && m.mid == q.mid && m.token == q.token && m.code() == 205 && m.payload == "ok") ok = true; } W->stat["probe"]++; if (!ok) W->v("S05", "after the disturbance ended, a well-formed request got no (correct) answer within 3 s"); }); }
    }
    w.ntf = [](std::map<std::string, long> &s) { return s["hostile_sent"] > 0; };
}
void p_S05(World &w) { ChaosK k; f_chaos(w, k); }
void p_S06(World &w) { ChaosK k; k.tiny = w.rp.chance(0.5); k.startup = 0.15; k.sys = 0.5; k.alloc = w.rp.chance(0.5) ? 0 : 0.8; f_chaos(w, k); }

// ---------------------------------------------------------------- S08: crash and restart of the server
void p_S08(World &w) {
    Rng &r = w.rp; w.img = r.chance(0.2) ? "plain6" : "plain4"; Swarm::net(S->pf, r, (int)r.range(0, 1)); S->pf.delay_max = std::min(S->pf.delay_max, 4 * SEC);
    std::vector<std::string> seps; for (int i = 0; i < 5; i++) if (r.chance(0.4) && seps.size() < 3) seps.push_back("/r" + std::to_string(i));
    Node *sv = w.add_server(IP(10, 0, 0, 1), 5683, seps); w.start_server(sv); World *W = &w; for (auto &m : w.sm) m->on = false;  // judged from the client side and by the history
    int ncr = (int)r.range(1, 3); ns_t t = r.range(10 * MS, 20 * SEC), last = 0; auto want = std::make_shared<std::map<int, int>>(); if (r.chance(0.3)) { w.handler_slow = 4 * SEC; w.handler_slow_p = 0.4; }
    for (int i = 0; i < ncr; i++) {
        bool mid = r.chance(0.6); int countdown = (int)r.range(1, 40); ns_t down = r.chance(0.4) ? r.range(1 * MS, 500 * MS) : r.range(1 * MS, 40 * SEC); ns_t at = t;
        w.plan_at(at, [W, sv, mid, countdown, down]() {
            auto crash = [W, sv, down]() { if (!sv->alive) return; S->fault("crash"); W->stat["crash"]++; S->kill_node(sv); S->after(down, [W, sv]() { if (!sv->alive) { S->fault("restart"); W->stat["restart"]++; W->restart_server(sv); } }); };
            if (!mid) { crash(); return; }
            sv->crash_in = countdown; sv->on_crash = crash; });     // crash at the n-th system call from now
        last = at + 45 * SEC; t += r.range(1 * SEC, 60 * SEC);
    }
    int nc = (int)r.range(1, 3);
    for (int i = 0; i < nc; i++) { Node *c = w.add_client(IP(10, 0, 1, i + 1), w.saddr); int no = (int)r.range(1, 5);
        for (int j = 0; j < no; j++) { w.add_op(c, w.mk_op(w.gen_request(r, r.chance(0.8)))); if (r.chance(0.5)) w.add_sleep(c, r.range(0, 8 * SEC)); }
        w.start_client(c, r.range(1 * MS, 3 * SEC)); }
    // when everything has settled the new incarnation serves every surviving client
    ns_t fin = std::max<ns_t>(last + 140 * SEC, 700 * SEC); S->pf.quiet_after = fin - 140 * SEC; auto phase = std::make_shared<std::map<int, int>>(); S->at(fin - 60 * SEC, [sv]() { sv->crash_in = 0; });
    w.on_next = [W, fin, phase, sv](Node *n, cli_op_t *op) {
        if (W->scripts[n->id].pos < W->scripts[n->id].ops.size()) return; int &p = (*phase)[n->id];
        if (p == 0) { p = 1; cli_op_t o = W->mk_op(Msg(), COP_SLEEP); *op = o; op->kind = COP_SLEEP; op->sleep_ns = S->now < fin ? fin - S->now : 1; return; }
        if (p == 1) { p = 2; Rng r(W->seed, 0x508, n->id); Msg m = W->gen_request(r, true); *op = W->mk_op(m); op->id += 500000; return; }
        op->kind = COP_END; };
    w.on_result = [W](Node *n, const cli_op_t *op, long ret, const Msg &, const Msg &resp) {
        if (op->id > 500000) { W->stat["post_restart_op"]++; if (ret != 0) W->v("S08", "client " + n->name + ": its next exchange with the restarted server failed with error " + std::to_string(-ret)); }
        if (ret == 0) { bool found = false; for (auto &i : W->inv) if (i.node == W->servers[0]->id && i.peer.ip == n->ip && i.resp.payload == resp.payload && i.resp.code() == resp.code()) found = true; if (!found && resp.code() != 402) W->v("S08", "client " + n->name + ": success reported with a response no incarnation of the server produced for it"); } };
    w.ntf = [](std::map<std::string, long> &s) { return s["crash"] > 0 && s["op_ok"] + s["op_err"] > 0; };
}
}
