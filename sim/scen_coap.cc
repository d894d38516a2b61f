// Message-layer scenarios: real client and server, scripted peers on either side.
#include "world.h"
#include "scen.h"
#include <errno.h>
namespace sim {
static Bytes rb(Rng &r, size_t n) { Bytes b; for (size_t i = 0; i < n; i++) b.push_back((char)r.next()); return b; }

void stalls(Rng &r) { if (r.chance(0.3)) { S->pf.stall = 0.003 + 0.02 * (r.below(100) / 100.0); S->pf.stall_max = r.chance(0.5) ? 100 * MS : 3 * SEC; } }
void partitions(World &w, Rng &r, ns_t horizon, std::vector<uint32_t> ips, double p) {
    if (!r.chance(p)) return;
    int n = (int)r.range(1, 3);
    for (int i = 0; i < n; i++) {
        uint32_t a = r.pick(ips), b = r.chance(0.5) ? 0 : r.pick(ips); ns_t t0 = r.range(0, horizon), t1 = t0 + r.range(100 * MS, 40 * SEC);
        w.plan_at(t0, [a, b]() { S->cut.push_back({a, b}); S->fault("partition"); });
        S->at(t1, [a, b]() { for (size_t k = 0; k < S->cut.size(); k++) if (S->cut[k] == std::make_pair(a, b)) { S->cut.erase(S->cut.begin() + k); S->fault("heal"); break; } });
    }
}
static const char *pick_img(World &w, Rng &r) { return r.chance(0.2) ? "plain6" : "plain4"; }

// ---------------------------------------------------------------- F1: clients and a server, all real
// a message ID that differs from another one by little
static unsigned near_mid(Rng &r, unsigned m) { switch (r.below(4)) { case 0: return (m + 1) & 0xffff; case 1: return m ^ (1u << r.below(16)); case 2: { unsigned x = (m >> 8 | m << 8) & 0xffff; return x == m ? m ^ 1 : x; } default: return (m + 256 * (unsigned)r.range(1, 255)) & 0xffff; } }
void f_clisrv(World &w) {
    Rng &r = w.rp; w.img = pick_img(w, r); Swarm::net(S->pf, r, (int)r.range(0, 2)); stalls(r);
    std::vector<std::string> seps; for (int i = 0; i < 5; i++) if (r.chance(0.4) && seps.size() < 3) seps.push_back("/r" + std::to_string(i)); if (r.chance(0.15)) seps.push_back(r.chance(0.5) ? "/" : "/r" + std::to_string(r.below(5)) + "/a");
    w.add_server(IP(10, 0, 0, 1), 5683, seps); w.start_server(w.servers[0]);
    int nc = (int)r.range(1, 3); std::vector<uint32_t> ips = {IP(10, 0, 0, 1)};
    if (r.chance(0.2)) { w.handler_slow = r.chance(0.5) ? 500 * MS : 6 * SEC; w.handler_slow_p = 0.3; }
    if (r.chance(0.15)) w.handler_err_p = 0.2;
    for (int i = 0; i < nc; i++) {
        uint32_t ip = IP(10, 0, 1, i + 1); ips.push_back(ip); Node *c = w.add_client(ip, w.saddr); int no = (int)r.range(1, 5);
        for (int k = 0; k < no; k++) {
            w.add_op(c, w.mk_op(w.gen_request(r, r.chance(0.75)))); if (r.chance(0.4)) w.add_sleep(c, r.chance(0.5) ? r.range(0, 3 * SEC) : r.range(0, 70 * SEC));
            if (r.chance(0.05)) { w.add_sleep(c, 0); w.scripts[c->id].ops.back().kind = COP_RECREATE; }
        }
        w.start_client(c, r.range(1 * MS, 3 * SEC));
    }
    partitions(w, r, 60 * SEC, ips, 0.25);
    w.ntf = [](std::map<std::string, long> &s) { return s["op_ok"] + s["op_err"] > 0 && s["handler_calls"] > 0; };
}

// ---------------------------------------------------------------- F2: real client, scripted server
struct F2K { double big = 0; double noise = 0.5, bad = 0.1, crit = 0.05; };
void f_cliraw(World &w) {
    Rng &r = w.rp; w.img = pick_img(w, r); Swarm::net(S->pf, r, (int)r.range(0, 2)); stalls(r);
    if (r.chance(0.4)) { S->pf.drop = std::min(S->pf.drop, 0.1); }
    F2K k; k.noise = r.chance(0.3) ? 0 : 0.8 * r.below(100) / 100.0; k.bad = r.chance(0.6) ? 0 : 0.2; k.crit = r.chance(0.7) ? 0 : 0.1; k.big = r.chance(0.8) ? 0 : 0.3;
    double p_ign = r.chance(0.5) ? 0.1 : 0.5; double p_sep = 0.2 + 0.6 * r.below(100) / 100.0;
    RawPeer *sp = w.add_raw(IP(10, 0, 0, 1), 5683); w.saddr = sp->a; RawPeer *evil = w.add_raw(IP(10, 0, 0, 66), 5683);
    struct St { int n = 0; std::vector<Bytes> replies; Bytes prev_token; unsigned prev_mid = 0; Bytes tok; unsigned mid = 0; std::map<unsigned, int> seen; };
    auto st = std::make_shared<St>(); World *W = &w;
    sp->on = [W, st, evil, k, p_ign, p_sep](RawPeer &p, Addr from, const Bytes &d) {
        Msg q; if (ref::parse(d, q) != ref::OK || !q.request()) return;
        int n = st->n++; Rng r(W->seed, 0xf2, n); RawPeer *me = &p; RawPeer *ev = evil;
        auto say = [W, me, from](ns_t dly, const Bytes &b) { S->after(dly, [W, me, from, b]() { W->raw_send(me, from, b); }); };
        if (q.token != st->tok || q.mid != st->mid) { st->prev_token = st->tok; st->prev_mid = st->mid; st->tok = q.token; st->mid = q.mid; }
        int tries = ++st->seen[q.mid];
        auto other_mid = [&]() { if (r.chance(0.3)) return near_mid(r, q.mid); unsigned m; do m = (unsigned)r.below(65536); while (m == q.mid); return m; };
        auto other_tok = [&]() { Bytes t = rb(r, r.chance(0.5) ? q.token.size() : r.below(9)); if (t == q.token) t = t.empty() ? "x" : t.substr(1); if (r.chance(0.3) && !q.token.empty()) { t = q.token; if (r.chance(0.5)) t[r.below(t.size())] ^= (char)(1 << r.below(8)); else if (r.chance(0.5)) t.pop_back(); else if (t.size() < 8) t.push_back('z'); else t.pop_back(); } return t; };
        auto body = [&]() { Msg m = W->gen_response(r, n); if (r.chance(k.big)) m.payload = rb(r, r.chance(0.5) ? (size_t)r.range(1140, 1160) : (size_t)r.range(1100, 2000)); return m; };
        // noise that must be ignored or rejected
        while (r.chance(k.noise)) {
            Msg m = body(); ns_t at = r.range(0, r.chance(0.7) ? 500 * MS : 20 * SEC); W->stat["noise"]++;
            switch (r.below(12)) {
            case 0: m.type = ref::CON; m.mid = other_mid(); m.token = other_tok(); break;
            case 1: m.type = ref::NON; m.mid = other_mid(); m.token = other_tok(); break;
            case 2: m.type = ref::ACK; m.mid = other_mid(); m.token = other_tok(); break;
            case 3: m = Msg(); m.type = ref::ACK; m.mid = other_mid(); break;
            case 4: m = Msg(); m.type = ref::RST; m.mid = other_mid(); break;
            case 5: m = Msg(); m.type = ref::CON; m.mid = other_mid(); break;                       // ping
            case 6: m.type = r.chance(0.5) ? ref::CON : ref::NON; m.cls = 0; m.det = (int)r.range(1, 4); m.mid = other_mid(); m.token = other_tok(); break; // a request
            case 7: if (st->prev_token.empty()) continue; m.type = r.chance(0.5) ? ref::CON : ref::NON; m.mid = r.chance(0.5) ? st->prev_mid : other_mid(); m.token = st->prev_token; if (m.mid == q.mid) continue; break;
            case 8: if (st->prev_token.empty() || st->prev_mid == q.mid) continue; m.type = ref::ACK; m.mid = st->prev_mid; m.token = st->prev_token; break;
            case 9: if (st->replies.empty()) continue; { Bytes b = st->replies[r.below(st->replies.size())]; Msg z; if (ref::parse(b, z) != ref::OK || z.token == q.token || z.mid == q.mid) continue; say(at, b); } continue;
            case 10: { m.type = r.chance(0.5) ? ref::ACK : ref::CON; m.mid = m.type == ref::ACK ? q.mid : other_mid(); m.token = q.token; Bytes b = ref::build(m); S->after(at, [W, ev, from, b]() { W->raw_send(ev, from, b); }); } continue; // right token, wrong sender
            default: m = Msg(); m.type = ref::RST; m.mid = st->prev_mid; if (!m.mid || m.mid == q.mid) continue; break;
            }
            say(at, ref::build(m));
        }
        if (r.chance(k.bad)) { Msg m = body(); m.type = (int)r.below(4); m.mid = r.chance(0.5) ? q.mid : other_mid(); m.token = q.token; Bytes b = ref::build(m); int how = (int)r.below(9);
            if (how >= 6) { // empty messages carrying what an empty message must not, and resets that are not empty
                Msg e; e.mid = r.chance(0.8) ? q.mid : m.mid; e.type = (int)r.below(4); b = ref::build(e);
                int what = (int)r.below(4); if (what == 0) { Bytes t = q.token.empty() ? Bytes("t") : q.token; b[0] = (char)((b[0] & 0xf0) | t.size()); b += t; } else if (what == 1) b += "\xff" + rb(r, r.range(1, 8)); else if (what == 2) b += r.chance(0.5) ? Bytes("\x60", 1) : Bytes("\xc1\x2a", 2); else { b = ref::build(m); b[0] = (char)((b[0] & 0xcf) | (ref::RST << 4)); b[2] = (char)(q.mid >> 8); b[3] = (char)q.mid; }
            } else if (how == 0) b = rb(r, r.below(40)); else if (how == 1) b.resize(r.below(b.size())); else if (how == 2) b[0] = (char)((b[0] & 0x3f) | (r.below(4) << 6)); else if (how == 3) b[1] = (char)r.next(); else if (how == 4) b += "\xff"; else b[r.below(b.size())] ^= (char)(1 << r.below(8));
            W->stat["bad_sent"]++; say(r.range(0, 2 * SEC), b); }
        if (r.chance(p_ign) && tries < 5) return;
        Msg m = body(); m.token = q.token; ns_t d1 = r.chance(0.7) ? r.range(0, 300 * MS) : r.range(0, 8 * SEC);
        if (r.chance(k.crit)) m.add(r.chance(0.5) ? 9 : 2049, "c");
        if (r.chance(0.06)) { Msg z; z.type = ref::RST; z.mid = q.mid; st->replies.push_back(ref::build(z)); say(d1, ref::build(z)); return; }
        if (q.type == ref::CON && !r.chance(p_sep)) { m.type = ref::ACK; m.mid = q.mid; Bytes b = ref::build(m); st->replies.push_back(b); say(d1, b); if (r.chance(0.3)) say(d1 + r.range(0, 5 * SEC), b); return; }
        // separate response
        if (q.type == ref::CON && r.chance(0.85)) { Msg a; a.type = ref::ACK; a.mid = q.mid; say(d1, ref::build(a)); if (r.chance(0.2)) say(d1 + r.range(0, 3 * SEC), ref::build(a)); }
        if (r.chance(0.07)) return;
        m.type = r.chance(0.7) ? ref::CON : ref::NON; m.mid = r.chance(0.08) ? q.mid : other_mid(); ns_t d2 = d1 + (r.chance(0.8) ? r.range(0, 4 * SEC) : r.range(20 * SEC, 40 * SEC)); if (r.chance(0.1)) d2 = d1 > 50 * MS ? d1 - 50 * MS : 0;
        Bytes b = ref::build(m); st->replies.push_back(b); say(d2, b); if (r.chance(0.4)) say(d2 + r.range(1, 6 * SEC), b);
    };
    int nc = r.chance(0.8) ? 1 : 2;
    for (int i = 0; i < nc; i++) { Node *c = w.add_client(IP(10, 0, 1, i + 1), w.saddr); int no = (int)r.range(1, 6);
        Msg last; bool again = false; double p_re = r.chance(0.5) ? 0 : 0.5;
        for (int j = 0; j < no; j++) { Msg q = again ? last : w.gen_request(r, r.chance(0.75)); cli_op_t o = w.mk_op(q); o.reuse = again; again = r.chance(p_re); o.keep = again; last = q; w.add_op(c, o); if (r.chance(0.3)) w.add_sleep(c, r.range(0, 40 * SEC)); }
        w.start_client(c, r.range(1 * MS, 2 * SEC)); }
    if (r.chance(0.2)) S->pf.spur = 0.02 + 0.3 * r.below(100) / 100.0;
    w.ntf = [](std::map<std::string, long> &s) { return s["op_ok"] + s["op_err"] > 0; };
}

// ---------------------------------------------------------------- F3: real server, scripted clients
struct F3K { int nmin = 1, nmax = 12; double dup = 0.2, sep = 0.4, bad = 0.1, stray = 0.1, crit = 0.08; bool rate_slow = false; };
static void f3(World &w, F3K k) {
    Rng &r = w.rp; w.img = pick_img(w, r); Swarm::net(S->pf, r, (int)r.range(0, 1)); stalls(r); if (r.chance(0.3)) S->pf.delay_max = std::min(S->pf.delay_max, 4 * SEC);
    std::vector<std::string> seps; for (int i = 0; i < 5; i++) if (r.chance(k.sep) && seps.size() < 4) seps.push_back("/r" + std::to_string(i)); if (seps.size() < 4 && r.chance(0.15)) seps.push_back(r.chance(0.5) ? "/" : "/r" + std::to_string(r.below(5)) + "/a");
    w.add_server(IP(10, 0, 0, 1), 5683, seps); w.start_server(w.servers[0]);
    if (r.chance(0.15)) { w.handler_slow = 3 * SEC; w.handler_slow_p = 0.2; } if (r.chance(0.1)) w.handler_err_p = 0.2;
    int nc = (int)r.range(k.nmin, r.chance(0.4) ? k.nmax : std::min(k.nmax, std::max(k.nmin, 3))); World *W = &w;
    ns_t span = r.chance(0.5) ? 20 * SEC : 120 * SEC; double p_ack = r.chance(0.3) ? 1 : r.below(100) / 100.0, p_rst = r.chance(0.7) ? 0 : 0.3; unsigned shared_mid = r.chance(0.3) ? (unsigned)r.below(65536) : 70000;
    for (int i = 0; i < nc; i++) {
        bool samehost = i > 0 && r.chance(0.4);
        RawPeer *p = samehost ? w.add_raw(w.raws[i - 1]->a.ip, w.raws[i - 1]->a.port + 1) : w.add_raw(IP(10, 0, 2, i + 1), 40000 + (r.chance(0.5) ? 0 : i)); auto cnt = std::make_shared<int>(0);
        p->on = [W, cnt, p_ack, p_rst](RawPeer &me, Addr from, const Bytes &d) {
            Msg m; if (ref::parse(d, m) != ref::OK || m.type != ref::CON || !m.response()) return;
            Rng r(W->seed, 0xf3ac, me.idx, (*cnt)++); RawPeer *P = &me; Msg a; a.mid = m.mid; if (r.chance(0.05)) { a.mid = near_mid(r, m.mid); W->stat["wrong_ack"]++; }
            if (r.chance(p_rst)) a.type = ref::RST; else if (r.chance(p_ack)) a.type = ref::ACK; else return;
            ns_t dl = r.chance(0.7) ? r.range(0, 200 * MS) : r.range(0, 12 * SEC); Bytes b = ref::build(a); S->after(dl, [W, P, from, b]() { W->raw_send(P, from, b); }); };
        int nd = (int)r.range(1, r.chance(0.3) ? 25 : 8); ns_t t = r.range(1 * MS, span / 2); auto last = std::make_shared<std::vector<Bytes>>(); std::set<unsigned> used; auto next_mid = [&used](Rng &r, unsigned m) { unsigned n = r.chance(0.8) ? (m + 1) & 0xffff : near_mid(r, m & 0xffff); while (used.count(n)) n = (n + 1) & 0xffff; used.insert(n); return n; }; unsigned mid = shared_mid < 70000 ? shared_mid : (unsigned)r.below(65536);
        for (int j = 0; j < nd; j++) {
            Bytes b; double x = r.below(1000) / 1000.0;
            if (x < k.dup && !last->empty()) { b = r.chance(0.85) ? last->back() : last->at(r.below(last->size())); }
            else if ((x -= k.dup) < k.bad) {
                Msg m = w.gen_request(r, r.chance(0.6)); mid = next_mid(r, mid); m.mid = mid; m.token = rb(r, r.below(9)); b = ref::build(m); w.stat["bad_sent"]++;
                switch (r.below(9)) { case 0: b = rb(r, r.below(60)); break; case 1: b.resize(r.below(b.size() + 1)); break; case 2: b[0] = (char)((b[0] & 0x3f) | (r.below(4) << 6)); break; case 3: b[0] = (char)((b[0] & 0xf0) | r.range(9, 15)); break; case 4: b[1] = (char)r.next(); break; case 5: b += "\xff"; break;
                    case 6: { Msg e; e.type = ref::CON; e.mid = mid & 0xffff; b = ref::build(e); if (r.chance(0.6)) b += rb(r, r.range(1, 5)); } break;
                    case 7: if (b.size() > 4) b[4 + r.below(b.size() - 4)] ^= (char)(1 << r.below(8)); break; default: b += rb(r, r.range(1200, 1400)); b[0] = (char)((b[0] & 0xcf) | (r.below(2) << 4)); break; }
            } else if ((x -= k.bad) < k.stray) { Msg m; m.type = (int)r.range(2, 3); m.mid = (unsigned)(r.chance(0.5) ? mid & 0xffff : r.below(65536)); int h = (int)r.below(4); if (h == 0) { m = w.gen_response(r, j); m.type = (int)r.below(3); m.mid = (mid + 1000) & 0xffff; m.token = rb(r, 4); } if (h == 1 && !last->empty()) { Msg z; ref::parse(last->back(), z); m = Msg(); m.type = (int)r.range(2, 3); m.mid = z.mid; } b = ref::build(m); w.stat["stray_sent"]++; }
            else { Msg m = w.gen_request(r, r.chance(0.75), 600); mid = next_mid(r, mid); m.mid = mid; m.token = rb(r, r.below(9)); if (r.chance(k.crit)) m.add(r.chance(0.5) ? 9 : 65001, rb(r, r.below(5))); b = ref::build(m); if (b.size() > 1152) continue; last->push_back(b); }
            RawPeer *P = p; w.plan_at(t, [W, P, b]() { W->raw_send(P, W->saddr, b); });
            t += r.chance(0.3) ? r.range(0, 5 * MS) : r.chance(0.8) ? r.range(0, 2 * SEC) : r.range(0, span / 2);
        }
    }
    if (r.chance(0.2)) { std::vector<uint32_t> ips = {IP(10, 0, 0, 1)}; for (auto &p : w.raws) ips.push_back(p->a.ip); partitions(w, r, span, ips, 1); }
    w.ntf = [](std::map<std::string, long> &s) { return s["srv_recv"] > 0 && s["requests"] > 0; };
}
void f_srvraw(World &w) { f3(w, F3K()); }
static void f_srvraw_dup(World &w) { F3K k; k.dup = 0.5; k.bad = 0.05; k.stray = 0.12; k.nmax = 8; f3(w, k); }
static void f_srvraw_sep(World &w) { F3K k; k.sep = 0.8; k.bad = 0.03; k.dup = 0.1; k.nmax = 8; f3(w, k); }
static void f_srvraw_many(World &w) { F3K k; k.nmin = w.rp.chance(0.5) ? 9 : 4; k.nmax = 12; k.dup = 0.25; f3(w, k); }
static void f_srvraw_bad(World &w) { F3K k; k.bad = 0.4; k.stray = 0.15; k.crit = 0.3; k.nmax = 6; f3(w, k); }

static bool mix_of(World &w, double p) { return w.rp.chance(p); }
void p_client(World &w) {
    if (w.prop == "C03" && w.rp.chance(0.2)) { sysfaults(w.rp, false); if (w.rp.chance(0.5)) { S->pf.sysfail.clear(); S->pf.sysfail.push_back({SYS_TIMERFD_SETTIME, {EINVAL}}); } }
    if (mix_of(w, 0.35)) f_clisrv(w); else f_cliraw(w); }
void p_S01(World &w) { if (mix_of(w, 0.25)) f_clisrv(w); else f_srvraw(w); }
void p_S02(World &w) { if (mix_of(w, 0.15)) f_clisrv(w); else f_srvraw_dup(w); }
void p_S03(World &w) { if (mix_of(w, 0.15)) f_clisrv(w); else f_srvraw_sep(w); }
void p_S04(World &w) { if (w.rp.below(100) < 12) f_blockpeers(w); else f_srvraw_many(w); }
void p_S07(World &w) { if (w.rp.below(100) < 12) f_blockpeers(w); else f_srvraw_bad(w); }
}
