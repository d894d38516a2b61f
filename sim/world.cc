#include "world.h"
#include <arpa/inet.h>
#include <errno.h>
#include <stdarg.h>
#include <array>
namespace sim {
static std::string fmt(const char *f, ...) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
uint32_t IP(int a, int b, int c, int d) { return ((uint32_t)a << 24) | (b << 16) | (c << 8) | d; }

void app_to_ref(const app_msg_t *a, Msg &m) {
    m = Msg(); m.ver = a->ver; m.type = a->type; m.cls = a->code_class; m.det = a->code_detail; m.mid = a->msg_id; m.token.assign((const char *)a->token, std::min(8u, a->token_len));
    for (unsigned i = 0; i < a->num_ops; i++) m.ops.push_back({a->op[i].num, Bytes((const char *)a->vals + a->op[i].off, a->op[i].len)});
    m.payload.assign((const char *)a->payload, a->payload_len);
}
void ref_to_app(const Msg &m, app_msg_t *a) {
    memset(a, 0, offsetof(app_msg_t, op)); a->ver = 1; a->type = m.type; a->code_class = m.cls; a->code_detail = m.det; a->msg_id = m.mid; a->token_len = m.token.size(); memcpy(a->token, m.token.data(), m.token.size());
    a->vals_len = 0;
    for (auto &o : m.ops) { if (a->num_ops >= APP_MAX_OPS || a->vals_len + o.val.size() > APP_MAX_VALS) break; a->op[a->num_ops].num = o.num; a->op[a->num_ops].len = o.val.size(); a->op[a->num_ops].off = a->vals_len; memcpy(a->vals + a->vals_len, o.val.data(), o.val.size()); a->vals_len += o.val.size(); a->num_ops++; }
    a->payload_len = m.payload.size(); memcpy(a->payload, m.payload.data(), m.payload.size());
}
Addr parse_peer(const char *p) {
    Addr a; std::string s(p); size_t k = s.find('|'); if (k == std::string::npos) return a; a.port = (uint16_t)atoi(s.c_str() + k + 1); s.resize(k);
    unsigned char b[16]; if (inet_pton(AF_INET, s.c_str(), b) == 1) a.ip = (b[0] << 24) | (b[1] << 16) | (b[2] << 8) | b[3]; else if (inet_pton(AF_INET6, s.c_str(), b) == 1) a.ip = (b[12] << 24) | (b[13] << 16) | (b[14] << 8) | b[15];
    return a;
}
static std::vector<ref::Opt> sorted(std::vector<ref::Opt> o) { std::stable_sort(o.begin(), o.end(), [](const ref::Opt &a, const ref::Opt &b) { return a.num < b.num; }); return o; }
static std::string diff(const Msg &a, const Msg &b) { // observable content
    if (a.cls != b.cls || a.det != b.det) return fmt("code %d.%02d instead of %d.%02d", a.cls, a.det, b.cls, b.det);
    auto x = sorted(a.ops), y = sorted(b.ops);
    if (x.size() != y.size()) return fmt("%zu options instead of %zu", x.size(), y.size());
    for (size_t i = 0; i < x.size(); i++) if (!(x[i] == y[i])) return fmt("option #%zu is (%u,len %zu) instead of (%u,len %zu)", i, x[i].num, x[i].val.size(), y[i].num, y[i].val.size()) + (x[i].num == y[i].num && x[i].val.size() == y[i].val.size() ? " (value differs)" : "");
    if (a.payload != b.payload) { size_t i = 0; while (i < a.payload.size() && i < b.payload.size() && a.payload[i] == b.payload[i]) i++; return fmt("payload differs at byte %zu (lengths %zu and %zu)", i, a.payload.size(), b.payload.size()); }
    return "";
}

// ================================================================ server model
void SrvModel::bad(const char *props, const std::string &m) { w->v(props, "server " + n->name + ": " + m); }
static int64_t secs(ns_t t) { return t >= 0 ? t / SEC : -1; }
void SrvModel::evict(const Addr *self) { // self: a client that may or may not still be tracked
    // Which clients may the server forget to make room?  Only one that is not more recently active (to one second) than any client it surely still tracks.
    if (t.size() < (self ? 9 : 8)) return;
    size_t sure = 0; ns_t mn = INT64_MAX; for (auto &p : t) if (!p.second.unsure) { sure++; mn = std::min(mn, p.second.last); }
    std::vector<Addr> c; for (auto &p : t) if ((!self || p.first != *self) && (mn == INT64_MAX || secs(p.second.last - 50 * US) <= secs(mn + 50 * US))) c.push_back(p.first);
    nevict++;
    if (!self && sure == 8 && t.size() == 8 && c.size() == 1) { t.erase(c[0]); return; }
    for (auto &a : c) { t[a].unsure = true; t[a].pend_unsure = true; }
}
void SrvModel::ev(Ev &e) {
    if (!on || !n) return;
    if (e.k == EV_FAULT && e.node == n->id && e.tag && !strcmp(e.tag, "stall")) stall += e.a;
    if (e.k == EV_RECV && e.node == n->id) { timers(e.t); recv(e); }
    else if (e.k == EV_SEND && e.node == n->id) { send(e); timers(e.t); }
    else if (e.k == EV_DELIVER || e.k == EV_SEND) timers(e.t);
}
void SrvModel::timers(ns_t now) {
    for (auto &p : t) {
        T &x = p.second; if (!x.pend || x.pend_unsure) continue;
        ns_t lim = x.nretr == 0 ? 3 * SEC : (x.t0gap << x.nretr); ns_t slack = 60 * MS + (stall - x.tx_stall) + (x.t0gap ? (x.t0gap >> 6) : 0);
        if (n->stalled_until > now) slack += n->stalled_until - now;
        if (x.nretr >= 4 && now > x.tx + (x.t0min << x.nretr) - slack) { x.unsure = true; x.pend_unsure = true; }   // the server gives up and forgets the client around now
        if (now > x.tx + lim + slack) {
            if (x.nretr >= 4) { x.pend = false; x.unsure = true; continue; }
            bad("S03,S04", fmt("separate response mid=%u to %s not retransmitted (retransmission #%d due by %.3f s, now %.3f s)", x.pmid, p.first.str().c_str(), x.nretr + 1, (x.tx + lim) / 1e9, now / 1e9)); x.pend = false; return;
        }
    }
}
void SrvModel::settle(bool end) {
    if (!cur.active) return;
    Exp c = std::move(cur); cur = Exp();
    if (c.loose) return;
    if (c.h_must && !c.h_called && !c.maybe_dup) { bad(c.dup ? "S02" : "S01,S04,S07", fmt("well-formed request (%s, path %s) from %s did not reach the application", c.m.str().c_str(), c.m.path().c_str(), c.from.str().c_str())); return; }
    if (c.h_err) { drop(c.from); return; }
    for (auto &s : c.sends) {
        if (s.kind == E_RESP && c.maybe_dup && !c.h_called) continue;
        const char *what = s.kind == E_ACK ? "empty acknowledgement" : s.kind == E_RST ? "reset" : s.kind == E_SAME ? "repeated reply" : "response";
        bad(s.props, fmt("no %s sent for %s from %s%s", what, c.m.str().c_str(), c.from.str().c_str(), c.dup ? " (duplicate)" : "")); return;
    }
}
void SrvModel::recv(Ev &e) {
    settle(); nrecv++;
    cur = Exp(); cur.active = true; cur.from = e.from; cur.data = e.data; cur.seq = nrecv;
    for (auto &p : t) if (p.first != e.from) p.second.others_since++;
    bool known = t.count(e.from) > 0; bool oversize = e.data.size() > 1152;
    ref::Stat st = ref::parse(e.data, cur.m); Msg &m = cur.m;
    cur.isnew = !known; cur.hprops = "S07";
    if (!known) evict(nullptr); else if (t[e.from].unsure) evict(&e.from);
    if (oversize) { cur.hprops = "S07,M01"; }
    if (st == ref::OTHER_VERSION) return;
    if (st != ref::OK || oversize) {
        if (st != ref::TOO_SHORT && m.ver == 1 && m.type == ref::CON) { cur.sends.push_back({E_RST, m.mid, 0, "", false, Msg(), "", "S07"}); nrst++; }
        return;
    }
    T *x = known ? &t[e.from] : nullptr;
    bool samemid = x && x->have && x->mid == m.mid;
    if (x) x->last = e.t;
    if (m.type == ref::ACK || m.type == ref::RST) {
        if (x && x->pend && x->pmid == m.mid) { x->pend = false; nacked++; }
        return;
    }
    if (!m.request()) { // response class or empty CON
        if (samemid) { cur.loose = true; return; }
        if (m.type == ref::CON) { cur.sends.push_back({E_RST, m.mid, 0, "", false, Msg(), "", "S07,S01"}); nrst++; }
        return;
    }
    cur.sep = m.type == ref::CON && is_sep(m);
    if (m.path().find('\0') != std::string::npos) { cur.loose = true; cur.h_may = true; if (x) { x->unsure = x->pend_unsure = true; x->have = false; x->replied = false; } else { T &y = t[e.from]; y.last = e.t; y.unsure = y.pend_unsure = true; } return; }
    if (samemid && x->req != e.data) { cur.loose = true; x->unsure = true; x->pend_unsure = true; cur.h_may = true; x->req = e.data; x->replied = false; return; }
    if (samemid) {
        ndup++; cur.dup = true; cur.hprops = "S02,S04";
        const char *pr = x->others_since ? "S02,S04" : "S02";
        cur.maybe_dup = x->unsure;
        if (cur.maybe_dup) { cur.h_may = true; cur.h_must = false; cur.loose = true; return; }
        if (m.type == ref::NON) return;
        if (cur.sep) cur.sends.push_back({E_ACK, m.mid, 0, "", false, Msg(), "", pr});
        else if (x->replied) cur.sends.push_back({E_SAME, m.mid, 0, "", false, Msg(), x->reply, pr});
        return;
    }
    // a new request
    nreq++; cur.hprops = "S01";
    T &y = t[e.from]; if (!known) { y.last = e.t; }
    y.pend = false; y.have = true; y.mid = m.mid; y.req = e.data; y.sep = cur.sep; y.con = m.type == ref::CON; y.replied = false; y.reply.clear(); y.unsure = false; y.pend_unsure = false; y.others_since = 0;
    if (cur.sep) cur.sends.push_back({E_ACK, m.mid, 0, "", false, Msg(), "", "S01,S04"});
    ES r{E_RESP, m.mid, m.type == ref::NON ? ref::NON : cur.sep ? ref::CON : ref::ACK, m.token, false, Msg(), "", "S01,S04"};
    unsigned bo = ref::bad_critical(m);
    if (bo) { n402++; r.content = true; r.want.cls = 4; r.want.det = 2; r.props = "S07"; cur.hprops = "S07"; cur.sends.push_back(r); return; }
    cur.sends.push_back(r);
    cur.bw = y.bw; if (y.bw) { cur.h_may = true; } else { cur.h_must = cur.h_may = true; }
}
void SrvModel::handle(Addr a, const app_msg_t *q) {
    if (!on) return;
    if (!cur.active || cur.from != a) { bad("S01,S04", fmt("application invoked for %s without a request from it", a.str().c_str())); return; }
    if (cur.loose && cur.dup) { // unsure duplicate executed again: the client had been evicted
        T &y = t[a]; y.pend = false; y.pend_unsure = true; y.unsure = true; cur.h_called = true; cur.sends.clear(); return;      // with it any response that was still to be retransmitted
    }
    if (cur.data.size() > 1152) { if (1) bad("S07,M01", fmt("a datagram of %zu bytes, longer than a message can be, was cut off and passed to the application", cur.data.size())); return; }
    if (cur.loose) return;
    if (!cur.h_may) { bad(cur.hprops, fmt("application invoked for a %s from %s: %s", cur.dup ? "duplicate request" : "message it must not see", a.str().c_str(), cur.m.str().c_str())); return; }
    if (cur.h_called) { bad("S01,S02", "application invoked twice for one request"); return; }
    cur.h_called = true; Msg g; app_to_ref(q, g);
    if (q->overflow) return;
    std::string d = diff(g, cur.m);
    if (!d.empty()) { bad("M01,S07", fmt("request from %s reached the application altered: ", a.str().c_str()) + d); return; }
    if (g.token != cur.m.token || g.type != cur.m.type || g.mid != cur.m.mid) { bad("M01,S01", "request reached the application with another token, type or message ID"); return; }
}
void SrvModel::handled(Addr a, const app_act_t *act) {
    if (!on || !cur.active || cur.from != a || cur.loose) return;
    T &y = t[a];
    if (act->mode == 2) { cur.h_err = true; for (auto it = cur.sends.begin(); it != cur.sends.end();) { if (it->kind == E_RESP) it = cur.sends.erase(it); else ++it; } return; }
    if (act->mode == 1) { y.bw = true; cur.bw = true; return; }
    for (auto &s : cur.sends) if (s.kind == E_RESP && act->mode == 0) { s.content = true; app_to_ref(&act->resp, s.want); s.want.ops = sorted(s.want.ops); s.props = "S01,S04,M01"; }
    // a response that cannot fit a datagram is refused
    for (auto it = cur.sends.begin(); it != cur.sends.end(); ++it) if (it->kind == E_RESP && it->content) { Msg z = it->want; z.token = it->token; if (ref::build(z).size() > 1152) { cur.h_err = true; cur.sends.erase(it); break; } }
}
void SrvModel::send(Ev &e) {
    Msg m; ref::Stat st = ref::parse(e.data, m);
    auto tit = t.find(e.to); if (tit != t.end()) tit->second.last = e.t;
    if (cur.active && cur.loose && e.to == cur.from && !(tit != t.end() && tit->second.pend && tit->second.presp == e.data)) {
        // unsure duplicate or reused ID: remember what was sent so later checks stay sound
        if (tit != t.end()) { tit->second.replied = false; tit->second.unsure = true; tit->second.pend_unsure = true; }
        return;
    }
    if (cur.active && !cur.sends.empty()) {
        ES s = cur.sends.front();
        if (e.to != cur.from) { bad("S01,S04", fmt("reply to %s sent to %s instead", cur.from.str().c_str(), e.to.str().c_str())); return; }
        if (st != ref::OK) { bad("S01,M01", "server sent a malformed datagram: " + hex(e.data)); return; }
        if (s.kind == E_ACK) { if (m.type != ref::ACK || !m.empty() || m.mid != s.mid) { bad(s.props, fmt("expected an empty acknowledgement with mid=%u, got %s", s.mid, m.str().c_str())); return; } }
        else if (s.kind == E_RST) { if (m.type != ref::RST || !m.empty() || m.mid != s.mid) { bad(s.props, fmt("expected a reset with mid=%u, got %s", s.mid, m.str().c_str())); return; } }
        else if (s.kind == E_SAME) { if (e.data != s.same) { bad(s.props, fmt("duplicate request mid=%u answered differently: %s", s.mid, m.str().c_str())); return; } }
        else {
            T &y = t[e.to];
            if (m.type != s.type) { bad(s.props, fmt("response has the wrong message type: %s (expected type %d)", m.str().c_str(), s.type)); return; }
            if (!m.response()) { bad(s.props, "response without a response code: " + m.str()); return; }
            if (m.token != s.token) { bad(s.props, fmt("response token %s differs from the request's %s", hex(m.token).c_str(), hex(s.token).c_str())); return; }
            if (s.type == ref::ACK && m.mid != s.mid) { bad(s.props, fmt("piggybacked response mid=%u for request mid=%u", m.mid, s.mid)); return; }
            if (s.type != ref::ACK) { for (unsigned o : y.own_mids) if (o == m.mid) { bad("S01,S03", fmt("message ID %u reused for a different message to %s", m.mid, e.to.str().c_str())); return; } y.own_mids.push_back(m.mid); }
            if (s.content) {
                if (s.want.code() == 402 && cur.hprops[2] == '7') { if (m.code() != 402) { bad("S07", fmt("request with unrecognised critical option answered %d.%02d instead of 4.02", m.cls, m.det)); return; } }
                else { std::string d = diff(m, s.want); if (!d.empty()) { bad(s.props, "response on the wire is not what the application produced: " + d); return; } }
            }
            y.reply = e.data; y.replied = true;
            if (s.type == ref::CON) { y.pend = true; y.presp = e.data; y.pmid = m.mid; y.nretr = 0; y.tx = e.t; y.t0gap = y.t0min = 0; y.tx_stall = stall; y.pend_unsure = false; }
        }
        cur.sends.pop_front(); return;
    }
    // not a direct reply: only a pending separate response may be retransmitted
    if (tit != t.end() && tit->second.pend && tit->second.presp == e.data) {
        T &x = tit->second; ns_t gap = e.t - x.tx; ns_t slack = 5 * MS + (stall - x.tx_stall); nretrans++;
        if (x.pend_unsure) { x.pend_unsure = false; x.unsure = false; }
        if (x.nretr >= 4) { bad("S03", fmt("separate response mid=%u retransmitted a %dth time", x.pmid, x.nretr + 1)); return; }
        if (x.nretr == 0) { if (gap < 2 * SEC - slack || gap > 3 * SEC + slack) { bad("S03", fmt("first retransmission of mid=%u after %.3f s", x.pmid, gap / 1e9)); return; } x.t0gap = x.t0min = gap; }
        else { ns_t want = x.t0gap << x.nretr; ns_t tol = slack + (stall ? (stall << x.nretr) : 0) + want / 1000; if (gap < want - tol || gap > want + tol) { bad("S03", fmt("retransmission #%d of mid=%u after %.3f s, expected %.3f s", x.nretr + 1, x.pmid, gap / 1e9, want / 1e9)); return; } }
        x.t0min = std::min(x.t0min, gap >> x.nretr); x.nretr++; x.tx = e.t; x.tx_stall = stall; return;   // (a busy server can be late: the shortest gap tells its time-out)
    }
    if (tit != t.end() && tit->second.unsure) return;
    bool maybe_retrans = tit != t.end() && tit->second.replied && tit->second.reply == e.data;
    std::string lab = maybe_retrans ? "S03,S01" : "S01,S03,S04"; if (cur.active && e.to == cur.from && (cur.dup || !cur.h_may)) lab += cur.dup ? ",S02" : ",S07";
    bad(lab.c_str(), fmt("unsolicited datagram to %s: %s", e.to.str().c_str(), st == ref::OK ? m.str().c_str() : hex(e.data).c_str()));
}

// ================================================================ client model
void CliModel::bad(const char *props, const std::string &m) { w->v(props, "client " + n->name + fmt(" op %d: ", op.id) + m); }
void CliModel::begin(const cli_op_t *o) { op = *o; in_op = true; started = false; active = false; t_start = S->now; start_stall = stall; sysfault = false; subex = 0; owed.clear(); succ = false; must_err = 0; may_fail = loose = early = false; }
void CliModel::endsub() {
    if (!owed.empty() && !loose) { bad("C04", fmt("no %s sent for received confirmable message mid=%u", owed.front().type == ref::ACK ? "acknowledgement" : "reset", owed.front().mid)); }
    owed.clear(); active = false;
}
void CliModel::ev(Ev &e) {
    if (!on || !n || e.node != n->id) return;
    if (e.k == EV_FAULT && e.tag && !strcmp(e.tag, "stall")) stall += e.a;
    if (e.k == EV_FAULT && e.tag && (!strcmp(e.tag, "sysfail") || !strcmp(e.tag, "pool_fail") || !strcmp(e.tag, "malloc_fail"))) sysfault = true;
    if (e.k == EV_SEND) send(e); else if (e.k == EV_RECV) recv(e);
}
void CliModel::newreq(Ev &e, const Msg &m) {
    if (active) { if (!succ && !loose && !sysfault) bad("C01,C02", "a new request was sent while the previous one had neither been answered nor failed"); endsub(); }
    if (op.kind == COP_EXCHANGE && subex > 0) { bad("C02", "a second request was sent within one exchange, differing from the first transmission"); return; }
    if (mids.count(m.mid) && e.t - mids[m.mid] < 247 * SEC) { bad("C01", fmt("message ID %u was reused for another request within the exchange lifetime", m.mid)); coincidence = true; }
    if (tokens.count(m.token)) coincidence = true;
    mids[m.mid] = e.t; tokens.insert(m.token);
    active = true; req = m; reqb = e.data; tx.assign(1, e.t); tx_stall.assign(1, stall); phase = m.type == ref::CON ? 0 : 2; succ = false; must_err = 0; may_fail = loose = early = false; owed.clear(); subex++; started = true;
    if (e.to != server) bad("C01", "request sent to another address than the server's");
    if (check_content && op.kind == COP_EXCHANGE) { Msg want; app_to_ref(&op.req, want); std::string d = diff(m, want); if (!d.empty()) bad("M01,C02", "request on the wire is not what the caller composed: " + d); if (m.type != (int)op.req.type) bad("M01,C02", "request sent with another message type"); }
}
void CliModel::send(Ev &e) {
    Msg m; ref::Stat st = ref::parse(e.data, m);
    if (!in_op) { bad("C04,C02", "datagram sent outside of any exchange"); return; }
    if (st != ref::OK) { bad("M01,C04", "client sent a malformed datagram: " + hex(e.data)); return; }
    if (m.type == ref::ACK || m.type == ref::RST) {
        if (loose) return;
        if (!m.empty()) { bad("C04", "client sent a non-empty acknowledgement or reset"); return; }
        if (owed.empty()) { bad("C04", fmt("unexpected %s mid=%u", m.type == ref::ACK ? "acknowledgement" : "reset", m.mid)); return; }
        if (owed.front().type != m.type || owed.front().mid != m.mid) { bad("C04", fmt("expected %s mid=%u, client sent %s", owed.front().type == ref::ACK ? "acknowledgement" : "reset", owed.front().mid, m.str().c_str())); return; }
        owed.pop_front(); return;
    }
    if (active && e.data == reqb) { // retransmission
        nretr++; ns_t gap = e.t - tx.back(); ns_t slack = 5 * MS + (stall - tx_stall.back()); size_t k = tx.size();
        if (req.type != ref::CON) { bad("C02", "non-confirmable request sent twice"); return; }
        if (resolved() || phase != 0) { bad("C02", "request retransmitted after it had been acknowledged, reset or answered"); return; }
        if (k > 4) { bad("C02", fmt("request transmitted %zu times", k + 1)); return; }
        if (k == 1) { if (gap < 2 * SEC - slack || gap > 3 * SEC + slack) bad("C02", fmt("first retransmission after %.3f s", gap / 1e9)); }
        else { ns_t want = (tx[1] - tx[0]) << (k - 1); ns_t tol = slack + ((stall - start_stall) << k) + want / 1000; if (gap < want - tol || gap > want + tol) bad("C02", fmt("retransmission #%zu after %.3f s, expected %.3f s", k, gap / 1e9, want / 1e9)); }
        tx.push_back(e.t); tx_stall.push_back(stall); return;
    }
    if (active && m.mid == req.mid && !resolved()) { bad("C02", "retransmission differs from the original transmission"); return; }
    newreq(e, m);
}
void CliModel::recv(Ev &e) {
    if (!in_op || !active) return;
    if (loose) return;
    if (!owed.empty()) { bad("C04", fmt("no %s sent for received confirmable message mid=%u", owed.front().type == ref::ACK ? "acknowledgement" : "reset", owed.front().mid)); owed.clear(); return; }
    if (resolved() && !may_fail) { bad("C01,C03", "the client went on reading after the exchange had been decided"); return; }
    Msg m; ref::Stat st = ref::parse(e.data, m);
    if (e.data.size() > 1152) { may_fail = true; unsigned char c = (unsigned char)e.data[0]; if (c >> 6 != 1) { loose = true; return; } if (((c >> 4) & 3) == ref::CON) { owed.push_back({ref::RST, (unsigned)((unsigned char)e.data[2] << 8 | (unsigned char)e.data[3])}); nrej++; } return; }
    if (st == ref::OTHER_VERSION) { may_fail = true; return; }
    if (st != ref::OK) { may_fail = true; if (st != ref::TOO_SHORT && m.type == ref::CON) { owed.push_back({ref::RST, m.mid}); nrej++; } return; }
    bool tok = m.response() && m.token == req.token; bool mid = m.mid == req.mid; bool crit = ref::bad_critical(m) != 0;
    if (!tok && !mid) nstale++;
    if (tok && !tx.empty()) for (size_t i = S->hist.size(); i-- > 0;) if (S->hist[i].k == EV_SEND && S->hist[i].t < tx[0] && S->hist[i].to == e.to && S->hist[i].data == e.data) { early = true; break; }
    if (m.type == ref::ACK) {
        if (mid) {
            if (m.request() && m.token == req.token) { loose = true; may_fail = true; }   // answer carrying a request code: not judged
            else if (phase == 0 && m.empty()) { phase = 1; t_ack = e.t; ack_stall = stall; }
            else if (phase == 0 && tok) { if (crit) may_fail = true; else { succ = true; succ_msg = m; t_succ = e.t; } }
            else if (phase == 1) { if (!m.empty()) loose = tok; if (tok) may_fail = true; }
            else may_fail = true;
        } else if (m.token == req.token && !m.empty()) may_fail = true;
    } else if (m.type == ref::RST) { if (mid) must_err = -ECONNRESET; }
    else if (m.type == ref::CON) {
        if (tok && !crit) { owed.push_back({ref::ACK, m.mid}); succ = true; succ_msg = m; t_succ = e.t; }
        else { owed.push_back({ref::RST, m.mid}); nrej++; if (tok) may_fail = true; if (m.request() && m.token == req.token && !req.token.empty()) { loose = true; may_fail = true; } }
    } else { // NON
        if (tok && !crit) { succ = true; succ_msg = m; t_succ = e.t; }
        else if (tok) may_fail = true; else if (m.request() && m.token == req.token) { loose = true; may_fail = true; }
    }
    if (coincidence) { loose = true; may_fail = true; }
}
void CliModel::result(long ret, const app_msg_t *resp) {
    if (!on) { in_op = false; return; }
    if (!in_op) return;
    ns_t el = S->now - t_start, st = stall - start_stall;
    if (ret <= -100000) { in_op = false; return; }
    if (active) endsub();
    in_op = false; active = false;
    if (op.kind == COP_EXCHANGE) {
        ns_t lim = (op.req.type == ref::CON ? 123 : 30) * SEC + 200 * MS + 4 * st;
        if (el > lim) { bad("C03", fmt("exchange took %.3f s", el / 1e9)); return; }
    }
    bool ok = op.kind == COP_EXCHANGE ? ret == 0 : ret >= 0;
    if (!started) { if (ok && !sysfault) bad("C01", "success reported although no request was sent"); return; }
    if (ok) {
        nsucc++;
        if (must_err && !loose) { bad("C01,C03", "success reported although the request had been reset"); return; }
        if (!succ && !loose) { bad("C01", "success reported without a response to this request having been received"); return; }
        if (succ && early) { bad("C01", "the returned response was sent before the request: it answers an earlier one"); return; }
        if (succ && !loose && resp) {
            Msg r; app_to_ref(resp, r); std::string d = resp->overflow ? "" : diff(r, succ_msg);
            if (!d.empty()) { bad("C01,M01", "returned response differs from the one received: " + d); return; }
            if (r.token != succ_msg.token) { bad("C01", "returned response carries another token"); return; }
        }
        return;
    }
    if (sysfault || loose) return;
    if (succ && !may_fail) { bad("C03,C01", fmt("exchange failed with error %ld although the response (%s) had been received in time", -ret, succ_msg.str().c_str())); return; }
    if (must_err) { nreset++; if (ret != must_err && !may_fail) bad("C03", fmt("reset request reported as error %ld", -ret)); return; }
    if (ret == -ETIMEDOUT) {
        ntimeout++; ns_t now = S->now; ns_t sl = 20 * MS + st * 40;
        if (may_fail && false) return;
        if (phase == 0) {
            if (tx.size() != 5) { bad("C02,C03", fmt("confirmable request given up after %zu transmissions", tx.size())); return; }
            ns_t want = (tx[1] - tx[0]) << 4, g = now - tx.back(); if (g < want - sl || g > want + sl + want / 1000) bad("C02,C03", fmt("gave up %.3f s after the last transmission, expected %.3f s", g / 1e9, want / 1e9));
        } else if (phase == 1) { ns_t g = now - t_ack; if (g < 30 * SEC - sl || g > 30 * SEC + sl) bad("C03", fmt("gave up waiting for the separate response after %.3f s", g / 1e9)); }
        else { ns_t g = now - tx[0]; if (g < 30 * SEC - sl || g > 30 * SEC + sl) bad("C03", fmt("gave up waiting for the response to a non-confirmable request after %.3f s", g / 1e9)); }
        // an answer that lay unread in the socket well before the deadline was missed
        for (auto &f : n->fds) if (f && f->kind == F_UDP && st == 0) for (auto &g : f->rxq) for (auto &h : S->hist) if (h.k == EV_DELIVER && h.pkt == g.pkt && h.node == n->id && S->now - h.t > 100 * MS) { Msg m; if (ref::parse(g.data, m) == ref::OK && m.response() && m.token == req.token && (m.type != ref::ACK || m.mid == req.mid)) { bad("C03", "timeout reported although the response had arrived"); return; } }
        return;
    }
    if (ret == -ECONNRESET) { bad("C03", "connection reset reported although no reset for this request was received"); return; }
    if (!may_fail && ret != -ECONNREFUSED) bad("C01,C03", fmt("exchange failed with error %ld without cause", -ret));
}

// ================================================================ world
void World::v(const char *props, const std::string &m) {
    if (!S->violation.empty()) return;
    std::string p = props;
    if (p != "*" && ("," + p + ",").find("," + prop + ",") == std::string::npos) { stat["other_divergence"]++; if (getenv("SIM_TRACE")) fprintf(stderr, "    (not %s) [%s] %s\n", prop.c_str(), props, m.c_str()); return; }
    S->violate(m);
}
bool World::skip() { return S->ch.choose_at(K_OPSKIP, plan_idx++, [](Rng &) -> int64_t { return 0; }) != 0; }
void World::plan_at(ns_t t, std::function<void()> fn) { if (skip()) return; S->at(t, std::move(fn)); }

static void fill_cfg(node_cfg_t &c) { memset(&c, 0, sizeof c); c.snum = 512; c.slen = 256; c.mnum = 512; c.mlen = 1152; c.lnum = 32; c.llen = 8192; }
Node *World::add_server(uint32_t ip, uint16_t port, const std::vector<std::string> &seps, const char *kind) {
    Node *n = S->add_node("server" + std::to_string(servers.size()), ip, take_image(kind ? kind : img.c_str())); servers.push_back(n);
    n->v6 = std::string(kind ? kind : img).find('6') != std::string::npos;
    node_cfg_t c; fill_cfg(c); Addr a; a.ip = ip; a.port = port; snprintf(c.host, sizeof c.host, "%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255); snprintf(c.port, sizeof c.port, "%u", port);
    c.num_sep = seps.size(); for (size_t i = 0; i < seps.size(); i++) snprintf(c.sep[i], sizeof c.sep[i], "%s", seps[i].c_str());
    cfg[n->id] = c; auto m = std::make_unique<SrvModel>(); m->w = this; m->n = n; m->addr = a; m->seps = seps; sm.push_back(std::move(m)); saddr = a; return n;
}
void World::start_server(Node *n) {
    typedef int (*fn_t)(void *, const node_cfg_t *); auto f = (fn_t)n->img->sym("node_server_main");
    S->spawn(n, n->name, [this, n, f]() { f(n, &cfg[n->id]); }, 768 * 1024);
}
void World::restart_server(Node *n, const char *kind) { // a new process: fresh image, nothing of the old one survives
    n->img = take_image(kind ? kind : img.c_str()); n->alive = true; n->incarnation++; n->heap.clear(); n->stalled_until = 0; n->fds.clear(); n->fds.resize(3);
    pool0.erase(n->id); for (auto &m : sm) if (m->n == n) m->reset();
    start_server(n);
}
Node *World::add_client(uint32_t ip, Addr server, const char *kind) {
    Node *n = S->add_node("client" + std::to_string(clients.size()), ip, take_image(kind ? kind : img.c_str())); clients.push_back(n); n->v6 = std::string(kind ? kind : img).find('6') != std::string::npos;
    node_cfg_t c; fill_cfg(c); snprintf(c.host, sizeof c.host, "%u.%u.%u.%u", server.ip >> 24, (server.ip >> 16) & 255, (server.ip >> 8) & 255, server.ip & 255); snprintf(c.port, sizeof c.port, "%u", server.port);
    cfg[n->id] = c; auto m = std::make_unique<CliModel>(); m->w = this; m->n = n; m->server = server; cm[n->id] = std::move(m); scripts[n->id]; return n;
}
void World::start_client(Node *n, ns_t at) {
    typedef int (*fn_t)(void *, const node_cfg_t *); auto f = (fn_t)n->img->sym("node_client_main");
    S->at(at, [this, n, f]() { S->spawn(n, n->name, [this, n, f]() { f(n, &cfg[n->id]); }, 768 * 1024); });
}
RawPeer *World::add_raw(uint32_t ip, uint16_t port) {
    auto p = std::make_unique<RawPeer>(); p->idx = (int)raws.size(); p->a.ip = ip; p->a.port = port; p->r = Rng(seed, 0xaaa, p->idx); rawmap[p->a] = p.get(); raws.push_back(std::move(p)); return raws.back().get();
}
void World::wire() {
    H = this;
    S->raw_sink = [this](Dgram &g, Addr to) { auto it = rawmap.find(to); if (it == rawmap.end()) return false; S->log(EV_DELIVER, -1, g.pkt, g.from, to, g.data, "raw"); it->second->got.push_back(g.data); it->second->got_t.push_back(S->now); if (it->second->on) it->second->on(*it->second, g.from, g.data); return true; };
    S->on_ev = [this](Ev &e0) { if (!check_models) return; Ev e = e0; for (auto &m : sm) m->ev(e); for (auto &c : cm) c.second->ev(e); };
    S->at_quiesce = [this]() { shutdown_servers(); };
}
void World::shutdown_servers() {
    if (!shutdown_at_end) return;
    for (auto &m : sm) if (m->on) { m->settle(true); m->on = false; }
    for (Node *n : servers) if (n->alive && !dead.count(n->id)) {
        dead.insert(n->id);
        for (auto &f : S->fibers) if (f->node == n && f->st != FS_DONE) f->st = FS_DEAD;    // its main loop is blocked waiting
        typedef void (*fn_t)(void *); auto f = (fn_t)n->img->sym("node_server_shutdown");
        S->spawn(n, n->name + ".down", [this, n, f]() { f(n); note(n, "server_down", 0, 0, ""); }, 256 * 1024);
    }
}
void World::finish() {
    for (auto &m : sm) if (m->on) m->settle(true);
    for (auto &f : finals) if (S->violation.empty()) f();
    for (auto &m : sm) { stat["srv_recv"] += m->nrecv; stat["requests"] += m->nreq; stat["dup_requests"] += m->ndup; stat["sep_retrans"] += m->nretrans; stat["sep_acked"] += m->nacked; stat["evictions"] += m->nevict; stat["srv_resets"] += m->nrst; stat["bad_option"] += m->n402; }
    for (auto &p : cm) { auto &c = *p.second; stat["cli_success"] += c.nsucc; stat["cli_timeout"] += c.ntimeout; stat["cli_reset"] += c.nreset; stat["cli_retrans"] += c.nretr; stat["cli_reject"] += c.nrej; stat["cli_stale"] += c.nstale; }
    stat["handler_calls"] += inv.size();
    if (ntf) nontrivial = ntf(stat);
}
void World::srv_up(Node *n) { S->log(EV_APP, n->id, -1, Addr(), Addr(), "", "up"); }
void World::srv_exit(Node *n, int ret) { S->log(EV_APP, n->id, -1, Addr(), Addr(), "", "exit", ret); dead.insert(n->id); if (!server_exit_ok) v("*", fmt("the main loop of %s returned (%d)", n->name.c_str(), ret)); }
void World::cli_created(Node *n, int ret) { S->log(EV_APP, n->id, -1, Addr(), Addr(), "", "created", ret); stat["client_created"]++; if (ret < 0) stat["client_create_failed"]++; if (cm[n->id]) cm[n->id]->mids.clear(); if (on_created) on_created(n, ret); }
void World::cli_next(Node *n, cli_op_t *op) {
    auto &s = scripts[n->id];
    if (on_next) { on_next(n, op); if (op->kind != COP_END) { if (op->kind == COP_EXCHANGE || op->kind == COP_BLOCKWISE) { opstart[op->id] = S->now; auto m = cmodel(n); if (m) m->begin(op); } return; } }
    while (s.pos < s.ops.size()) {
        cli_op_t &o = s.ops[s.pos++]; bool sk = S->ch.choose_at(K_OPSKIP, 100000 + o.id, [](Rng &) -> int64_t { return 0; }) != 0; if (sk) continue;
        *op = o; S->log(EV_APP, n->id, -1, Addr(), Addr(), "", "op", o.kind, o.id);
        if (o.kind == COP_EXCHANGE || o.kind == COP_BLOCKWISE) { opstart[o.id] = S->now; auto m = cmodel(n); if (m) m->begin(op); if (on_opstart) on_opstart(n, op); }
        return;
    }
    op->kind = COP_END; s.done = true;
}
void World::cli_result(Node *n, const cli_op_t *op, long ret, const app_msg_t *req, const app_msg_t *resp) {
    Result r; r.t0 = opstart[op->id]; r.t1 = S->now; r.node = n->id; r.opid = op->id; r.ret = ret; r.kind = op->kind; if (req) app_to_ref(req, r.req); if (resp) app_to_ref(resp, r.resp);
    S->log(EV_APP, n->id, -1, Addr(), Addr(), resp ? r.resp.payload : "", "result", ret, op->id);
    if (auto m = cmodel(n)) m->result(ret, resp);
    res.push_back(r); stat[ret >= 0 ? "op_ok" : "op_err"]++;
    if (on_result) on_result(n, op, ret, r.req, r.resp);
}
void World::pool_usage(Node *n, const char *when, int a, int b, int c) {
    std::array<int, 3> u = {a, b, c}; std::string w = when;
    S->log(EV_APP, n->id, -1, Addr(), Addr(), "", when, a * 1000 + b, c);
    if (w == "start") { pool0[n->id] = u; return; }
    if (w == "idle" || w == "end") {
        std::array<int, 3> base = {0, 0, 0}; if (w == "idle" && pool0.count(n->id)) base = pool0[n->id];
        if (u != base) v("S06", fmt("%s: %d small, %d medium, %d large buffers still in use %s (expected %d/%d/%d)", n->name.c_str(), a, b, c, w == "end" ? "after shutdown" : "between exchanges", base[0], base[1], base[2]));
    }
}
void World::note(Node *n, const char *k, long a, long b, const char *s) {
    if (!n && S->cur) n = S->cur->node;
    std::string key = k; stat["note_" + key]++;
    S->log(EV_APP, n ? n->id : -1, -1, Addr(), Addr(), "", k, a, b);
    if (on_note) on_note(n, k, a, b, s);
    if (key == "mem_create_failed" || key == "server_create_failed") dead.insert(n->id);
    if (key == "badfree") v("S06,M02", std::string(n ? n->name : "?") + ": " + s);
    if (key == "close_ebadf") v("S06,X04", fmt("%s closed a descriptor that was not open (%ld)", n ? n->name.c_str() : "?", a));
    if (key == "server_down" || key == "client_down") {
        if (fd_check && n->fd_open() != 0) v("S06", fmt("%s left %d descriptors open after shutdown", n->name.c_str(), n->fd_open()));
        if (!n->heap.empty()) v("S06", fmt("%s left %zu heap blocks allocated after shutdown", n->name.c_str(), n->heap.size()));
    }
}
void World::srv_handle(Node *n, const app_msg_t *q, const char *peer, app_act_t *act) {
    Addr a = parse_peer(peer); Msg m; app_to_ref(q, m);
    S->log(EV_APP, n->id, -1, a, Addr(), m.payload, "handle", m.mid, m.code());
    SrvModel *mod = nullptr; for (auto &x : sm) if (x->n == n) mod = x.get();
    if (mod && check_models) mod->handle(a, q);
    std::string p = m.path(); size_t k = p.find('/', 1); std::string first = p.substr(1, k == std::string::npos ? std::string::npos : k - 1);
    auto it = routes.find(first);
    if (it != routes.end()) it->second(n, m, a, act); else default_handle(n, m, a, act);
    Invocation i; i.t = S->now; i.peer = a; i.req = m; app_to_ref(&act->resp, i.resp); i.mode = act->mode; i.node = n->id; i.inc = n->incarnation; inv.push_back(i);
    if (mod && check_models) mod->handled(a, act);
    if (handler_slow > 0) { Rng r(seed, 0x510, inv.size()); if (r.chance(handler_slow_p)) { ns_t d = r.range(1, handler_slow); if (mod) mod->stall += d; S->fault("slow_handler", d); sim_sleep_ns(d); } }
}
void World::srv_rx(Node *n, const app_msg_t *q, const char *peer, unsigned char *b, size_t len, size_t *end, app_act_t *act) {
    Addr a = parse_peer(peer); Msg m; app_to_ref(q, m);
    S->log(EV_APP, n->id, -1, a, Addr(), Bytes((char *)b, *end), "rx", m.mid, (long)*end);
    if (rx_fn) rx_fn(n, m, a, b, len, end, act);
}
Msg World::gen_response(Rng &r, int k) {
    static const int codes[] = {201, 202, 203, 204, 205, 205, 204, 400, 404, 405, 500, 503}; Msg m; int c = codes[r.below(12)]; m.cls = c / 100; m.det = c % 100;
    auto rb = [&](size_t n) { Bytes b; for (size_t i = 0; i < n; i++) b.push_back((char)r.next()); return b; };
    if (r.chance(0.3)) m.add(4, rb(r.range(1, 8))); if (r.chance(0.3)) m.add(12, rb(r.range(0, 2))); if (r.chance(0.2)) m.add(14, rb(r.range(0, 4)));
    if (r.chance(0.2)) { int nn = (int)r.range(1, 3); for (int i = 0; i < nn; i++) m.add(8, rb(r.range(0, 40))); }
    m.payload = "#" + std::to_string(k) + "#"; if (r.chance(0.5)) m.payload += rb(r.range(0, r.chance(0.2) ? 700 : 60)); return m;
}
void World::default_handle(Node *n, const Msg &q, Addr, app_act_t *act) {
    int k = (int)inv.size() + 1; Rng r(seed, 0xbeef, k);
    if (handler_err_p > 0 && r.chance(handler_err_p)) { act->mode = 2; act->err = -EIO; stat["handler_error"]++; return; }
    act->mode = 0; Msg m = gen_response(r, k); if (r.chance(0.05)) m.payload.clear(); ref_to_app(m, &act->resp);
}
Msg World::gen_request(Rng &r, bool con, int maxpl) {
    Msg m; m.type = con ? ref::CON : ref::NON; m.cls = 0; m.det = (int)r.range(1, 4); auto rb = [&](size_t n) { Bytes b; for (size_t i = 0; i < n; i++) b.push_back((char)r.next()); return b; };
    if (r.chance(0.2)) m.add(3, "host"); if (!r.chance(0.04)) { m.add(11, "r" + std::to_string(r.below(5))); if (r.chance(0.3)) m.add(11, r.chance(0.3) ? Bytes("a") : rb(r.range(0, 20))); else if (r.chance(0.03)) for (int i = 0; i < 3; i++) m.add(11, Bytes(r.range(80, 150), 'x')); }
    if (r.chance(0.3)) m.add(15, rb(r.range(0, 30))); if (r.chance(0.2)) m.add(12, rb(r.range(0, 2))); if (r.chance(0.2)) m.add(17, rb(r.range(0, 2)));
    if (r.chance(0.1)) m.add(2048 + 2 * r.below(500), rb(r.range(0, 12)));  // unrecognised elective
    if (r.chance(0.2)) { static const unsigned kn[] = {1, 4, 5, 7, 8, 14, 20, 28, 35, 39, 60}; m.add(kn[r.below(sizeof kn / sizeof *kn)], rb(r.range(0, 8))); }
    if (r.chance(0.6)) m.payload = rb(r.range(1, r.chance(0.2) ? maxpl : std::min(40, maxpl))); return m;
}
cli_op_t World::mk_op(const Msg &m, int kind) { cli_op_t o; memset(&o, 0, offsetof(cli_op_t, req)); o.kind = kind; ref_to_app(m, &o.req); o.block1 = o.block2 = 0; o.body = nullptr; o.body_len = 0; o.have_resp = 0; o.sleep_ns = 0; o.keep = o.reuse = 0; o.id = ++opctr; return o; }
void Swarm::net(Profile &p, Rng &r, int level) {
    auto pick = [&](double hi) { return r.chance(0.4) ? 0.0 : hi * (r.below(1000) / 1000.0); };
    p.base_lat = r.range(100, 20000) * US;
    if (level == 0) return;
    p.drop = pick(level >= 2 ? 0.6 : 0.35); p.dup = pick(0.4); p.delay = pick(0.5); static const ns_t dm[] = {50 * MS, 1 * SEC, 4 * SEC, 15 * SEC, 60 * SEC}; p.delay_max = dm[r.below(5)]; p.dup_max = (int)r.range(1, 4);
    p.sched = r.chance(0.5) ? 0.2 : 0;
}
}
