// The HTTP/CoAP proxy as a whole: X01 (one right response per request, in order), X02 (connections do not mix),
// X03 (CoAP failures become HTTP errors), X04 (survives anything, releases everything).
#include "world.h"
#include "scen.h"
#include <errno.h>
#include <stdarg.h>
#include <strings.h>
#include <algorithm>
namespace sim {
static std::string fmt(const char *f, ...) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static Bytes rb(Rng &r, size_t n) { Bytes b; for (size_t i = 0; i < n; i++) b.push_back((char)r.next()); return b; }
static Bytes rbody(Rng &r, size_t n) { int k = (int)r.below(4); Bytes b; for (size_t i = 0; i < n; i++) b.push_back(k == 0 ? (char)r.next() : k == 1 ? (char)(r.chance(0.1) ? 0 : r.next()) : k == 2 ? "\r\n01Aa: "[r.below(8)] : (char)r.range(32, 126)); return b; }
static std::string tok(Rng &r, size_t lo, size_t hi) { static const char A[] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-._~"; std::string s; size_t n = (size_t)r.range((int64_t)lo, (int64_t)hi); for (size_t i = 0; i < n; i++) s += A[r.below(sizeof A - 1)]; return s; }
static const char *CD = SIM_DIR "certs/";
static int http_of(int code) {
    switch (code) { case 201: case 202: case 204: case 205: return 200; case 203: return 304; case 400: return 400; case 401: return 401; case 402: return 400; case 403: return 403; case 404: return 404; case 405: return 405; case 406: return 406; case 412: return 412; case 413: return 413; case 415: return 415; case 500: return 500; case 501: return 501; case 502: return 502; case 503: return 503; case 504: return 504; case 505: return 501; }
    return 502;
}
struct Req { int id = 0; std::string method, uri; std::vector<std::pair<std::string, std::string>> hdr; Bytes body, wire; int fixed = 0; /* status decided by the proxy alone */ bool anyerr = false; char route = 's'; int det = 0, srv = 0; std::vector<std::string> path, query; std::string etag, maxage, accept; };
struct Ans { int code = 0; std::string etag, maxage; Bytes payload; bool given = false; };
struct Resp { int status = 0; std::map<std::string, std::string> h; Bytes body; };
struct Batch { std::vector<int> reqs; int nsplit = 0; ns_t gap = 0, think = 0; uint64_t sd = 0; bool cut = false; };
struct Conn { std::vector<Batch> batches; std::string cert = "good", prio = "NORMAL"; int endkind = 0; };
struct HC { std::function<void()> start; Node *n; int idx; bool probe = false; std::vector<Conn> conns; size_t ci = 0, bi = 0; int st = 0; std::deque<http_op_t> q; std::deque<Bytes> hold; std::deque<int> want; Bytes rx; ns_t t_sent = 0, bound = 0; bool done = false, hostile = false; bool broken = false; std::vector<http_op_t> script; size_t sp = 0; bool linger = false; };
struct PW {
    std::vector<std::string> sa;                          // authority of each CoAP server
    World *w; Node *px = nullptr; std::vector<Node *> sv; std::map<int, Req> req; std::map<int, Ans> ans; std::map<int, int> invoked, uploads; std::vector<std::unique_ptr<HC>> hc; std::map<int, HC *> bynode; std::map<int, ns_t> sent_at; std::map<int, std::string> ctl;
    int mode = 1; size_t base_heap = 0; int base_fd = 0, base_tls[5] = {0}, base_pool[3] = {0}; bool have_base = false, sigign = false; ns_t grace = 300 * SEC, bound1 = 30 * SEC, boundblk = 0; int done = 0; std::map<int, std::shared_ptr<Bytes>> bodies; const char *P = "X01"; uint64_t nresp = 0; int force_srv = -1; bool lenient = false, targeted = false; std::map<int, int> cur; std::set<int> dropped; std::map<int, Bytes> got; ns_t quiet = 0, settle = 150 * SEC; ns_t fault_from = 0, fault_to = 0;
};
typedef std::shared_ptr<PW> PWp;
static const char *ALL = "X01,X02,X03,X04";
static int opid(const Msg &m) { for (auto &o : m.ops) if (o.num == 15) { if (o.val.compare(0, 3, "op=") == 0) return atoi(o.val.c_str() + 3); } return -1; }
static std::vector<std::string> vals(const Msg &m, int num) { std::vector<std::string> v; for (auto &o : m.ops) if ((int)o.num == num) v.push_back(o.val); return v; }
static Ans mk_ans(PWp p, const Req &q) {
    Rng r(p->w->seed, 0x8a5, q.id); Ans a; static const int C[] = {205, 205, 205, 205, 204, 201, 202, 203, 400, 401, 402, 403, 404, 405, 406, 412, 413, 415, 500, 501, 502, 503, 504, 505, 408, 207, 418, 510, 206, 200, 212, 215, 407, 507, 231};
    a.code = q.route == 's' ? C[r.below(r.chance(0.5) ? 4 : sizeof C / sizeof *C)] : q.det == 1 ? 205 : r.chance(0.5) ? 204 : 201;
    if (a.code == 413 && (q.det == 2 || q.det == 3)) a.code = 415;
    if (q.route != 's' && q.det != 1 && r.chance(0.2)) { static const int E[] = {400, 403, 404, 413, 415, 500, 503, 504}; a.code = E[r.below(8)]; return a; } // the application refuses the upload
    size_t n = q.route == 'b' && q.det == 1 ? (r.chance(0.15) ? (size_t)r.range(4052, 4058) : r.chance(0.15) ? (size_t)r.range(8148, 8154) : r.chance(0.2) ? (size_t)r.range(7000, 8190) : (size_t)r.range(65, 3000)) /* also: answers that just fill a buffer of the proxy */ : q.route != 's' ? (size_t)r.below(20) : r.chance(0.2) ? (size_t)r.range(500, 1000) : (size_t)r.below(60);
    if (q.route == 's' && r.chance(0.15)) n = 0; if (q.route != 's' && q.det != 1) n = std::min(n, q.body.size()); // the client API returns the answer in the buffer of the request
    if (q.route == 's' && n > 0) n = std::max<size_t>(n, 8);
    if (a.code != 203 && n) { Bytes mark = fmt("<%d>", q.id); a.payload = (mark + rbody(r, n)).substr(0, std::max<size_t>(n, q.route == 's' ? mark.size() : n)); }
    if (q.route == 's' && r.chance(0.3)) a.etag = tok(r, 1, 8);
    if (q.route == 's' && r.chance(0.3)) a.maxage = fmt("%u", (unsigned)r.below(r.chance(0.5) ? 100 : 4000000000u));
    return a;
}
static void px_server(PWp p) {
    World *w = p->w;
    auto check = [p, w](Node *n, const Msg &q, int id) -> bool {
        if (!p->req.count(id) && p->mode == 4) { w->stat["px_hostile_forwarded"]++; return false; }
        if (!p->req.count(id)) { w->v(ALL, fmt("the CoAP server received a request no client made (%s)", q.path().c_str())); return false; }
        Req &e = p->req[id]; std::string bad;
        if (e.fixed) bad = "a request the proxy has to refuse was forwarded"; else if (q.cls != 0 || q.det != e.det) bad = fmt("method %d instead of %d", q.det, e.det);
        else if (vals(q, 11) != e.path) bad = "another path " + q.path(); else if (vals(q, 15) != e.query) bad = "another query";
        else if (vals(q, 4) != (e.etag.empty() ? std::vector<std::string>{} : std::vector<std::string>{e.etag})) bad = "another ETag"; else if (vals(q, 14) != (e.maxage.empty() ? std::vector<std::string>{} : std::vector<std::string>{e.maxage})) bad = "another Max-Age"; else if (vals(q, 17) != (e.accept.empty() ? std::vector<std::string>{} : std::vector<std::string>{e.accept})) bad = "another Accept";
        else if (p->sv[e.srv] != n) bad = "the wrong CoAP server";
        if (!bad.empty()) { w->v("X01,X02,X03", fmt("request %d (%s) reached the CoAP server with %s", id, e.method.c_str(), bad.c_str())); return false; } return true; };
    auto small = [p, w, check](Node *n, const Msg &q, Addr, app_act_t *act) {
        int id = opid(q); if (!check(n, q, id)) return; Req &e = p->req[id];
        Bytes want = e.body.size() <= 1024 ? e.body : Bytes(); if (q.payload != want) { w->v("X01,X02,X03", fmt("request %d (%s, %zu bytes) reached the CoAP server with a different body (%zu bytes)", id, e.method.c_str(), e.body.size(), q.payload.size())); return; }
        if (++p->invoked[id] > 1 && !p->lenient) w->v("X01,X02,X03", fmt("request %d (%s) was executed %d times by the CoAP server", id, e.method.c_str(), p->invoked[id]));
        Ans a = mk_ans(p, e); a.given = true; p->ans[id] = a; w->stat["px_forwarded"]++;
        std::string c = p->ctl.count(id) ? p->ctl[id] : ""; if (c == "fail") { act->mode = 2; act->err = -EIO; p->ans[id].given = false; S->fault("handler_error"); return; }
        if (c == "slow") { S->fault("slow_handler"); sim_sleep_ns(Rng(w->seed, 0x510, id).range(1, 100) * SEC); }
        Msg m; m.cls = a.code / 100; m.det = a.code % 100; if (!a.etag.empty()) m.add(4, a.etag); if (!a.maxage.empty()) m.add(14, a.maxage); m.payload = a.payload; ref_to_app(m, &act->resp); act->mode = 0; };
    w->routes["s"] = small; w->routes["sep"] = small;
    auto blk = [p, w, check](Node *n, const Msg &q, Addr, app_act_t *act) {
        int id = opid(q); if (!check(n, q, id)) return; Req &e = p->req[id]; Rng z(w->seed, 0xd77, id);
        bool hasb = !vals(q, 27).empty() || !vals(q, 23).empty();
        if (e.route == 't' && !hasb && e.det != 1) { act->mode = 0; act->resp.code_class = 4; act->resp.code_detail = 13; w->stat["px_413"]++; return; }
        Ans a = mk_ans(p, e); auto k = p->bodies.count(id) ? p->bodies[id] : nullptr; if (!k) { k = std::make_shared<Bytes>(8192, '\0'); p->bodies[id] = k; if (e.det == 1) memcpy(&(*k)[0], a.payload.data(), a.payload.size()); }
        if (e.det == 1) { a.given = true; p->ans[id] = a; w->stat["px_bw_down"]++; }
        act->mode = 1; act->block1 = 16u << z.range(1, 6); act->block2 = 16u << z.range(1, 6); act->body = (unsigned char *)k->data(); act->body_len = e.det == 1 ? a.payload.size() : k->size(); act->with_rx = e.det != 1; };
    w->routes["b"] = blk; w->routes["t"] = blk;
    w->rx_fn = [p, w](Node *, const Msg &q, Addr, unsigned char *b, size_t blen, size_t *end, app_act_t *act) {
        int id = opid(q); if (!p->req.count(id) && p->mode == 4) return; if (!p->req.count(id)) { w->v(ALL, "the CoAP server received an upload no client made"); return; } Req &e = p->req[id];
        if (Bytes((char *)b, *end) != e.body) w->v("X01,X02,X03", fmt("upload %d arrived with another body (%zu of %zu bytes)", id, *end, e.body.size()));
        p->uploads[id]++; Ans a = mk_ans(p, e); a.given = true; p->ans[id] = a; act->mode = 0; act->resp.code_class = a.code / 100; act->resp.code_detail = a.code % 100; memcpy(b, a.payload.data(), std::min(blen, a.payload.size())); *end = a.payload.size(); w->stat["px_bw_up"]++; };
}
// ---- requests
static int mk_req(PWp p, Rng &r, int mode) {
    World *w = p->w; Req q; q.id = ++w->opctr; static const char *M[] = {"", "GET", "POST", "PUT", "DELETE"}; q.det = (int)r.range(1, 4); q.method = M[q.det]; q.srv = p->sv.size() > 1 && r.chance(0.3) ? 1 : 0; if (p->force_srv >= 0) q.srv = p->force_srv;
    double z = r.below(1000) / 1000.0; q.route = z < 0.7 ? 's' : z < 0.85 ? 'b' : 't'; if (q.det == 4 || (mode != 1 && r.chance(0.5))) q.route = 's'; if (q.route == 't' && q.det == 1) q.route = 'b';
    size_t mx = mode != 1 ? 1400 : 8192; size_t n = 0;
    if (q.route == 's') { if (q.det == 2 || q.det == 3) n = r.chance(0.3) ? 0 : r.chance(0.2) ? (size_t)r.range(900, 1024) : (size_t)r.below(200); else if (r.chance(0.08)) n = r.chance(0.5) ? (size_t)r.range(1, 300) : (size_t)r.range(1025, 4000); }
    else if (q.det != 1) n = q.route == 'b' ? (r.chance(0.2) && mode == 1 ? (r.chance(0.3) ? mx - (size_t)r.below(3) : (size_t)r.range(7000, (int64_t)mx)) : (size_t)r.range(1025, 1400)) : (size_t)r.range(1, 1024);
    q.body = rbody(r, n);
    bool sep = q.route == 's' && r.chance(0.2); std::string first = sep ? "sep" : std::string(1, q.route); q.path.push_back(first); std::string path = "/" + first;
    for (int i = (int)r.below(3); i > 0; i--) { std::string s = tok(r, 1, r.chance(0.1) ? 100 : 12); q.path.push_back(s); path += (r.chance(0.1) ? "//" : "/") + s; }
    if (r.chance(0.15)) { q.path.push_back("a b"); path += "/a%20b"; } if (r.chance(0.1)) path += "/";
    if (sep) { q.path = {"sep"}; path = "/sep"; }
    std::string qs = fmt("op=%d", q.id); q.query.push_back(qs); while (r.chance(0.3)) { std::string s = r.chance(0.2) ? tok(r, 1, 2) : tok(r, 1, 10) + "=" + tok(r, 0, 10); q.query.push_back(s); qs += (r.chance(0.1) ? "&&" : "&") + s; }
    std::string auth = p->sa[q.srv]; if (mode == 3 && r.chance(0.1)) { auth = r.chance(0.5) ? "no-such-host:5684" : "10.0.0.77:5684"; q.anyerr = true; } if (r.chance(0.05)) auth = "user@" + auth;
    q.uri = std::string(r.chance(0.5) ? "coap" : r.chance(0.8) ? "coaps" : "CoAP") + "://" + auth + path + "?" + qs;
    if (!q.anyerr && r.chance(0.1) && auth.compare(auth.size() - 5, 5, ":5684") == 0) { auth = auth.substr(0, auth.rfind(':')); q.uri = std::string(r.chance(0.5) ? "coaps" : "COAPS") + "://" + auth + path + "?" + qs; } // the default port
    if (r.chance(0.14)) { switch (r.below(7)) { case 6: q.uri = std::string("coap") + (r.chance(0.5) ? "s" : "") + (r.chance(0.5) ? "://" : ":") + path + "?" + qs; q.fixed = 400; break; case 0: q.uri += "#frag"; q.fixed = 400; break; case 1: q.uri = "http" + q.uri.substr(q.uri.find("://")); q.fixed = 400; break; case 2: q.uri = "//" + auth + path + "?" + qs; q.fixed = 400; break; case 3: q.method = r.chance(0.5) ? "HEAD" : "PATCH"; q.fixed = 501; break; case 4: q.hdr.push_back({"Accept", "application/json"}); q.fixed = 406; break; default: q.uri = "coap://" + auth + "/s/%zz?" + qs; q.fixed = 400; } }
    if (!q.fixed && !q.anyerr && mode != 2 && (q.det == 2 || q.det == 3) && r.chance(0.03)) { q.body = rbody(r, (size_t)(8192 + (r.chance(0.7) ? r.range(1, 16) : r.range(17, 4000)))); q.fixed = 502; } // larger than the proxy can hold
    if (q.fixed == 501 && q.method == "HEAD") q.method = "OPTIONS";
    if (q.fixed != 406 && r.chance(0.2)) { q.hdr.push_back({r.chance(0.5) ? "Accept" : "accept", "text/plain"}); q.accept = "0"; }
    if (r.chance(0.2)) { q.etag = tok(r, 1, 8); q.hdr.push_back({"Etag", q.etag}); } if (r.chance(0.2)) { unsigned v = (unsigned)r.below(r.chance(0.5) ? 1000 : 4000000000u); q.maxage = fmt("%u", v); q.hdr.push_back({"Cache-Control", (r.chance(0.3) ? "no-transform, max-age=" : "max-age=") + q.maxage}); }
    q.hdr.push_back({"Host", auth}); while (r.chance(0.3)) q.hdr.push_back({"X-" + tok(r, 1, 12), tok(r, 0, r.chance(0.1) ? 600 : 40)});
    if (r.chance(0.04)) for (int i = 0; i < 60; i++) q.hdr.push_back({"X-Pad" + std::to_string(i), tok(r, 20, 60)});
    if (q.body.size() <= 1024) { size_t o = 60 + q.etag.size() + q.maxage.size(); for (auto &x : q.path) o += x.size() + 3; for (auto &x : q.query) o += x.size() + 3; if (q.body.size() + o > 1100) q.body.resize(1100 - o); } // must fit in one CoAP message
    bool chunk = !q.body.empty() && r.chance(0.35); if (chunk) q.hdr.push_back({r.chance(0.8) ? "Transfer-Encoding" : "transfer-encoding", r.chance(0.7) ? "chunked" : r.chance(0.5) ? "Chunked" : "CHUNKED"}); else if (!q.body.empty() || r.chance(0.1)) q.hdr.push_back({r.chance(0.8) ? "Content-Length" : "content-length", std::to_string(q.body.size())});
    for (size_t i = q.hdr.size(); i > 1; i--) std::swap(q.hdr[i - 1], q.hdr[r.below(i)]);
    Bytes o = q.method + " " + q.uri + " HTTP/1.1\r\n"; for (auto &h : q.hdr) o += h.first + (r.chance(0.1) ? ":" : r.chance(0.1) ? (r.chance(0.5) ? ":\r\n " : ":\r\n\t") : ": ") + h.second + "\r\n"; o += "\r\n";
    if (chunk) { size_t off = 0; while (off < q.body.size()) { size_t k = std::min(q.body.size() - off, (size_t)r.range(1, r.chance(0.5) ? 50 : 4000)); o += fmt(r.chance(0.3) ? "%04zX%s\r\n" : "%zx%s\r\n", k, r.chance(0.2) ? ";p=v" : "") + q.body.substr(off, k) + "\r\n"; off += k; } o += "0\r\n"; if (r.chance(0.2)) o += "X-Trailer: t\r\n"; o += "\r\n"; }
    else o += q.body;
    q.wire = o; p->req[q.id] = q; return q.id;
}
// ---- one HTTP client
static http_op_t hop(int kind, ns_t ns = 0) { http_op_t o; memset(&o, 0, sizeof o); o.kind = kind; o.ns = ns; return o; }
static http_op_t hdata(PWp p, HC *h, int kind, const Bytes &d) { auto k = std::make_shared<Bytes>(d); p->w->keep.push_back(k); http_op_t o = hop(kind); o.data = (const unsigned char *)k->data(); o.len = k->size(); return o; }
static http_op_t hconn(const std::string &cert, const std::string &prio, bool tls = true, ns_t to = 2000 * SEC) {
    http_op_t o = hop(tls ? H_CONNECT : H_TCP, to); snprintf(o.host, sizeof o.host, "10.0.0.50"); o.port = 12437; snprintf(o.prio, sizeof o.prio, "%s", prio.c_str()); snprintf(o.trust, sizeof o.trust, "%sgood_root_server_cert.pem", CD);
    if (cert == "good") { snprintf(o.cert, sizeof o.cert, "%sgood_client_cert.pem", CD); snprintf(o.key, sizeof o.key, "%sgood_client_privkey.pem", CD); } else if (cert != "none") { snprintf(o.cert, sizeof o.cert, "%s%s_client.pem", CD, cert.c_str()); snprintf(o.key, sizeof o.key, "%s%s_client_key.pem", CD, cert.c_str()); } return o; }
static void push_pieces(PWp p, HC *h, const Bytes &d, Rng &r, int nsplit, ns_t gap) {
    std::vector<size_t> at; for (int i = 0; i < nsplit && d.size() > 1; i++) at.push_back((size_t)r.range(1, (int64_t)d.size() - 1)); std::sort(at.begin(), at.end()); at.erase(std::unique(at.begin(), at.end()), at.end()); at.push_back(d.size()); size_t off = 0;
    for (size_t e : at) { h->q.push_back(hdata(p, h, H_SEND, d.substr(off, e - off))); off = e; if (gap && e != d.size()) h->q.push_back(hop(H_SLEEP, r.range(0, gap))); } }
// parses one response from the buffer: 1 = parsed, 0 = more needed, -1 = cannot be understood
static int parse_resp(Bytes &b, Resp &o, std::string &why) {
    size_t e = b.find("\r\n\r\n"); if (e == Bytes::npos) { if (b.size() > 12 && b.compare(0, 9, "HTTP/1.1 ") != 0) { why = "no status line: " + hex(b, 24); return -1; } if (b.size() > 20000) { why = "endless header"; return -1; } return 0; }
    size_t l = b.find("\r\n"); std::string line = b.substr(0, l); if (line.compare(0, 9, "HTTP/1.1 ") != 0 || line.size() < 13 || !isdigit((unsigned char)line[9]) || line[12] != ' ') { why = "bad status line: " + line.substr(0, 40); return -1; } o.status = atoi(line.c_str() + 9);
    while (l < e) { size_t s = l + 2, z = b.find("\r\n", s); if (z > e) z = e; std::string h = b.substr(s, z - s); size_t c = h.find(':'); if (c == std::string::npos) { why = "bad header line: " + h.substr(0, 40); return -1; } std::string nm = h.substr(0, c), v = h.substr(c + 1); for (auto &ch : nm) ch = (char)tolower(ch); while (!v.empty() && v[0] == ' ') v.erase(0, 1); if (o.h.count(nm)) { why = "header " + nm + " given twice"; return -1; } o.h[nm] = v; l = z; }
    size_t n = 0; if (o.status != 304) { if (!o.h.count("content-length")) { why = fmt("a %d response that has no Content-Length on a connection that stays open", o.status); return -1; } n = (size_t)atoll(o.h["content-length"].c_str()); if (n > 100000) { why = "absurd Content-Length"; return -1; } } else if (o.h.count("content-length") && o.h["content-length"] != "0") { why = "a 304 response with a body"; return -1; }
    if (b.size() < e + 4 + n) return 0; o.body = b.substr(e + 4, n); b.erase(0, e + 4 + n); return 1; }
static void judge(PWp p, HC *h, int id, Resp &o) {
    World *w = p->w; Req &q = p->req[id]; p->nresp++; w->stat["px_responses"]++; w->stat[fmt("status_%d", o.status)]++; p->got[id] = fmt("%d", o.status);
    auto diff = [&](const std::string &m) { w->v(p->mode == 4 ? "X04,X01" : ALL, fmt("request %d (%s /%c, %zu byte body): ", id, q.method.c_str(), q.route, q.body.size()) + m); };
    if (p->mode == 4 && !h->probe && o.status >= 400 && o.status < 600 && o.body.empty()) { w->stat["px_failed"]++; return; } // memory, threads or sockets may be short
    if (q.fixed) { if (o.status != q.fixed) diff(fmt("status %d instead of %d", o.status, q.fixed)); return; }
    auto it = p->ans.find(id); bool given = it != p->ans.end() && it->second.given; Ans a = given ? it->second : Ans();
    auto same = [&](std::string &why) { if (o.status != http_of(a.code)) { why = fmt("status %d for CoAP %d.%02d", o.status, a.code / 100, a.code % 100); return false; } bool unm = http_of(a.code) == 502 && a.code != 502; if (!unm && o.body != a.payload) { why = fmt("body of %zu bytes differs from the server's %zu bytes", o.body.size(), a.payload.size()); return false; }
        if (!unm && (o.h.count("etag") ? o.h["etag"] : "") != a.etag) { why = "Etag differs"; return false; } if (!unm && (o.h.count("cache-control") ? o.h["cache-control"] : "") != (a.maxage.empty() ? "" : "max-age=" + a.maxage)) { why = "max-age differs"; return false; } return true; };
    std::string why; if (given && same(why)) { if (q.anyerr) diff("answered although the host does not exist"); w->stat[o.status < 300 ? "px_ok" : "px_mapped"]++; return; }
    bool err = o.status == 501 || o.status == 502 || o.status == 504;
    std::string c = p->ctl.count(id) ? p->ctl[id] : ""; bool disturbed = q.anyerr || (!h->probe && (p->lenient || (p->targeted && !c.empty())));
    if (!disturbed) { diff(given ? why : fmt("status %d although the CoAP server %s", o.status, "never saw the request")); return; }
    bool blk = false; for (auto &x : p->req) if (x.second.route != 's') blk = true; // (the transfer may be one that is long over, and the request that meets it a simple one)
    if (!err && p->lenient && blk && o.status == 400) { w->stat["px_blockwise_refused"]++; return; } // a retransmission that arrives after its successor confuses a block-wise transfer
    if (!err) { diff(given ? why : fmt("status %d although the CoAP server gave no answer", o.status)); return; }
    if (p->targeted && c == "mute" && q.path[0] != "sep" && o.status != 504) diff(fmt("status %d instead of 504 although the CoAP server stayed silent", o.status)); if (p->targeted && c == "garble" && o.status != 502) diff(fmt("status %d instead of 502 although the CoAP server's answer cannot be understood", o.status));
    w->stat["px_failed"]++; w->stat["px_failed_" + c]++; if (o.body.size()) diff("an error response of the proxy carries a body");
}
static void hc_finish(PWp p, HC *h);
static void hc_next(PWp p, HC *h, http_op_t *o) {
    World *w = p->w;
    for (;;) {
        if (!S->violation.empty()) { o->kind = H_END; return; }
        if (!h->q.empty()) { *o = h->q.front(); h->q.pop_front(); return; }
        if (h->hostile) { if (h->sp < h->script.size()) { *o = h->script[h->sp++]; return; } if (h->linger && !h->done) { *o = hop(H_SLEEP, 1000000 * SEC); hc_finish(p, h); return; } o->kind = H_END; hc_finish(p, h); return; }
        if (h->ci >= h->conns.size()) { o->kind = H_END; hc_finish(p, h); return; }
        Conn &c = h->conns[h->ci];
        if (h->st == 0) { h->st = 1; h->bi = 0; h->rx.clear(); h->want.clear(); h->broken = false; *o = hconn(c.cert, c.prio); return; }
        if (h->st == 2) { if (!h->want.empty() && !h->broken) { *o = hop(H_RECV, h->bound); return; } h->st = 1; }
        if (h->broken || h->bi >= c.batches.size()) { // end of the connection
            if (!h->broken && !h->rx.empty()) { w->v(ALL, fmt("%s: %zu bytes beyond the last response", h->n->name.c_str(), h->rx.size())); }
            if (!h->broken && c.endkind == 0) { h->q.push_back(hop(H_BYE)); h->q.push_back(hop(H_SLEEP, 2 * SEC)); } if (!h->broken && c.endkind == 2) h->q.push_back(hop(H_SLEEP, 130 * SEC)); h->q.push_back(hop(H_CLOSE)); h->st = 0; h->ci++; continue; }
        Batch &b = c.batches[h->bi++]; Rng r(b.sd, 0x5b1, 0); Bytes d; int nb = 0; ns_t bound = 0;
        for (int id : b.reqs) { if (S->ch.choose_at(K_OPSKIP, 100000 + id, [](Rng &) -> int64_t { return 0; })) continue; d += p->req[id].wire; h->want.push_back(id); nb += 1; bound += p->bound1 + p->boundblk * (ns_t)(p->req[id].route == 's' ? 0 : 2 + p->req[id].body.size() / 32 + 190); w->stat["px_requests"]++; }
        if (nb == 0) continue;
        if (b.think) h->q.push_back(hop(H_SLEEP, b.think)); push_pieces(p, h, d, r, b.nsplit, b.gap); h->bound = bound + 20 * S->pf.delay_max; h->st = 2; }
}
static void hc_ev(PWp p, HC *h, const http_op_t *o, long ret, const void *d, size_t l) {
    World *w = p->w; if (h->hostile) { if (o->kind == H_RECV && ret > 0) w->stat["hostile_rx"]++; w->stat[fmt("hostile_op%d_%s", o->kind, ret < 0 ? "err" : "ok")]++; return; }
    const char *P = p->mode == 4 ? "X04" : ALL;
    if (o->kind == H_CONNECT) { w->stat[ret < 0 ? "px_connect_failed" : "px_connected"]++; if (ret < 0) { h->broken = true; if (p->mode != 4 || h->probe) w->v(P, fmt("%s could not connect to the proxy (%ld)", h->n->name.c_str(), ret)); } return; }
    if (o->kind == H_SEND && ret < 0 && !h->broken) { h->broken = true; if (p->mode != 4 || h->probe) w->v(P, fmt("%s: sending a request failed (%ld)", h->n->name.c_str(), ret)); return; }
    if (o->kind != H_RECV) return;
    if (ret > 0) { h->rx.append((const char *)d, l); while (!h->want.empty()) { Resp rs; std::string why; int k = parse_resp(h->rx, rs, why); if (k == 0) break; int id = h->want.front(); if (k < 0) { w->v(p->mode == 4 ? "X04,X01" : ALL, fmt("request %d (%s): the client got ", id, p->req[id].method.c_str()) + why); h->broken = true; return; } h->want.pop_front(); judge(p, h, id, rs); } if (h->want.empty() && !h->rx.empty()) w->v(ALL, fmt("%s: %zu bytes beyond the last response", h->n->name.c_str(), h->rx.size())); return; }
    h->broken = true; int id = h->want.empty() ? 0 : h->want.front(); Req &q = p->req[id]; if (p->mode == 4 && !h->probe) return;
    w->v(P, fmt("request %d (%s /%c, %zu byte body): %s", id, q.method.c_str(), q.route, q.body.size(), ret == -11 ? fmt("no response within %.0f s", h->bound / 1e9).c_str() : fmt("connection closed without a response (%ld)", ret).c_str()));
}
static void usage(PWp p, int *pool, int *tls) { typedef void (*fn_t)(int *, int *); ((fn_t)p->px->img->sym("node_usage"))(pool, tls); }
static void px_final(PWp p) {
    World *w = p->w; Node *n = p->px; if (!n->alive) return; int pool[3], tls[5]; usage(p, pool, tls); if (!p->have_base) return;
    if (n->fd_open() != p->base_fd) w->v(ALL, fmt("the proxy holds %d descriptors after all connections ended (%d before the first)", n->fd_open(), p->base_fd));
    if (n->heap.size() != p->base_heap) w->v(ALL, fmt("the proxy holds %zu heap blocks after all connections ended (%zu before the first)", n->heap.size(), p->base_heap));
    for (int i = 0; i < 3; i++) if (pool[i] != p->base_pool[i]) w->v(ALL, fmt("the proxy holds %d/%d/%d message buffers after all connections ended", pool[0], pool[1], pool[2]));
    static const char *T[] = {"TLS sessions", "credentials", "DH parameters", "priorities", "certificates"}; for (int i = 0; i < 5; i++) if (tls[i] != p->base_tls[i]) w->v(ALL, fmt("the proxy holds %d %s after all connections ended (%d before the first)", tls[i], T[i], p->base_tls[i]));
    bool lst = false; for (auto &t : S->tcpl) if (t.first.ip == n->ip) lst = true; if (!lst) w->v(ALL, "the proxy no longer listens");
    w->stat["px_released"]++;
}
static void hc_finish(PWp p, HC *h) { if (h->done) return; h->done = true; p->done++; if (h->probe == false) { bool all = true; for (auto &x : p->hc) if (!x->probe && !x->done) all = false; if (all) for (auto &x : p->hc) if (x->probe && x->start) { auto f = x->start; x->start = nullptr; S->at(std::max(p->quiet, S->now) + p->settle, f); } }
    if (p->done == (int)p->hc.size()) S->after(p->grace, [p]() { px_final(p); S->stop = true; }); }
static HC *add_hc(PWp p, ns_t at, bool hostile = false) {
    World *w = p->w; auto h = std::make_unique<HC>(); h->idx = (int)p->hc.size(); h->hostile = hostile; Node *n = h->n = S->add_node("http" + std::to_string(h->idx), IP(10, 0, 2, h->idx + 1), take_image("http")); HC *hp = h.get(); p->bynode[n->id] = hp; p->hc.push_back(std::move(h));
    typedef int (*fn_t)(void *); auto f = (fn_t)n->img->sym("node_http_main"); auto go = [n, f]() { S->spawn(n, n->name, [n, f]() { f(n); }, 768 * 1024); }; if (at < 0) hp->start = go; else S->at(at, go); (void)w; return hp; }
static void px_world(PWp p, Rng &r, int nsv) {
    World *w = p->w; w->img = "dtls4"; w->check_models = false; w->fd_check = false; S->max_time = 200000 * SEC; S->on_ev = nullptr;
    bool onehost = nsv > 1 && r.chance(0.5); // several servers at one host, told apart by their ports
    for (int i = 0; i < nsv; i++) { p->sa.push_back(onehost ? fmt("10.0.0.1:%d", 5684 + i) : fmt("10.0.0.%d:5684", 1 + i)); Node *s = w->add_server(onehost ? IP(10, 0, 0, 1) : IP(10, 0, 0, 1 + i), onehost ? 5684 + i : 5684, r.chance(0.5) ? std::vector<std::string>{"/sep"} : std::vector<std::string>{}); auto &c = w->cfg[s->id]; snprintf(c.key, sizeof c.key, "%sgood_server_privkey.pem", CD); snprintf(c.cert, sizeof c.cert, "%sgood_server_cert.pem", CD); snprintf(c.trust, sizeof c.trust, "%sgood_root_client_cert.pem", CD); p->sv.push_back(s); w->start_server(s); }
    Node *n = p->px = S->add_node("proxy", IP(10, 0, 0, 50), take_image("proxy")); n->mt = true; static const char *LV[] = {"error", "notice", "info", "debug"};
    S->fs.files[std::to_string(n->ip) + ":proxy.conf"] = fmt("port = \"12437\"\nlog_level = \"%s\"\n\n[http_server]\ntrust_file = \"%sgood_root_client_cert.pem\"\ncert_file = \"%sgood_server_cert.pem\"\nkey_file = \"%sgood_server_privkey.pem\"\n\n[coap_client]\ntrust_file = \"%sgood_root_server_cert.pem\"\ncert_file = \"%sgood_client_cert.pem\"\nkey_file = \"%sgood_client_privkey.pem\"\n", LV[r.below(4)], CD, CD, CD, CD, CD, CD);
    typedef int (*fn_t)(void *); auto f = (fn_t)n->img->sym("node_proxy_main"); S->spawn(n, "proxy", [n, f]() { f(n); }, 768 * 1024);
    S->pf.stall_from = 100 * MS; S->at(90 * MS, [p]() { usage(p, p->base_pool, p->base_tls); p->base_fd = p->px->fd_open(); p->base_heap = p->px->heap.size(); p->have_base = true; });
    w->http_next_fn = [p](Node *n, http_op_t *o) { hc_next(p, p->bynode[n->id], o); }; w->http_ev_fn = [p](Node *n, const http_op_t *o, long r, const void *d, size_t l) { hc_ev(p, p->bynode[n->id], o, r, d, l); };
    w->on_note = [p, w](Node *n, const char *k, long a, long, const char *) { if (n != p->px) return; if (!strcmp(k, "sigpipe_disp")) p->sigign = a == 1; if (!strcmp(k, "sigpipe") && !p->sigign) w->v(ALL, "the proxy is killed by SIGPIPE when a client has gone"); if (!strcmp(k, "proxy_exit") || !strcmp(k, "exit")) w->v(ALL, fmt("the proxy process ended (%ld)", a)); };
    px_server(p);
}
static Conn mk_conn(PWp p, Rng &r, int mode, int nbatch, int pipe) {
    Conn c; c.prio = r.chance(0.5) ? "NORMAL" : "NORMAL:-VERS-TLS1.3"; c.endkind = (int)r.below(r.chance(0.1) ? 3 : 2);
    for (int i = 0; i < nbatch; i++) { Batch b; b.sd = r.next(); int k = r.chance(0.6) ? 1 : (int)r.range(1, pipe); for (int j = 0; j < k; j++) b.reqs.push_back(mk_req(p, r, mode)); b.nsplit = r.chance(0.5) ? 0 : (int)r.range(1, r.chance(0.2) ? 30 : 4); if (r.chance(0.5)) b.gap = r.chance(0.3) ? 60 * SEC / (b.nsplit + 1) : 50 * MS; if (r.chance(0.3)) b.think = r.range(0, r.chance(0.2) ? 50 * SEC : 500 * MS); c.batches.push_back(b); } return c; }
static bool ntf(std::map<std::string, long> &s) { return s["px_responses"] > 0 || s["px_released"] > 0; }

static void tcpf(Rng &r, Profile &f) { f.base_lat = r.range(1, 3) * MS; f.sched = r.chance(0.5) ? 0.2 : 0; if (r.chance(0.7)) { f.seg = r.chance(0.3) ? 0.9 : 0.3; f.delay_max = r.chance(0.5) ? 20 * MS : 2 * SEC; } f.delay = 0; if (r.chance(0.5)) f.shortrw = 0.3; if (r.chance(0.2)) stalls(r), f.stall *= 0.2, f.stall_max = std::min(f.stall_max, 1 * SEC); }
void p_X01(World &w) {
    Rng &r = w.rp; auto p = std::make_shared<PW>(); p->w = &w; p->mode = 1; Profile &f = S->pf; tcpf(r, f);
    px_world(p, r, r.chance(0.3) ? 2 : 1); bool el = r.chance(0.25); HC *h = add_hc(p, 100 * MS); int nc = el ? 1 : (int)r.range(1, 2); for (int i = 0; i < nc; i++) h->conns.push_back(mk_conn(p, r, 1, (int)r.range(1, 3), 4)); p->bound1 = 60 * SEC + 100 * f.stall_max; w.ntf = ntf;
    if (el) { f.drop = 0.05 + 0.2 * r.below(100) / 100.0; f.quiet_after = 100 * MS + r.range(50 * MS, 8 * SEC); p->bound1 += 200 * SEC; p->boundblk = 60 * SEC; w.stat["px_early_loss"]++; } // a few datagrams are lost between the proxy and the CoAP servers: retransmission makes up for it (one connection and no duplicates: a stray datagram of an old session aborts the set-up of the next)
}
// ---- X02: several connections at a time; either every client has a CoAP server of its own (nothing may fail) or they share one
// (the CoAP server sets up one session at a time, so set-up may fail; nothing may get mixed up all the same)
void p_X02(World &w) {
    Rng &r = w.rp; auto p = std::make_shared<PW>(); p->w = &w; p->mode = 2; p->P = "X02"; Profile &f = S->pf; tcpf(r, f); f.stall = 0; static const double pre[] = {0, 0.0005, 0.003, 0.01, 0.05}; f.preempt = pre[r.below(5)]; if (f.preempt > 0) { f.sched = r.chance(0.5) ? 0.6 : 0.2; if (r.chance(0.7)) { static const double ps[] = {0.01, 0.1, 1}; f.presleep = ps[r.below(3)]; f.presleep_n = (int)r.range(5, 400); f.presleep_max = r.chance(0.5) ? 5 * MS : 50 * MS; } }
    if (r.chance(0.6)) { static const double ts[] = {0.005, 0.02, 0.1}; f.tstall = ts[r.below(3)]; f.tstall_n = (int)r.range(5, 100); f.tstall_max = r.chance(0.5) ? 5 * MS : 100 * MS; }
    int nc = (int)r.range(2, 4); bool own = r.chance(0.6), many = r.chance(0.4); p->lenient = !own; px_world(p, r, own ? nc : (int)r.range(1, 2));
    // a thread kept off the processor can close its session while the next one of the same HTTP client is being set up, and that datagram aborts the set-up: one connection each then
    for (int i = 0; i < nc; i++) { if (own) p->force_srv = i; HC *h = add_hc(p, r.chance(0.5) ? 100 * MS + r.range(0, 20 * MS) : 100 * MS + r.range(0, 3 * SEC)); int k = own && (f.tstall > 0 || f.presleep > 0) ? 1 : (int)r.range(1, 2); for (int j = 0; j < k; j++) h->conns.push_back(mk_conn(p, r, r.chance(0.9) ? 2 : 1, (int)r.range(1, many ? 8 : 2), 3)); }
    p->bound1 = own ? 120 * SEC : 400 * SEC; if (!own) p->boundblk = 124 * SEC; p->grace = 500 * SEC; w.ntf = [](std::map<std::string, long> &s) { return s["px_responses"] > 1; };
}
// ---- X03: the CoAP side fails. Targeted: single requests meet a mute, garbling, resetting or failing server, everything else is exact. Otherwise: loss, partitions, crashes, slow handlers.
void p_X03(World &w) {
    Rng &r = w.rp; auto p = std::make_shared<PW>(); p->w = &w; p->mode = 3; p->P = "X03"; Profile &f = S->pf; f.base_lat = r.range(1, 3) * MS; f.sched = r.chance(0.5) ? 0.2 : 0; World *W = &w;
    p->targeted = r.chance(0.5); p->lenient = !p->targeted; int nsv = r.chance(0.2) ? 2 : 1; px_world(p, r, nsv); p->grace = 600 * SEC; p->bound1 = 400 * SEC; p->boundblk = 124 * SEC;
    HC *h = add_hc(p, 100 * MS); int nc = (int)r.range(1, 2); for (int i = 0; i < nc; i++) h->conns.push_back(mk_conn(p, r, 3, (int)r.range(1, 3), 3));
    w.ntf = [](std::map<std::string, long> &s) { return s["px_responses"] > 0; };
    if (p->targeted) {
        static const char *K[] = {"mute", "garble", "rst", "fail", "mute", "garble"}; for (auto &q : p->req) if (r.chance(0.4) && !q.second.fixed && !q.second.anyerr) { std::string k = K[r.below(6)]; if (k == "fail" && q.second.route != 's') k = "mute"; p->ctl[q.first] = k; }
        w.tls_out_fn = [p, W](Node *n, const void *d, size_t l, void *out, size_t) -> long {
            if (n == p->px) { Msg m; if (ref::parse(Bytes((const char *)d, l), m) == ref::OK && p->req.count(opid(m))) p->cur[p->sv[p->req[opid(m)].srv]->id] = opid(m); return -1; }
            if (!p->cur.count(n->id) || l < 4) return -1; int id = p->cur[n->id]; auto it = p->ctl.find(id); if (it == p->ctl.end()) return -1; const unsigned char *in = (const unsigned char *)d; unsigned char *o = (unsigned char *)out;
            if (S->ch.choose_at(K_OPSKIP, 200000 + id, [](Rng &) -> int64_t { return 0; })) { p->ctl.erase(it); return -1; }
            if (it->second == "mute") { S->fault("coap_answer_suppressed"); return 0; }
            if (it->second == "rst") { S->fault("coap_answer_reset"); o[0] = 0x70; o[1] = 0; o[2] = in[2]; o[3] = in[3]; return 4; }
            if (it->second == "garble") { S->fault("coap_answer_garbled"); Rng z(W->seed, 0x6a, id); memcpy(o, in, l); switch (z.below(3)) { case 0: o[0] = (unsigned char)((o[0] & 0xf0) | 9); return (long)l; case 1: return 1 + (long)z.below(3); default: if ((in[0] & 15) > 8) return 1; { size_t k = 4 + (in[0] & 15); o[k] = 0xff; return (long)k + 1; } } }
            return -1; };
        return;
    }
    if (r.chance(0.7)) { f.drop = r.chance(0.3) ? 0.4 : 0.1; f.dup = r.chance(0.5) ? 0.1 : 0; f.delay = 0.2; f.delay_max = r.chance(0.5) ? 500 * MS : 5 * SEC; } if (r.chance(0.3)) f.corrupt = 0.05;
    ns_t quiet = r.range(20, 400) * SEC; f.quiet_after = quiet; for (auto &q : p->req) if (r.chance(0.1)) p->ctl[q.first] = r.chance(0.5) ? "slow" : "fail";
    Node *sv = p->sv[0]; Node *px = p->px;
    if (r.chance(0.4)) { ns_t a = r.range(0, 30) * SEC + 50 * MS, b = a + r.range(1, 200) * SEC; b = std::min(b, quiet); if (b > a) { w.plan_at(a, [sv, px]() { S->fault("partition"); S->cut.push_back({sv->ip, px->ip}); }); w.plan_at(b, [] { S->fault("heal"); S->cut.clear(); }); S->at(quiet, []() { S->cut.clear(); }); } }
    if (r.chance(0.4)) { int nk = (int)r.range(1, 2); ns_t t = r.range(0, 20) * SEC + 60 * MS; for (int i = 0; i < nk; i++) { ns_t down = r.range(1, r.chance(0.5) ? 500 : 90000) * MS; bool mid = r.chance(0.5); int cd = (int)r.range(1, 40); if (t + down > quiet) break;
        w.plan_at(t, [W, sv, mid, cd, down, p]() { auto crash = [W, sv, down, p]() { if (!sv->alive) return; S->fault("crash"); W->stat["crash"]++; S->kill_node(sv); p->cur.erase(sv->id); S->after(down, [W, sv]() { if (!sv->alive) { S->fault("restart"); W->restart_server(sv); } }); }; if (!mid) crash(); else { sv->crash_in = cd; sv->on_crash = crash; } }); t += down + r.range(1, 60) * SEC; } S->at(quiet, [sv]() { sv->crash_in = 0; }); }
    if (r.chance(0.15)) { auto &c = w.cfg[sv->id]; static const char *X[] = {"rogue", "expired", "future"}; const char *x = X[r.below(3)]; snprintf(c.key, sizeof c.key, "%s%s_server_key.pem", CD, x); snprintf(c.cert, sizeof c.cert, "%s%s_server.pem", CD, x); W->stat["px_untrusted_server"]++; for (auto &q : p->req) if (q.second.srv == 0 && !q.second.fixed) q.second.anyerr = true; }
    else { p->quiet = quiet; HC *pr = add_hc(p, -1); pr->probe = true; Conn c; Batch b; int id; do { id = mk_req(p, r, 3); } while (p->req[id].anyerr || p->req[id].fixed); p->ctl.erase(id); b.reqs.push_back(id); b.sd = r.next(); c.batches.push_back(b); pr->conns.push_back(c); }
}

// ---- X04: hostile clients and failing system calls, threads and memory in the proxy
static Bytes hostile_bytes(PWp p, Rng &r) {
    int id = mk_req(p, r, 2); Bytes w = p->req[id].wire; std::string uri = p->req[id].uri; p->req.erase(id); size_t le = w.find("\r\n"), sp1 = w.find(' '), sp2 = w.find(' ', sp1 + 1); size_t he = w.find("\r\n\r\n");
    static const char *U[] = {"coap://", "coap:", "coap:///s?op=0", "coap://:5684/s", "coap://10.0.0.1:/s", "coap://10.0.0.1/s", "coaps://10.0.0.1/s?x=1", "coap://10.0.0.1:99999999/s", "coap://10.0.0.1:5684", "coap://[::1]:5684/s", "coap://[::1/s", "coap://[/s", "coap://%zz:5684/s", "coap://10.0.0.1:5684/%", "coap://10.0.0.1:5684/%4", "coap://10.0.0.1:5684/%00x", "coap://10.0.0.1:5684/a?%", "*", "/", "?", "#", "coap://a@b@c:1/", "coap://10.0.0.1:5684/s?&&&&", "coap://10.0.0.1:5684//////", "://", ":", "coap://@:/?#", "coap://10.0.0.1:0/s"};
    static const char *CH[] = {"ffffffff", "-5", "7fffffff", "80000000", "fffffffe", "-80000000", "0x10", "", " ", ";", "zz", "10000000000", "00000000000000000005", "-1", "7ffffffe", "fffffff0", "ffffff00", "2000"};
    static const char *CL[] = {"-1", "4294967296", "99999999999999999999", "2147483647", "2147483648", "abc", "", "-2147483648", "8192", "8193", "32767", "1e9", "5, 5"};
    int n = (int)r.range(1, 3);
    for (int k = 0; k < n; k++) switch (r.below(16)) {
        case 0: sp1 = w.find(' '); sp2 = sp1 == Bytes::npos ? sp1 : w.find(' ', sp1 + 1); if (sp2 != Bytes::npos) w.replace(sp1 + 1, sp2 - sp1 - 1, U[r.below(sizeof U / sizeof *U)]); break;
        case 1: w = "POST " + uri + " HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"; for (int i = (int)r.range(1, 4); i > 0; i--) { if (r.chance(0.4)) { Bytes d = rb(r, 1 + r.below(40)); w += fmt("%zx\r\n", d.size()) + d + "\r\n"; continue; } w += r.chance(0.2) ? "-2" : CH[r.below(sizeof CH / sizeof *CH)]; w += "\r\n"; if (r.chance(0.4)) continue; w += rb(r, r.below(40)); if (r.chance(0.5)) w += "\r\n"; } if (r.chance(0.5)) w += "0\r\n\r\n"; break;
        case 2: w = "PUT " + uri + " HTTP/1.1\r\nContent-Length: " + CL[r.below(sizeof CL / sizeof *CL)] + "\r\n\r\n" + rb(r, r.below(100)); break;
        case 3: for (int i = (int)r.range(1, 6); i > 0 && !w.empty(); i--) w[r.below(w.size())] = (char)r.next(); break;
        case 4: w.insert(r.below(w.size() + 1), 1, '\0'); break;
        case 5: w = w.substr(0, r.below(w.size() + 1)); break;
        case 6: if (!w.empty()) w.erase(r.below(w.size()), (size_t)r.range(1, 4)); break;
        case 7: { Bytes h; for (int i = (int)r.range(1, 4); i > 0; i--) { static const char *H[] = {"NoColonHere", " Leading: x", ":", ": v", "Etag: ", "Etag: 123456789abcdef", "Cache-Control: max-age=", "Cache-Control: max-age=99999999999999", "Accept: ", "Accept: text/plain, */*", "Content-Length: 3", "Content-Length: 0", "Transfer-Encoding: identity", "Transfer-Encoding: chunked", "\tTab", "X: a\r\n b\r\n\tc"}; h += std::string("\r\n") + H[r.below(16)]; } if (le != Bytes::npos && le <= w.size()) w.insert(le, h); break; }
        case 8: w = "GET coap://10.0.0.1:5684/s/" + std::string((size_t)r.range(200, 3000), 'p') + " HTTP/1.1\r\n\r\n"; break;
        case 9: w = "GET coap://10.0.0.1:5684/s?" + std::string((size_t)r.range(200, 3000), 'q') + " HTTP/1.1\r\n\r\n"; break;
        case 10: { w = "GET coap://10.0.0.1:5684"; for (int i = (int)r.range(1, 400); i > 0; i--) w += "/" + tok(r, 0, 3); w += " HTTP/1.1\r\n\r\n"; break; }
        case 11: w = "POST " + uri + " HTTP/1.1\r\nX: " + std::string((size_t)(r.chance(0.5) ? r.range(30000, 40000) : r.range(3900, 4200)), 'h') + (r.chance(0.5) ? "\r\n\r\n" : ""); break;
        case 12: { size_t b = (size_t)(r.chance(0.5) ? r.range(8190, 8195) : r.range(20000, 33000)); w = "POST " + uri + " HTTP/1.1\r\nContent-Length: " + std::to_string(b) + "\r\n\r\n" + rb(r, b); break; }
        case 13: w = rb(r, r.below(r.chance(0.2) ? 20000 : 200)); break;
        case 14: w += w; break;
        case 15: if (he != Bytes::npos && he <= w.size()) w.insert(he, "\r\nEtag: " + rb(r, r.below(12))); break; }
    return w;
}
static void hostile_script(PWp p, HC *h, Rng &r) {
    auto add = [&](http_op_t o) { h->script.push_back(o); }; auto stall = [&]() { return r.chance(0.3) ? r.range(0, 200) * SEC : r.range(0, 500) * MS; };
    for (int c = (int)r.range(1, 3); c > 0; c--) {
        int k = (int)r.below(10);
        if (k == 0) { add(hconn("good", "NORMAL", false)); if (r.chance(0.8)) add(hdata(p, h, H_RAW, r.chance(0.5) ? rb(r, 1 + r.below(300)) : Bytes("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", 11) + rb(r, r.below(500)))); add(hop(H_SLEEP, stall())); add(hop(H_CLOSE)); continue; }
        if (k == 1) { static const char *C[] = {"rogue", "none", "expired", "future"}; add(hconn(C[r.below(4)], r.chance(0.5) ? "NORMAL" : "NORMAL:-VERS-TLS1.3")); if (r.chance(0.5)) add(hop(H_RECV, 5 * SEC)); add(hop(H_SLEEP, stall())); add(hop(H_CLOSE)); continue; }
        add(hconn("good", r.chance(0.5) ? "NORMAL" : "NORMAL:-VERS-TLS1.3")); if (k == 2) { add(hop(H_SLEEP, stall())); if (r.chance(0.5)) add(hdata(p, h, H_RAW, rb(r, 1 + r.below(100)))); add(hop(H_CLOSE)); continue; }
        for (int m = (int)r.range(1, k == 3 ? 40 : 3); m > 0; m--) { Bytes d; if (k <= 5) { int id = mk_req(p, r, 2); d = p->req[id].wire; p->req.erase(id); if (k == 5) d = d.substr(0, r.below(d.size() + 1)); } else d = hostile_bytes(p, r);
            if (d.empty()) continue; if (r.chance(0.3) && d.size() > 2) { size_t at = 1 + r.below(d.size() - 1); add(hdata(p, h, H_SEND, d.substr(0, at))); add(hop(H_SLEEP, stall())); d = d.substr(at); } add(hdata(p, h, H_SEND, d)); if (k != 3 && r.chance(0.5)) add(hop(H_RECV, r.chance(0.5) ? 100 * MS : 130 * SEC)); if (r.chance(0.1)) add(hdata(p, h, H_RAW, rb(r, 1 + r.below(60)))); }
        if (r.chance(0.5)) add(hop(H_SLEEP, stall())); if (r.chance(0.3)) add(hop(H_BYE)); if (r.chance(0.3)) add(hop(H_SLEEP, stall())); add(hop(H_CLOSE)); }
    if (r.chance(0.2)) { h->linger = true; while (h->script.back().kind != H_CONNECT && h->script.back().kind != H_TCP && (h->script.back().kind == H_CLOSE || h->script.back().kind == H_BYE || h->script.back().kind == H_RECV || h->script.back().kind == H_SLEEP || r.chance(0.5))) h->script.pop_back(); p->w->stat["hostile_silent_for_good"]++; } // falls silent for good without closing
}
void p_X04(World &w) {
    Rng &r = w.rp; auto p = std::make_shared<PW>(); p->w = &w; p->mode = 4; p->P = "X04"; Profile &f = S->pf; tcpf(r, f); f.stall = 0; p->lenient = true; static const double pre[] = {0, 0, 0.001, 0.01}; f.preempt = pre[r.below(4)];
    px_world(p, r, 1); f.only_node = p->px->id; int nh = (int)r.range(1, 4); for (int i = 0; i < nh; i++) { HC *h = add_hc(p, 100 * MS + r.range(0, r.chance(0.5) ? 20 : 5000) * MS, true); hostile_script(p, h, r); }
    int nn = (int)r.below(3); for (int i = 0; i < nn; i++) { HC *h = add_hc(p, 100 * MS + r.range(0, 5000) * MS); int k = (int)r.range(1, 2); for (int j = 0; j < k; j++) h->conns.push_back(mk_conn(p, r, 2, (int)r.range(1, 2), 3)); }
    ns_t quiet = r.range(1, 400) * SEC; p->quiet = quiet; f.quiet_after = quiet; double mf = 0, pa = 0, sy = 0;
    if (r.chance(0.5)) mf = r.chance(0.5) ? 0.02 : 0.004; if (r.chance(0.3)) pa = r.chance(0.5) ? 0.1 : 0.02; if (r.chance(0.5)) { sy = r.chance(0.5) ? 0.2 : 0.04; auto on = [&](double q) { return r.chance(q); };
        if (on(0.6)) f.sysfail.push_back({SYS_ACCEPT, {EMFILE, ENFILE, ECONNABORTED, EINTR, ENOBUFS}}); if (on(0.6)) f.sysfail.push_back({SYS_PTHREAD_CREATE, {EAGAIN}}); if (on(0.5)) f.sysfail.push_back({SYS_SOCKET, {EMFILE, ENOMEM}}); if (on(0.5)) f.sysfail.push_back({SYS_TIMERFD_CREATE, {EMFILE, ENOMEM}}); if (on(0.3)) f.sysfail.push_back({SYS_TIMERFD_SETTIME, {EINVAL}});
        if (on(0.4)) f.sysfail.push_back({SYS_SELECT, {EINTR, ENOMEM}}); if (on(0.4)) f.sysfail.push_back({SYS_GAI, {1}}); if (on(0.4)) f.sysfail.push_back({SYS_CONNECT, {ENETUNREACH}}); if (on(0.3)) f.sysfail.push_back({SYS_FCNTL, {EINVAL}}); if (on(0.4)) f.sysfail.push_back({SYS_SEND, {ECONNREFUSED, ENOBUFS, ENETUNREACH}}); if (on(0.4)) f.sysfail.push_back({SYS_RECV, {ECONNREFUSED, ENOMEM}}); }
    S->at(95 * MS, [mf, pa, sy]() { S->pf.malloc_fail = mf; S->pf.alloc = pa; S->pf.sys = sy; });
    HC *pr = add_hc(p, -1); pr->probe = true; Conn c; Batch b; int id; do { id = mk_req(p, r, 2); } while (p->req[id].fixed); b.reqs.push_back(id); b.sd = r.next(); c.batches.push_back(b); pr->conns.push_back(c);
    p->bound1 = 400 * SEC; p->boundblk = 124 * SEC; p->grace = 600 * SEC; w.ntf = [](std::map<std::string, long> &s) { for (auto &k : s) if (k.first.compare(0, 10, "hostile_op") == 0) return true; return false; };
}
}
