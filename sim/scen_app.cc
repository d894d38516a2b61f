// The sample applications as whole programs: A01 (registrations), A02 (file transfer), A03 (time).
#include "world.h"
#include "scen.h"
#include <errno.h>
#include <stdarg.h>
#include <time.h>
#include <algorithm>
namespace sim {
static std::string fmt(const char *f, ...) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
extern const int64_t WALL_SECONDS;
enum { P_REGS, P_REGC, P_XFERS, P_XFERC, P_TIMES, P_TIMEC };
struct Run { ns_t gap; std::vector<std::string> args; ns_t t0 = 0, t1 = 0; int exit = -9; bool probe = false, done = false; std::string id; Bytes content; bool missing = false, overlap = false, disturbed = true; };
struct AppW {
    World *w; Node *sv = nullptr; int sprog = 0; Addr sa; std::vector<Node *> cl; std::map<int, std::vector<Run>> runs; std::map<int, size_t> pos; int cprog = 0; ns_t quiet = 0; bool faultless = false; bool maybe_down = false; int nrunning = 0;
    std::function<void(Node *, Run &)> on_start, on_exit; std::vector<std::pair<ns_t, ns_t>> off; int images = 8; ns_t boot = 0;
};
typedef std::shared_ptr<AppW> AP;
static void exec(AP a, Node *n, int prog, std::vector<std::string> args) {
    auto v = std::make_shared<std::vector<std::string>>(args); auto p = std::make_shared<std::vector<char *>>(); for (auto &s : *v) p->push_back(&s[0]); p->push_back(nullptr); int ac = (int)v->size();
    typedef int (*fn_t)(void *, int, int, char **); auto f = (fn_t)n->img->sym("node_app_main"); S->spawn(n, n->name, [n, f, v, p, ac, prog]() { f(n, prog, ac, p->data()); }, 768 * 1024); }
static std::string r_host(uint32_t ip) { return fmt("%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255); }
static void srv_start(AP a) { a->boot = S->now; exec(a, a->sv, a->sprog, {"server", r_host(a->sa.ip), std::to_string(a->sa.port)}); }
static void next_run(AP a, Node *n) {
    size_t k = a->pos[n->id]; if (k >= a->runs[n->id].size()) return; Run &r = a->runs[n->id][k]; ns_t at = S->now + r.gap; if (r.probe) at = std::max(at, a->quiet);
    S->at(at, [a, n, k]() { Run &r = a->runs[n->id][k]; if (!r.probe && S->ch.choose_at(K_OPSKIP, 100001 + (uint32_t)(n->id * 64 + k), [](Rng &) -> int64_t { return 0; })) { a->pos[n->id]++; next_run(a, n); return; }
        r.t0 = S->now; r.t1 = INT64_MAX; a->nrunning++; if (a->nrunning > 1) for (auto &x : a->runs) for (auto &y : x.second) if (y.t1 == INT64_MAX && !y.done) y.overlap = true; a->w->stat["app_runs"]++; if (a->on_start) a->on_start(n, r); exec(a, n, a->cprog, r.args); }); }
static void app_world(AP a, Rng &r, int nclients, int sprog, int cprog) {
    World *w = a->w; w->img = r.chance(0.3) ? "app6" : "app4"; bool v6 = w->img == "app6"; w->check_models = false; w->fd_check = false; w->shutdown_at_end = false; S->max_time = 20000 * SEC; a->sprog = sprog; a->cprog = cprog; a->sa.ip = IP(10, 0, 0, 1); a->sa.port = (uint16_t)(r.chance(0.5) ? 5683 : 12345);
    a->sv = S->add_node("server", a->sa.ip, take_image(w->img.c_str())); a->sv->v6 = v6; w->saddr = a->sa; srv_start(a);
    for (int i = 0; i < nclients; i++) { static const unsigned char oct[] = {1, 10, 100, 255, 11, 110, 2, 21}; Node *n = S->add_node("client" + std::to_string(i), IP(10, 0, 1 + (i & 1) * 254, oct[i]), take_image(w->img.c_str())); n->v6 = v6; a->cl.push_back(n); }
    w->on_note = [a, w](Node *n, const char *k, long x, long prog, const char *) {
        if (strcmp(k, "app_exit")) return; if (n == a->sv && x != 0 && S->now < a->boot + 5 * SEC && S->cnt["malloc_fail"] + S->cnt["pool_fail"] > 0) { w->stat["start_failed"]++; ns_t b = a->boot; int ic = a->sv->incarnation; S->after(SEC, [a, b, ic]() { if (a->sv->alive && a->boot == b && a->sv->incarnation == ic) srv_start(a); }); return; } if (n == a->sv) { w->v("A01,A02,A03", fmt("the server program ended (%ld)", x)); return; }
        size_t p = a->pos[n->id]; Run &q = a->runs[n->id][p]; q.t1 = S->now; q.exit = (int)x; q.done = true; a->nrunning--; w->stat[x == 0 ? "app_success" : "app_failure"]++; if (a->on_exit) a->on_exit(n, q); a->pos[n->id]++; next_run(a, n); };
}
static void net(AP a, Rng &r) { // fault regime of the run
    World *w = a->w; Profile &f = S->pf; int lv = a->faultless ? 0 : (int)r.range(0, 2); Swarm::net(f, r, lv); f.delay_max = std::min(f.delay_max, 15 * SEC); if (a->faultless) { a->quiet = 0; return; } stalls(r); f.stall_max = std::min<ns_t>(f.stall_max, 500 * MS);
    a->quiet = r.range(10, 200) * SEC; f.quiet_after = a->quiet; std::vector<uint32_t> ips; for (Node *n : a->cl) ips.push_back(n->ip); ips.push_back(a->sv->ip);
    if (r.chance(0.3)) { uint32_t x = r.pick(ips); ns_t t = r.range(0, a->quiet), e = std::min<ns_t>(a->quiet, t + r.range(1, 100) * SEC); w->plan_at(t, [x]() { S->fault("partition"); S->cut.push_back({x, 0}); }); w->plan_at(e, [x]() { for (size_t i = 0; i < S->cut.size(); i++) if (S->cut[i].first == x) { S->cut.erase(S->cut.begin() + i); break; } S->fault("heal"); }); S->at(a->quiet, []() { S->cut.clear(); }); }
    a->quiet += 120 * SEC; } // what was under way has arrived or been given up
static void crashes(AP a, Rng &r, std::function<void()> onboot) {
    World *w = a->w; if (a->faultless || !r.chance(0.35)) return; int room = a->images - 1 - (int)a->cl.size(); int n = (int)r.range(1, std::min(2, room)); if (room < 1) return; ns_t lim = S->pf.quiet_after, t = r.range(50 * MS, lim / 2); a->maybe_down = true;
    for (int i = 0; i < n; i++) { bool mid = r.chance(0.6); int cd = (int)r.range(1, 60); ns_t down = r.range(1, r.chance(0.5) ? 500 : 20000) * MS;
        w->plan_at(t, [a, w, mid, cd, down, onboot]() { Node *sv = a->sv; auto crash = [a, w, sv, down, onboot]() { if (!sv->alive || S->now > a->quiet - 60 * SEC) return; S->fault("crash"); w->stat["crash"]++; S->kill_node(sv);
                S->after(down, [a, w, sv, onboot]() { if (sv->alive) return; S->fault("restart"); sv->img = take_image(w->img.c_str()); sv->alive = true; sv->incarnation++; sv->heap.clear(); sv->stalled_until = 0; sv->fds.clear(); sv->fds.resize(3); if (onboot) onboot(); srv_start(a); }); };
            if (!mid) crash(); else { sv->crash_in = cd; sv->on_crash = crash; } });
        t += r.range(1, 60) * SEC; }
    S->at(a->quiet - 60 * SEC, [a]() { a->sv->crash_in = 0; }); }
// ---------------------------------------------------------------- A01
typedef std::vector<std::pair<std::string, std::string>> List;
static bool reg_list(AP a, List &l) { static char b[65536]; if (!a->sv->alive) return false; typedef int (*fn_t)(char *, size_t); int n = ((fn_t)a->sv->img->sym("node_reg_list"))(b, sizeof b); if (n < 0) return false; l.clear(); for (int i = 0; i < n;) { std::string x(b + i); i += (int)x.size() + 1; std::string y(b + i); i += (int)y.size() + 1; l.push_back({x, y}); } return true; }
static std::map<std::string, uint32_t> as_map(World *w, const List &l) { std::map<std::string, uint32_t> m; for (auto &e : l) { if (m.count(e.first)) w->v("A01", fmt("the server lists '%s' more than once", e.first.c_str())); m[e.first] = parse_peer((e.second + "|0").c_str()).ip; } return m; }
static std::string cut(const std::string &s) { std::string o; for (char c : s.substr(0, 40)) o.push_back(isalnum((unsigned char)c) ? c : '.'); return o; }
void p_A01(World &w) {
    Rng &r = w.rp; auto a = std::make_shared<AppW>(); a->w = &w; World *W = &w; a->faultless = r.chance(0.25); int nc = (int)r.range(1, 5); app_world(a, r, nc, P_REGS, P_REGC); net(a, r);
    std::vector<std::string> ids; int ni = (int)r.range(1, 6); std::string common(30, 'x'); for (auto &c : common) c = (char)r.range(33, 126);
    for (int i = 0; i < ni; i++) { std::string s; switch (r.below(5)) { case 0: s = std::string(1, (char)('a' + i)); break; case 1: s = common + (char)('a' + i); break; case 2: s = common.substr(0, (size_t)r.range(1, 30)); break; case 3: s = common; break; default: for (int k = (int)r.range(1, 31); k > 0; k--) s.push_back((char)r.range(1, 255)); } ids.push_back(s); }
    for (Node *n : a->cl) { int k = (int)r.range(1, 3); for (int i = 0; i <= k; i++) { Run q; q.gap = r.chance(0.5) ? r.range(1, 3000) * MS : r.range(0, 40) * SEC; q.id = r.pick(ids); if (i < k && r.chance(0.03)) q.id = std::string((size_t)r.range(32, 60), 'L'); q.probe = i == k; q.args = {"reg_client", "10.0.0.1", std::to_string(a->sa.port), q.id}; a->runs[n->id].push_back(q); } next_run(a, n); }
    if (!a->faultless) { S->pf.only_node = r.chance(0.5) ? a->sv->id : -1; double mf = r.chance(0.3) ? 0.1 : 0, pa = r.chance(0.3) ? 0.02 : 0; S->at(20 * MS, [mf, pa]() { S->pf.malloc_fail = mf; S->pf.alloc = pa; }); }
    struct St { std::map<std::string, uint32_t> cur; bool have = false; bool act = false; Addr from; Msg q; bool allowed = false, known = false; struct A { int code; size_t seq; ns_t t; int inc; std::string id; bool sure; }; std::map<std::pair<Addr, unsigned>, A> ans; std::map<Addr, unsigned> last; std::vector<Addr> order; std::vector<std::pair<std::pair<ns_t, uint32_t>, std::string>> regs; bool ambiguous = false; };
    auto st = std::make_shared<St>(); crashes(a, r, [st]() { st->cur.clear(); st->act = false; st->ans.clear(); st->order.clear(); });
    auto settle = [a, st, W](bool sent, const Msg *resp) { // the list after the server dealt with the datagram, against the list before
        List l; if (!reg_list(a, l)) return; auto m = as_map(W, l); auto want = st->cur; bool ok = st->act && st->allowed; if (ok) want[st->q.payload] = st->from.ip;
        int code = resp ? resp->cls * 100 + resp->det : 0; bool good = sent && resp && resp->cls == 2; bool had = st->cur.count(st->q.payload) > 0;
        if (good && ok && st->ambiguous) st->regs.push_back({{S->now, st->from.ip}, st->q.payload});
        if (good && ok && !st->known && !st->ambiguous) { if (m != want) W->v("A01", fmt("the server answered %d to '%s' but its list of %zu entries does not show it with that client's address", code, cut(st->q.payload).c_str(), l.size()));
            else if (code != (had ? 204 : 201)) W->v("A01", fmt("the server answered %d.%02d to the %s registration of '%s'", code / 100, code % 100, had ? "repeated" : "first", cut(st->q.payload).c_str()));
            st->regs.push_back({{S->now, st->from.ip}, st->q.payload}); W->stat[had ? "changed" : "created"]++; }
        else if (m != st->cur && !(ok && m == want)) W->v("A01", fmt("the list changed from %zu to %zu entries although no new registration was received", st->cur.size(), l.size()));
        else if (good && !ok && !st->known && !st->ambiguous) W->v("A01", fmt("the server answered %d to a request that is no registration", code));
        st->cur = m; st->ambiguous = false; };
    S->on_ev = [a, st, W, settle](Ev &e) {
        if (e.node != a->sv->id) return;
        if (e.k == EV_RECV && !e.data.empty()) { if (st->act) settle(false, nullptr); else { st->allowed = false; settle(false, nullptr); } st->act = true; st->from = e.from; st->known = st->ambiguous = false; Msg q; bool pr = ref::parse(e.data, q) == ref::OK; st->q = q;
            st->allowed = pr && q.cls == 0 && q.det == 2 && (q.type == ref::CON || q.type == ref::NON) && q.path() == "/client/id" && !q.payload.empty() && q.payload.size() < 32 && q.payload.find('\0') == Bytes::npos;
            auto i = st->ans.find({e.from, q.mid}); if (pr && i != st->ans.end()) { std::set<Addr> others; for (size_t k = i->second.seq; k < st->order.size(); k++) if (!(st->order[k] == e.from)) others.insert(st->order[k]);
                if (others.size() >= 7 || st->last[e.from] != q.mid /* the server remembers the last message of each endpoint */ || !i->second.sure || S->cnt["malloc_fail"] + S->cnt["pool_fail"] > 0) st->ambiguous = true; else { st->known = true; st->allowed = false; W->stat["dup_requests"]++; } }
            st->order.push_back(e.from); if (pr) st->last[e.from] = q.mid; return; }
        if (e.k == EV_SEND && st->act && e.to == st->from) { Msg m; if (ref::parse(e.data, m) != ref::OK) return; bool final = m.cls != 0; if (!final) return;
            auto key = std::make_pair(st->from, st->q.mid); auto i = st->ans.find(key); int code = m.cls * 100 + m.det; if (st->known && i != st->ans.end() && i->second.code != code) W->v("A01", fmt("a repeated datagram of '%s' was answered %d instead of %d again", cut(st->q.payload).c_str(), code, i->second.code));
            settle(true, &m); st->ans[key] = {code, st->order.size(), S->now, 0, st->q.payload, true}; st->act = false; } };
    a->on_exit = [a, st, W](Node *n, Run &q) {
        bool reg = false; for (auto &x : st->regs) if (x.first.second == n->ip && x.first.first >= q.t0 && x.second == q.id) reg = true;
        if (q.exit == 0) { W->stat["registered"]++; if (!reg) W->v("A01", fmt("%s reported success for '%s' although the server did not register it", n->name.c_str(), cut(q.id).c_str())); }
        else if (q.id.size() > 31) { if (reg) W->v("A01", "an identifier that is too long was registered"); }
        else if (q.probe || a->faultless) W->v("A01", fmt("%s could not register '%s' although nothing failed%s", n->name.c_str(), cut(q.id).c_str(), q.probe ? " any more" : "")); };
    // requests that are no registrations
    if (r.chance(0.5)) { int np = (int)r.range(1, 2); for (int i = 0; i < np; i++) { RawPeer *p = w.add_raw(IP(10, 0, 2, i + 1), 40000); p->on = [](RawPeer &, Addr, const Bytes &) {}; Addr sa = a->sa; int k = (int)r.range(1, 6); ns_t t = r.range(1, 5000) * MS; unsigned mid = (unsigned)r.below(60000);
        for (int j = 0; j < k; j++) { Msg m; m.type = r.chance(0.7) ? ref::CON : ref::NON; m.mid = mid++; m.token = "tk"; m.det = 2; m.ops = {{11, "client"}, {11, "id"}}; std::string id = r.pick(ids); switch (r.below(6)) { case 0: m.det = (int)r.range(1, 4); m.payload = id; break; case 1: m.ops[1].val = r.chance(0.5) ? "i" : "idx"; m.payload = id; break; case 2: m.payload = ""; break; case 3: m.payload = id + std::string(32, 'y'); if (r.chance(0.5)) m.payload.resize(32); break; case 4: m.ops.push_back({11, r.chance(0.5) ? "" : "id"}); m.payload = id; break; default: m.payload = id; }
            Bytes d = ref::build(m); w.plan_at(t, [W, p, sa, d]() { W->raw_send(p, sa, d); }); t += r.range(1, 20000) * MS; } } }
    w.ntf = [](std::map<std::string, long> &s) { return s["created"] + s["changed"] > 0; };
}
// ---------------------------------------------------------------- A02
void p_A02(World &w) {
    Rng &r = w.rp; auto a = std::make_shared<AppW>(); a->w = &w; World *W = &w; a->faultless = r.chance(0.25); int nc = (int)r.range(1, 3); app_world(a, r, nc, P_XFERS, P_XFERC); net(a, r); std::string out = std::to_string(a->sa.ip) + ":out";
    int fn = 0; for (Node *n : a->cl) { int k = (int)r.range(1, 3); for (int i = 0; i <= k; i++) { Run q; q.gap = r.chance(0.5) ? r.range(1, 3000) * MS : r.range(0, 40) * SEC; q.probe = i == k; static const int E[] = {0, 1, 63, 64, 65, 127, 128, 129, 1024, 4095, 4096, 4097, 8127, 8128, 8129, 8191, 8192}; size_t sz = r.chance(0.4) ? (size_t)E[r.below(sizeof E / sizeof *E)] : r.chance(0.5) ? (size_t)r.range(1, 600) : r.chance(0.5) ? (size_t)r.range(4097, 8192) : (size_t)r.range(1, 8192);
            if (!q.probe && r.chance(0.08)) sz = r.chance(0.5) ? (size_t)r.range(8193, 8300) : (size_t)r.range(8193, 20000);
            int kind = (int)r.below(3); for (size_t b = 0; b < sz; b++) q.content.push_back(kind == 0 ? (char)r.next() : kind == 1 ? (char)('a' + (b / 64) % 26) : 0);
            q.missing = !q.probe && r.chance(0.03); std::string nm = fmt("in%d", fn++); if (!q.missing) S->fs.files[std::to_string(n->ip) + ":" + nm] = q.content; q.args = {"transfer_client", "10.0.0.1", std::to_string(a->sa.port), nm}; a->runs[n->id].push_back(q); } next_run(a, n); }
    if (!a->faultless) { S->pf.only_node = r.chance(0.6) ? a->sv->id : -1; double mf = r.chance(0.2) ? 0.1 : 0, pa = r.chance(0.2) ? 0.005 : 0, dk = r.chance(0.6) ? (r.chance(0.5) ? 0.5 : 0.15) : 0; S->at(20 * MS, [mf, pa, dk]() { S->pf.malloc_fail = mf; S->pf.alloc = pa; S->pf.disk = dk; }); }
    crashes(a, r, nullptr); auto torn = std::make_shared<int>(0);
    // the server recognises only the last message of an endpoint as repeated: late copies of earlier blocks may store a file once more
    auto late = []() { for (auto &c : S->cnt) if (c.second && (c.first == "dup" || c.first == "delay" || !c.first.compare(0, 5, "disk_"))) return true; return false; };
    a->on_exit = [a, W, out, late](Node *n, Run &q) {
        bool stored = false; for (auto &c : S->fs.closed) if (c.name == out && c.t >= q.t0 && c.t <= q.t1 && c.data == q.content) stored = true;
        if (q.exit == 0) { W->stat["stored"]++; if (q.missing) W->v("A02", fmt("%s reported success for a file that does not exist", n->name.c_str())); else if (!stored) { size_t got = 0; for (auto &c : S->fs.closed) if (c.name == out && c.t >= q.t0) got = c.data.size(); W->v("A02", fmt("%s reported success but the server did not store its %zu bytes (%zu bytes stored)", n->name.c_str(), q.content.size(), got)); }
            else if (!q.overlap && !late() && S->fs.files[out] != q.content) W->v("A02", fmt("%s reported success but the stored file differs from its %zu bytes when it ends", n->name.c_str(), q.content.size())); }
        else if (!q.missing && !q.content.empty() && q.content.size() <= 8192 && (q.probe || a->faultless)) W->v("A02", fmt("%s could not transfer %zu bytes although nothing failed%s", n->name.c_str(), q.content.size(), q.probe ? " any more" : "")); };
    w.ntf = [](std::map<std::string, long> &s) { return s["app_runs"] > 0; };
}
// ---------------------------------------------------------------- A03
void p_A03(World &w) {
    Rng &r = w.rp; auto a = std::make_shared<AppW>(); a->w = &w; World *W = &w; a->faultless = r.chance(0.2); int nc = (int)r.range(1, 4); app_world(a, r, nc, P_TIMES, P_TIMEC); net(a, r);
    static const int64_t D = 86400; auto joff = [&]() -> ns_t { return (r.chance(0.3) ? r.range(-5, 5) : r.chance(0.5) ? r.range(-3600, 3600) : r.range(-400 * D, 4000 * D)) * SEC; };
    a->off.push_back({0, r.chance(0.5) ? 0 : joff()}); a->sv->wall_off = a->off[0].second; for (Node *n : a->cl) if (r.chance(0.5)) { n->wall_off = joff(); S->fault("clock_skew"); }
    if (r.chance(0.5)) { int nj = (int)r.range(1, 4); for (int i = 0; i < nj; i++) { ns_t o = joff(); w.plan_at(r.range(0, 60) * SEC, [a, o]() { S->fault("clock_jump"); a->sv->wall_off = o; a->off.push_back({S->now, o}); }); } }
    for (Node *n : a->cl) { int k = (int)r.range(1, 2); for (int i = 0; i <= k; i++) { Run q; q.gap = r.range(0, 5000) * MS; q.probe = i == k; q.args = {"time_client", "10.0.0.1", std::to_string(a->sa.port), fmt("%d", (int)r.range(1, 6))}; a->runs[n->id].push_back(q); } next_run(a, n); }
    crashes(a, r, nullptr); auto asked = std::make_shared<std::map<int, ns_t>>(); auto chain = w.on_note;
    w.on_note = [a, W, asked, chain](Node *n, const char *k, long x, long y, const char *s) {
        chain(n, k, x, y, s); if (!strcmp(k, "time_ask")) { (*asked)[n->id] = S->now; return; } if (strcmp(k, "time_got")) return; ns_t t0 = (*asked)[n->id], t1 = S->now; Run &q = a->runs[n->id][a->pos[n->id]];
        if (x < 0) { W->stat["no_time"]++; if (q.probe || a->faultless) W->v("A03", fmt("%s got no time (%ld) although nothing failed%s", n->name.c_str(), x, q.probe ? " any more" : "")); return; } W->stat["times"]++;
        struct tm tm; memset(&tm, 0, sizeof tm); const char *e = strptime(s, "%a %b %d %H:%M:%S %Y", &tm); if (!e || *e || (long)strlen(s) != x) { W->v("A03", fmt("%s reported '%s' (%ld), which is no time", n->name.c_str(), s, x)); return; }
        int64_t v = timegm(&tm); bool ok = false; for (size_t i = 0; i < a->off.size(); i++) { ns_t lo = std::max(t0, a->off[i].first), hi = std::min(t1, i + 1 < a->off.size() ? a->off[i + 1].first : INT64_MAX); if (lo > hi) continue; int64_t b = (WALL_SECONDS * SEC + lo + a->off[i].second) / SEC, c = (WALL_SECONDS * SEC + hi + a->off[i].second) / SEC; if (v >= b && v <= c) ok = true; }
        if (!ok) W->v("A03", fmt("%s reported '%s', which the server's clock did not show between %.3f s and %.3f s", n->name.c_str(), s, t0 / 1e9, t1 / 1e9)); };
    w.ntf = [](std::map<std::string, long> &s) { return s["times"] > 0; };
}
}
