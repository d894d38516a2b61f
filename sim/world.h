// Worlds of CoAP nodes: real FreeCoAP servers/clients, scripted raw peers, reference models.
#pragma once
#include "core.h"
#include "refcoap.h"
#include <list>
namespace sim {
using ref::Msg;

void app_to_ref(const app_msg_t *a, Msg &m);
void ref_to_app(const Msg &m, app_msg_t *a);
Addr parse_peer(const char *p);

struct World;
// ---------------------------------------------------------------- reference model of a server
struct SrvModel {
    World *w; Node *n = nullptr; Addr addr; std::vector<std::string> seps; bool on = true; bool strict_table = true;
    enum EK { E_ACK, E_RST, E_RESP, E_SAME };
    struct ES { EK kind; unsigned mid; int type; Bytes token; bool content; Msg want; Bytes same; const char *props; };
    struct T {
        bool have = false; unsigned mid = 0; Bytes req; bool sep = false, con = false, bw = false; Bytes reply; bool replied = false;
        bool unsure = false; ns_t last = 0; std::vector<unsigned> own_mids;
        bool pend = false, pend_unsure = false; Bytes presp; unsigned pmid = 0; int nretr = 0; ns_t tx = 0, t0gap = 0, t0min = 0, tx_stall = 0;
        uint64_t others_since = 0;
    };
    std::map<Addr, T> t;
    struct Exp { bool active = false; Addr from; Bytes data; Msg m; bool dup = false, h_must = false, h_may = false, h_called = false, loose = false, isnew = false, sep = false; std::list<ES> sends; app_act_t *act = nullptr; bool h_err = false; const char *hprops = "S01"; bool maybe_dup = false; bool bw = false; uint64_t seq = 0; } cur;
    ns_t stall = 0; uint64_t nrecv = 0, nreq = 0, ndup = 0, nretrans = 0, nacked = 0, nevict = 0, nrst = 0, n402 = 0;
    bool is_sep(const Msg &m) { std::string p = m.path(); for (auto &s : seps) if (s == p) return true; return false; }
    void ev(Ev &e); void recv(Ev &e); void send(Ev &e); void handle(Addr a, const app_msg_t *q); void handled(Addr a, const app_act_t *act);
    void settle(bool end = false); void timers(ns_t now); void evict(const Addr *self); void drop(Addr a) { t.erase(a); }
    void bad(const char *props, const std::string &m);
    void reset() { t.clear(); cur = Exp(); }
    size_t tracked() { return t.size(); }
};
// ---------------------------------------------------------------- reference model of a client
struct CliModel {
    World *w; Node *n = nullptr; bool on = true; bool in_op = false; cli_op_t op; ns_t t_start = 0; bool started = false;
    bool active = false; Msg req; Bytes reqb; std::vector<ns_t> tx; std::vector<ns_t> tx_stall; int phase = 0; ns_t t_ack = 0, ack_stall = 0;
    bool early = false; bool may_fail = false, loose = false; int must_err = 0; bool succ = false; Msg succ_msg; ns_t t_succ = 0; bool sysfault = false; bool resolved() { return succ || must_err; }
    struct Owe { int type; unsigned mid; }; std::list<Owe> owed; std::map<unsigned, ns_t> mids; std::set<Bytes> tokens; bool coincidence = false;
    ns_t stall = 0, start_stall = 0; int subex = 0; Addr server; bool check_content = true;
    uint64_t nsucc = 0, ntimeout = 0, nreset = 0, nretr = 0, nrej = 0, nstale = 0;
    void begin(const cli_op_t *o); void ev(Ev &e); void send(Ev &e); void recv(Ev &e);
    void result(long ret, const app_msg_t *resp); void newreq(Ev &e, const Msg &m); void endsub();
    void bad(const char *props, const std::string &m);
};
struct RawPeer { int idx; Addr a; std::function<void(RawPeer &, Addr from, const Bytes &)> on; std::map<std::string, long> v; std::vector<Bytes> sent, got; std::vector<ns_t> got_t; Rng r{0}; };

struct ClientScript { std::vector<cli_op_t> ops; size_t pos = 0; bool done = false; int results = 0; std::vector<std::shared_ptr<std::vector<unsigned char>>> bufs; };
struct Invocation { ns_t t; Addr peer; Msg req; Msg resp; int mode; int node; int inc; };
struct Result { ns_t t0, t1; int node; int opid; long ret; Msg req, resp; int kind; };

struct World : Hooks {
    std::string prop; uint64_t seed; Rng rp; std::string tier;
    std::vector<std::unique_ptr<SrvModel>> sm; std::map<int, std::unique_ptr<CliModel>> cm; std::map<int, ClientScript> scripts;
    std::vector<std::unique_ptr<RawPeer>> raws; std::map<Addr, RawPeer *> rawmap; std::vector<Invocation> inv; std::vector<Result> res;
    std::vector<Node *> servers, clients; std::map<int, node_cfg_t> cfg; std::map<int, ns_t> opstart; std::vector<std::function<void()>> finals;
    std::string img = "plain4"; Addr saddr; int opctr = 0; uint32_t plan_idx = 0; bool server_exit_ok = false; ns_t handler_slow = 0; double handler_slow_p = 0; double handler_err_p = 0;
    bool check_models = true; bool fd_check = true; std::map<std::string, long> stat; bool nontrivial = false; std::map<int, std::array<int, 3>> pool0; bool shutdown_at_end = true;
    std::map<std::string, std::function<void(Node *, const Msg &, Addr, app_act_t *)>> routes; // by first path segment
    std::function<void(Node *, const Msg &, Addr, unsigned char *, size_t, size_t *, app_act_t *)> rx_fn;
    std::function<void(Node *, const cli_op_t *, long, const Msg &, const Msg &)> on_result; std::function<void(Node *, cli_op_t *)> on_next, on_opstart; std::function<void(Node *, int)> on_created;
    std::function<void(Node *, const char *, long, long, const char *)> on_note;
    std::vector<std::shared_ptr<Bytes>> keep; bool server_down_seen = false; std::set<int> dead;
    std::vector<std::vector<unsigned char>> bodies; std::function<bool(std::map<std::string, long> &)> ntf;

    World(const std::string &p, uint64_t sd) : prop(p), seed(sd), rp(sd, 0x91a7) {}
    Node *add_server(uint32_t ip, uint16_t port, const std::vector<std::string> &seps, const char *kind = nullptr);
    void start_server(Node *n);
    void restart_server(Node *n, const char *kind = nullptr);
    Node *add_client(uint32_t ip, Addr server, const char *kind = nullptr);
    void start_client(Node *n, ns_t at);
    RawPeer *add_raw(uint32_t ip, uint16_t port);
    void raw_send(RawPeer *p, Addr to, const Bytes &d) { p->sent.push_back(d); S->net_send(p->a, to, d, -1); }
    // a plan step that minimisation can drop
    void plan_at(ns_t t, std::function<void()> fn);
    bool skip();
    void wire();                       // connects hooks, models
    void finish();                     // end-of-run checks
    void v(const char *props, const std::string &m);
    Msg gen_request(Rng &r, bool con, int maxpl = 300);
    void default_handle(Node *n, const Msg &q, Addr peer, app_act_t *act);
    Msg gen_response(Rng &r, int k);
    cli_op_t mk_op(const Msg &m, int kind = COP_EXCHANGE);
    void add_op(Node *n, const cli_op_t &o) { scripts[n->id].ops.push_back(o); }
    void add_sleep(Node *n, ns_t d) { cli_op_t o; memset(&o, 0, offsetof(cli_op_t, req)); memset(&o.req, 0, offsetof(app_msg_t, op)); o.req.vals_len = o.req.payload_len = 0; o.kind = COP_SLEEP; o.sleep_ns = d; o.block1 = o.block2 = 0; o.body = nullptr; o.body_len = 0; o.have_resp = 0; o.id = ++opctr; scripts[n->id].ops.push_back(o); }
    CliModel *cmodel(Node *n) { auto i = cm.find(n->id); return i == cm.end() ? nullptr : i->second.get(); }
    // Hooks
    void srv_handle(Node *, const app_msg_t *, const char *, app_act_t *) override;
    void srv_rx(Node *, const app_msg_t *, const char *, unsigned char *, size_t, size_t *, app_act_t *) override;
    void srv_up(Node *) override; void srv_exit(Node *, int) override; void cli_created(Node *, int) override;
    void cli_next(Node *, cli_op_t *) override; void cli_result(Node *, const cli_op_t *, long, const app_msg_t *, const app_msg_t *) override;
    void pool_usage(Node *, const char *, int, int, int) override; void note(Node *, const char *, long, long, const char *) override;
    std::function<void(int, pool_op_t *)> pool_next_fn; std::function<void(int, int, int, size_t, void *, void *)> pool_ev_fn;
    void pool_next(Node *, int th, pool_op_t *o) override { if (pool_next_fn) pool_next_fn(th, o); }
    void pool_ev(Node *, int what, int th, int pool, size_t len, void *p, void *b) override { if (pool_ev_fn) pool_ev_fn(what, th, pool, len, p, b); }
    std::function<void(Node *, http_op_t *)> http_next_fn; std::function<void(Node *, const http_op_t *, long, const void *, size_t)> http_ev_fn;
    void http_next(Node *n, http_op_t *o) override { if (http_next_fn) http_next_fn(n, o); }
    void http_ev(Node *n, const http_op_t *o, long r, const void *d, size_t l) override { if (http_ev_fn) http_ev_fn(n, o, r, d, l); }
    std::function<long(Node *, const void *, size_t, void *, size_t)> tls_out_fn;
    long tls_out(Node *n, const void *d, size_t l, void *o, size_t c) override { return tls_out_fn ? tls_out_fn(n, d, l, o, c) : -1; }
    void shutdown_servers();
};
struct Swarm { static void net(Profile &p, Rng &r, int level); };
typedef void (*ScenFn)(World &w);
struct PropDef { const char *id; const char *title; std::vector<std::pair<const char *, int>> images; ScenFn fn; int quick_runs, thorough_runs; const char *real, *stub; const char *faults; };
const std::vector<PropDef> &props();
const PropDef *find_prop(const std::string &id);
uint32_t IP(int a, int b, int c, int d);
}
