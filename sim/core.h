// Deterministic simulator core: fibers, virtual time, choices, simulated kernel.
#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include "simapi.h"

namespace sim {
typedef int64_t ns_t;
const ns_t US = 1000, MS = 1000000, SEC = 1000000000LL;

// ---------------------------------------------------------------- randomness
static inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(mix(seed ^ 0x5851f42d4c957f2dULL)) {}
    Rng(uint64_t seed, uint64_t a, uint64_t b = 0, uint64_t c = 0) : s(mix(mix(mix(mix(seed) ^ a) + b) ^ (c * 0x9e3779b97f4a7c15ULL))) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- choices / trace
enum Kind { K_PKT = 1, K_SCHED, K_PREEMPT, K_SYS, K_ALLOC, K_PLAN, K_OPSKIP, K_SEG, K_SHORT, K_STALL, K_DISK, K_MUT, K_SPUR, K_TSTALL, K_NKINDS };
extern const char *kind_name[];
struct TraceEnt { uint32_t kind; uint32_t idx; int64_t val; };
struct Choices {
    uint64_t seed = 0; bool replay = false;
    uint32_t ctr[K_NKINDS] = {0};
    std::map<std::pair<uint32_t, uint32_t>, int64_t> fixed;
    void record(uint32_t k, uint32_t idx, int64_t v);
    // gen returns 0 for the fault-free default
    int64_t choose(Kind k, const std::function<int64_t(Rng &)> &gen);
    int64_t choose_at(Kind k, uint32_t idx, const std::function<int64_t(Rng &)> &gen);
};

// ---------------------------------------------------------------- nodes, fibers
struct Addr { uint32_t ip = 0; uint16_t port = 0;
    bool operator<(const Addr &o) const { return ip != o.ip ? ip < o.ip : port < o.port; }
    bool operator==(const Addr &o) const { return ip == o.ip && port == o.port; }
    bool operator!=(const Addr &o) const { return !(*this == o); }
    std::string str() const { char b[48]; snprintf(b, sizeof b, "%u.%u.%u.%u:%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255, port); return b; } };
typedef std::string Bytes;

struct Node; struct Fiber; struct File;
struct Dgram { Addr from; Bytes data; int pkt; };

struct TcpEnd {
    Addr local, remote; std::deque<char> rx; bool rx_eof = false, reset = false, closed = false, connected = false, wr_shut = false;
    size_t rx_cap = 65536; size_t in_flight = 0;      // bytes sent by the peer, not yet delivered here
    ns_t last_arrival = 0;
    std::weak_ptr<TcpEnd> peer; bool connecting = false; int err = 0;
};
enum FKind { F_UDP, F_TCP, F_LISTEN, F_TIMER, F_RAW };
struct File {
    FKind kind; Node *node = nullptr; int fd = -1; bool nonblock = false; bool open = true;
    Addr local; bool bound = false; Addr peer; bool connected = false; int so_error = 0; bool v6 = false;
    std::deque<Dgram> rxq; size_t max_rx = 256;
    bool armed = false; ns_t expiry = 0; ns_t interval = 0;
    std::shared_ptr<TcpEnd> tcp; std::deque<std::shared_ptr<TcpEnd>> backlog; int backlog_max = 0;
    ns_t rcvtimeo = 0, sndtimeo = 0;
};
typedef std::shared_ptr<File> FileP;

struct Image {                    // one dlopened copy of a node image = one simulated process's code and globals
    std::string path; void *h = nullptr; bool used = false; uintptr_t base = 0;
    void *sym(const char *n);
};
struct Node {
    int id; std::string name; uint32_t ip; Image *img = nullptr; bool alive = true; int incarnation = 0;
    std::vector<FileP> fds;       // index = fd
    uint64_t rnd_ctr = 0; uint64_t grnd_ctr = 0; ns_t wall_off = 0; ns_t stalled_until = 0; bool v6 = false;
    long heap_live = 0, heap_bytes = 0; std::set<void *> heap;
    uint16_t next_port = 40000; void *data = nullptr; bool mt = false; int nthreads = 0;
    int pool_live[3] = {0, 0, 0};
    int crash_in = 0; std::function<void()> on_crash;   // crash at the n-th system call from now
    int fd_open() const { int n = 0; for (auto &f : fds) if (f) n++; return n; }
};
enum FState { FS_READY, FS_BLOCKED, FS_DONE, FS_DEAD };
struct Fiber {
    int id; std::string name; Node *node; void *sp = nullptr; char *stack = nullptr; size_t stack_sz = 0;
    FState st = FS_READY; std::function<bool()> pred; ns_t deadline = -1; bool timed_out = false;
    std::function<void()> fn; int err = 0; void *fake = nullptr; uint64_t last_run = 0; bool detached = false; void *retval = nullptr;
    ns_t not_before = 0; uint64_t syscalls = 0;
};

// ---------------------------------------------------------------- events of the history
enum EvK { EV_SEND, EV_DROP, EV_DELIVER, EV_RECV, EV_APP, EV_FAULT };
struct Ev { ns_t t; EvK k; int node; int pkt; Addr from, to; Bytes data; const char *tag; long a, b; };

struct Profile {                  // fault rates of one run ("swarm" configuration)
    double drop = 0, dup = 0, delay = 0, corrupt = 0; ns_t delay_max = 0; ns_t base_lat = 2 * MS;
    double sched = 0, stall = 0; ns_t stall_max = 0, stall_from = 0;
    double preempt = 0;           // probability per basic block in multi-threaded nodes
    double presleep = 0; ns_t presleep_max = 0; int presleep_n = 0; // share of preemptions that keep the thread off the processor for a while, and how many of them
    double tstall = 0; ns_t tstall_max = 0; int tstall_n = 0; // one thread of a multi-threaded node is kept off the processor at a library call
    double sys = 0; std::vector<std::pair<int, std::vector<int>>> sysfail;  // per Sys id allowed errnos
    double alloc = 0, malloc_fail = 0; double seg = 0, shortrw = 0, disk = 0, spur = 0;
    ns_t quiet_after = INT64_MAX; // no new faults after this instant
    int dup_max = 3; int only_node = -1; // failing calls and allocations are limited to this node
    bool on(int n) const { return only_node < 0 || only_node == n; }
};
enum Sys { SYS_SENDTO = 1, SYS_RECVFROM, SYS_SEND, SYS_RECV, SYS_SELECT, SYS_TIMERFD_CREATE, SYS_TIMERFD_SETTIME, SYS_SOCKET, SYS_BIND, SYS_CONNECT, SYS_FCNTL, SYS_ACCEPT, SYS_PTHREAD_CREATE, SYS_GAI, SYS_SETSOCKOPT, SYS_LISTEN, SYS_NSYS };
extern const char *sys_name[];

struct SimFS { std::map<std::string, Bytes> files; struct Closed { ns_t t; std::string name; Bytes data; }; std::vector<Closed> closed; };

struct Stop { };                  // (unused)

struct Sim {
    uint64_t seed; Choices ch; Profile pf; ns_t now = 0; uint64_t steps = 0, max_steps = 4000000; ns_t max_time = 3600 * SEC;
    std::vector<std::unique_ptr<Node>> nodes; std::vector<std::unique_ptr<Fiber>> fibers; Fiber *cur = nullptr; void *main_sp = nullptr; void *main_fake = nullptr;
    uint64_t runctr = 0; uint64_t bb = 0, bb_last_sys = 0; uint64_t next_preempt = UINT64_MAX; std::map<uint64_t, int64_t> preempt_at; Rng preempt_rng{0}; uint32_t preempt_idx = 0;
    struct Timed { ns_t t; uint64_t seq; std::function<void()> fn; };
    std::multimap<std::pair<ns_t, uint64_t>, std::function<void()>> evq; uint64_t evseq = 0;
    std::vector<Ev> hist; uint64_t hh = 1469598103934665603ULL; int next_pkt = 0;
    std::map<Addr, FileP> udp; std::map<Addr, FileP> tcpl;
    std::map<std::string, long> cnt;       // fault / event counters
    std::vector<std::pair<uint32_t, uint32_t>> cut; // partitions (ip pairs; ip 0 = everyone)
    std::function<bool(Dgram &, Addr)> raw_sink;    // scripted peers: returns true if the address is theirs
    std::function<void(Ev &)> on_ev;
    SimFS fs; std::string violation; bool stop = false; bool finished = false; std::string harness_err; bool record_payload = true;
    std::function<void()> at_quiesce;

    Sim(uint64_t seed);
    Node *add_node(const std::string &name, uint32_t ip, Image *img);
    Fiber *spawn(Node *n, const std::string &name, std::function<void()> fn, size_t stack = 512 * 1024);
    void after(ns_t d, std::function<void()> fn) { evq.emplace(std::make_pair(now + d, evseq++), std::move(fn)); }
    void at(ns_t t, std::function<void()> fn) { evq.emplace(std::make_pair(t < now ? now : t, evseq++), std::move(fn)); }
    void run();
    void block(std::function<bool()> pred, ns_t deadline);   // blocks the current fiber; cur->timed_out says why it woke
    void yield();
    void kill_node(Node *n);
    void close_file(Node *n, int fd);
    void violate(const std::string &m);
    void log(EvK k, int node, int pkt, Addr f, Addr t, const Bytes &d, const char *tag, long a = 0, long b = 0);
    void fault(const char *name, long a = 0, long b = 0);
    bool quiet() const { return now >= pf.quiet_after; }
    // network
    void net_send(Addr from, Addr to, const Bytes &d, int node);
    void net_deliver(Addr from, Addr to, const Bytes &d, int pkt);
    bool is_cut(uint32_t a, uint32_t b);
    Addr alloc_port(Node *n);
    int64_t sysfail(Sys s);       // errno to fail with, or 0
};
extern Sim *S;
extern uint8_t *cov; const size_t cov_mask = (1u << 19) - 1;   // basic blocks reached (shared between workers)
void fiber_switch_out();

// images
Image *take_image(const char *kind);
void load_images(const char *dir, const char *kind, int n);

// hooks for scenario code (called from the glue through simapi)
struct Hooks {
    virtual ~Hooks() {}
    virtual void srv_handle(Node *, const app_msg_t *, const char *, app_act_t *) {}
    virtual void srv_rx(Node *, const app_msg_t *, const char *, unsigned char *, size_t, size_t *, app_act_t *) {}
    virtual void srv_up(Node *) {}
    virtual void srv_exit(Node *, int) {}
    virtual void cli_created(Node *, int) {}
    virtual void cli_next(Node *, cli_op_t *) {}
    virtual void cli_result(Node *, const cli_op_t *, long, const app_msg_t *, const app_msg_t *) {}
    virtual void pool_usage(Node *, const char *, int, int, int) {}
    virtual void pool_next(Node *, int, pool_op_t *) {}
    virtual void pool_ev(Node *, int what, int th, int pool, size_t len, void *p, void *base) {}
    virtual void http_next(Node *, http_op_t *) {}
    virtual void http_ev(Node *, const http_op_t *, long, const void *, size_t) {}
    virtual long tls_out(Node *, const void *, size_t, void *, size_t) { return -1; }
    virtual void note(Node *, const char *, long, long, const char *) {}
};
extern Hooks *H;
std::string hex(const Bytes &b, size_t max = 64);
}
