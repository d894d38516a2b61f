#include "core.h"
#include <dlfcn.h>
#include <errno.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sanitizer/common_interface_defs.h>

namespace sim {
Sim *S = nullptr;
uint8_t *cov = nullptr;
Hooks *H = nullptr;
const char *kind_name[] = {"?", "packet", "sched", "preempt", "syscall", "alloc", "plan", "opskip", "segment", "shortio", "stall", "disk", "mutate", "spurious", "thread_stall"};
const char *sys_name[] = {"?", "sendto", "recvfrom", "send", "recv", "select", "timerfd_create", "timerfd_settime", "socket", "bind", "connect", "fcntl", "accept", "pthread_create", "getaddrinfo", "setsockopt", "listen"};

std::string hex(const Bytes &b, size_t max) {
    std::string r; char t[4];
    for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, sizeof t, "%02x", (unsigned char)b[i]); r += t; }
    if (b.size() > max) r += ".."; return r;
}

extern TraceEnt *tr_shared; extern uint32_t *tr_n; extern uint64_t *hh_shared; extern const uint32_t tr_max;
void Choices::record(uint32_t k, uint32_t idx, int64_t v) { if (tr_n && *tr_n < tr_max) tr_shared[(*tr_n)++] = {k, idx, v}; }
int64_t Choices::choose_at(Kind k, uint32_t idx, const std::function<int64_t(Rng &)> &gen) {
    if (replay) { auto it = fixed.find({(uint32_t)k, idx}); int64_t v = it == fixed.end() ? 0 : it->second; if (v) record(k, idx, v); return v; }
    Rng r(seed, 0xc401ce, k, idx); int64_t v = gen(r);
    if (v) record(k, idx, v);
    return v;
}
int64_t Choices::choose(Kind k, const std::function<int64_t(Rng &)> &gen) { return choose_at(k, ctr[k]++, gen); }

// ---------------------------------------------------------------- context switch
extern "C" void sim_ctx_switch(void **save_sp, void *new_sp);
asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_ctx_switch,.-sim_ctx_switch
)");

static const void *main_bottom; static size_t main_size;
static void fiber_entry() {
    const void *b; size_t sz;
    __sanitizer_finish_switch_fiber(nullptr, &b, &sz);
    if (!main_bottom) { main_bottom = b; main_size = sz; }
    Fiber *f = S->cur;
    f->fn();
    f->st = FS_DONE;
    // leave for good
    __sanitizer_start_switch_fiber(nullptr, main_bottom, main_size);
    void *dummy; sim_ctx_switch(&dummy, S->main_sp);
    __builtin_unreachable();
}
static void switch_to(Fiber *f) {
    S->cur = f; errno = f->err;
    __sanitizer_start_switch_fiber(&S->main_fake, f->stack, f->stack_sz);
    sim_ctx_switch(&S->main_sp, f->sp);
    __sanitizer_finish_switch_fiber(S->main_fake, nullptr, nullptr);
    f->err = errno; S->cur = nullptr;
}
void fiber_switch_out() {
    Fiber *f = S->cur; int e = errno;
    __sanitizer_start_switch_fiber(&f->fake, main_bottom, main_size);
    sim_ctx_switch(&f->sp, S->main_sp);
    const void *b; size_t sz;
    __sanitizer_finish_switch_fiber(f->fake, &b, &sz);
    errno = e;
}

// ---------------------------------------------------------------- Sim
Sim::Sim(uint64_t sd) : seed(sd) { ch.seed = sd; preempt_rng = Rng(sd, 0x9ee); hist.reserve(512); }

Node *Sim::add_node(const std::string &name, uint32_t ip, Image *img) {
    auto n = std::make_unique<Node>(); n->id = (int)nodes.size(); n->name = name; n->ip = ip; n->img = img;
    n->fds.resize(3); // 0,1,2 unused by nodes
    nodes.push_back(std::move(n)); return nodes.back().get();
}
static std::vector<char *> stack_pool;
Fiber *Sim::spawn(Node *n, const std::string &name, std::function<void()> fn, size_t stk) {
    auto f = std::make_unique<Fiber>(); f->id = (int)fibers.size(); f->name = name; f->node = n; f->fn = std::move(fn);
    f->stack_sz = stk; f->stack = (char *)mmap(nullptr, stk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (f->stack == MAP_FAILED) { fprintf(stderr, "stack mmap failed\n"); _exit(70); }
    uintptr_t top = (uintptr_t)f->stack + stk; top &= ~15ULL;
    void **sp = (void **)top;
    *--sp = nullptr;                       // fake return address => 16-byte alignment at entry
    *--sp = (void *)fiber_entry;
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    --sp; uint32_t mx; uint16_t cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
    ((uint32_t *)sp)[0] = mx; ((uint32_t *)sp)[1] = cw;
    f->sp = sp; f->last_run = ++runctr;
    fibers.push_back(std::move(f)); return fibers.back().get();
}
void Sim::block(std::function<bool()> pred, ns_t deadline) {
    Fiber *f = cur; f->st = FS_BLOCKED; f->pred = std::move(pred); f->deadline = deadline; f->timed_out = false;
    fiber_switch_out();
    f->pred = nullptr;
}
void Sim::yield() { cur->st = FS_READY; fiber_switch_out(); }

void Sim::kill_node(Node *n) {
    n->alive = false;
    for (auto &f : fibers) if (f->node == n && f->st != FS_DONE) f->st = FS_DEAD;
    for (size_t i = 0; i < n->fds.size(); i++) if (n->fds[i]) close_file(n, (int)i);
    log(EV_FAULT, n->id, -1, Addr(), Addr(), "", "crash", n->id);
    cnt["crash"]++;
}
void Sim::violate(const std::string &m) { if (violation.empty()) { violation = m; } stop = true; }
void Sim::log(EvK k, int node, int pkt, Addr f, Addr t, const Bytes &d, const char *tag, long a, long b) {
    Ev e{now, k, node, pkt, f, t, d, tag, a, b};
    auto fold = [&](uint64_t v) { hh = (hh ^ v) * 1099511628211ULL; hh ^= hh >> 29; };
    fold(now); fold(k * 131 + node); fold(f.ip * 65536ULL + f.port); fold(t.ip * 65536ULL + t.port); fold(a); fold(b);
    uint64_t h = d.size(); for (unsigned char c : d) h = (h ^ c) * 1099511628211ULL; fold(h);
    for (const char *p = tag; p && *p; p++) fold((unsigned char)*p);
    if (hh_shared) *hh_shared = hh;
    hist.push_back(std::move(e));
    if (on_ev) on_ev(hist.back());
    static const bool show = getenv("SIM_TRACE") != nullptr; if (show) { Ev &x = hist.back(); fprintf(stderr, "%12.6f %s n%d pkt%d %s->%s %s %ld %ld [%zu] %s\n", x.t / 1e9, k == EV_SEND ? "SEND" : k == EV_DROP ? "DROP" : k == EV_DELIVER ? "DLVR" : k == EV_RECV ? "RECV" : k == EV_APP ? "APP " : "FLT ", node, pkt, f.str().c_str(), t.str().c_str(), tag ? tag : "", a, b, d.size(), hex(d, 40).c_str()); }
}
void Sim::fault(const char *name, long a, long b) { cnt[name]++; log(EV_FAULT, -1, -1, Addr(), Addr(), "", name, a, b); }

bool Sim::is_cut(uint32_t a, uint32_t b) {
    for (auto &c : cut) if ((c.first == a && (c.second == b || !c.second)) || (c.first == b && (c.second == a || !c.second))) return true;
    return false;
}
Addr Sim::alloc_port(Node *n) { Addr a; a.ip = n->ip; do { a.port = n->next_port++; } while (udp.count(a) || tcpl.count(a)); return a; }

// packet fates are encoded as  (fate<<56) | param
void Sim::net_send(Addr from, Addr to, const Bytes &d, int node) {
    int pkt = next_pkt++;
    log(EV_SEND, node, pkt, from, to, d, "udp");
    if (is_cut(from.ip, to.ip)) { log(EV_DROP, node, pkt, from, to, "", "partition"); cnt["partition_drop"]++; return; }
    int64_t v = ch.choose(K_PKT, [&](Rng &r) -> int64_t {
        if (quiet()) return 0;
        if (r.chance(pf.drop)) return 1LL << 56;
        if (r.chance(pf.dup)) return (2LL << 56) | (r.range(1, pf.dup_max) << 48) | (r.range(0, pf.delay_max > 0 ? pf.delay_max / US : 50000));
        if (r.chance(pf.delay)) return (3LL << 56) | (r.range(1, std::max<int64_t>(1, pf.delay_max / US)));
        if (r.chance(pf.corrupt)) return (4LL << 56) | (int64_t)(r.next() & 0xffffffffffffLL);
        return 0;
    });
    ns_t lat = pf.base_lat; Bytes data = d; int copies = 1; ns_t spread = 0;
    int fate = (int)(v >> 56); int64_t par = v & 0x00ffffffffffffffLL;
    if (fate == 1) { cnt["drop"]++; log(EV_DROP, node, pkt, from, to, "", "loss"); return; }
    if (fate == 2) { cnt["dup"]++; copies = 1 + (int)(par >> 48); spread = (par & 0xffffffffffffLL) * US; }
    if (fate == 3) { cnt["delay"]++; lat += par * US; }
    if (fate == 4 && !data.empty()) {
        cnt["corrupt"]++; uint64_t x = (uint64_t)par;
        int how = x & 3; x >>= 2;
        if (how == 0) data[(x >> 8) % data.size()] ^= (char)(1 << (x & 7));
        else if (how == 1) data.resize((x) % (data.size() + 1));
        else if (how == 2) data[(x >> 8) % data.size()] = (char)x;
        else data.push_back((char)x);
    }
    for (int i = 0; i < copies; i++) {
        ns_t l = lat + (i ? spread * i / (copies - 1 ? copies - 1 : 1) + i * US : 0);
        after(l, [this, from, to, data, pkt]() { net_deliver(from, to, data, pkt); });
    }
}
void Sim::net_deliver(Addr from, Addr to, const Bytes &d, int pkt) {
    Dgram g{from, d, pkt};
    if (raw_sink && raw_sink(g, to)) return;
    auto it = udp.find(to);
    if (it == udp.end()) {
        log(EV_DROP, -1, pkt, from, to, "", "unreachable");
        // ICMP port unreachable: reported on the sender's connected socket
        auto s = udp.find(from);
        if (s != udp.end() && s->second->connected && s->second->peer == to && cnt["icmp_on"]) { s->second->so_error = ECONNREFUSED; cnt["icmp"]++; }
        return;
    }
    File &f = *it->second;
    if (f.connected && f.peer != from) { log(EV_DROP, f.node->id, pkt, from, to, "", "notpeer"); return; }
    if (f.rxq.size() >= f.max_rx) { log(EV_DROP, f.node->id, pkt, from, to, "", "rxfull"); return; }
    log(EV_DELIVER, f.node->id, pkt, from, to, d, "udp");
    f.rxq.push_back(std::move(g));
}
int64_t Sim::sysfail(Sys s) {
    if (cur && !pf.on(cur->node->id)) return 0;
    if (pf.sys <= 0 && !ch.replay) { ch.ctr[K_SYS]++; return 0; }
    int64_t v = ch.choose(K_SYS, [&](Rng &r) -> int64_t {
        if (quiet()) return 0;
        for (auto &p : pf.sysfail) if (p.first == (int)s && !p.second.empty()) { if (r.chance(pf.sys)) return ((int64_t)s << 32) | r.pick(p.second); return 0; }
        return 0; });
    if (v && (v >> 32) == s) { char b[64]; snprintf(b, sizeof b, "sys_%s", sys_name[s]); cnt[b]++; log(EV_FAULT, cur ? cur->node->id : -1, -1, Addr(), Addr(), "", "sysfail", s, v & 0xffffffff); return v & 0xffffffff; }
    return 0;
}

void Sim::run() {
    std::vector<Fiber *> ready;
    ns_t last_progress = 0; (void)last_progress;
    while (!stop) {
        if (++steps > max_steps) { violate("HANG: step limit exceeded (no termination after " + std::to_string(steps) + " scheduler steps, t=" + std::to_string(now / 1e9) + ")"); break; }
        // deliver due events first
        while (!evq.empty() && evq.begin()->first.first <= now && !stop) { auto fn = std::move(evq.begin()->second); evq.erase(evq.begin()); fn(); }
        if (stop) break;
        ready.clear(); ns_t wake = INT64_MAX;
        for (auto &up : fibers) {
            Fiber *f = up.get();
            if (f->st == FS_DONE || f->st == FS_DEAD) continue;
            ns_t nb = std::max(f->not_before, f->node ? f->node->stalled_until : 0);
            if (nb > now) { if (nb < wake) wake = nb; continue; }
            if (f->st == FS_READY) { ready.push_back(f); continue; }
            if (f->pred && f->pred()) { ready.push_back(f); continue; }
            if (f->deadline >= 0) { if (f->deadline <= now) { f->timed_out = true; ready.push_back(f); continue; } if (f->deadline < wake) wake = f->deadline; }
        }
        if (ready.empty()) {
            if (!evq.empty() && evq.begin()->first.first < wake) wake = evq.begin()->first.first;
            // timers wake blocked fibers through their predicates
            for (auto &n : nodes) if (n->alive) for (auto &f : n->fds) if (f && f->kind == F_TIMER && f->armed && f->expiry > now && f->expiry < wake) wake = f->expiry;
            if (wake == INT64_MAX) { if (at_quiesce) { auto q = at_quiesce; at_quiesce = nullptr; q(); continue; } finished = true; break; }
            if (wake > max_time) { finished = false; break; }
            now = wake; continue;
        }
        Fiber *pick = ready[0]; for (auto f : ready) if (f->last_run < pick->last_run) pick = f;
        if (ready.size() > 1) {
            int64_t v = ch.choose(K_SCHED, [&](Rng &r) -> int64_t { if (pf.sched > 0 && !quiet() && r.chance(pf.sched)) return 1 + (int64_t)r.below(64); return 0; });
            if (v) { pick = ready[(v - 1) % ready.size()]; cnt["sched"]++; }
        }
        if (pf.stall > 0 || ch.replay) {
            int64_t v = ch.choose(K_STALL, [&](Rng &r) -> int64_t { if (!quiet() && now >= pf.stall_from && r.chance(pf.stall)) return r.range(1, pf.stall_max); return 0; });
            if (v) { cnt["stall"]++; if (pick->node) pick->node->stalled_until = now + v; log(EV_FAULT, pick->node ? pick->node->id : -1, -1, Addr(), Addr(), "", "stall", v); continue; }
        }
        pick->last_run = ++runctr; pick->st = FS_READY;
        switch_to(pick);
    }
}

// ---------------------------------------------------------------- images
static std::map<std::string, std::vector<std::unique_ptr<Image>>> images;
void *Image::sym(const char *n) { void *p = dlsym(h, n); if (!p) { fprintf(stderr, "image %s lacks %s\n", path.c_str(), n); _exit(71); } return p; }
void load_images(const char *dir, const char *kind, int n) {
    auto &v = images[kind];
    for (int i = (int)v.size(); i < n; i++) {
        std::string src = std::string(dir) + "/" + kind + ".so", p = std::string(dir) + "/" + kind + "." + std::to_string(i) + ".so";
        auto im = std::make_unique<Image>(); im->path = p;
        if (access(p.c_str(), R_OK) != 0) { fprintf(stderr, "missing image %s\n", p.c_str()); _exit(71); }
        im->h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!im->h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(71); }
        { Dl_info di; void *p = dlsym(im->h, "node_image_anchor"); if (p && dladdr(p, &di)) im->base = (uintptr_t)di.dli_fbase; }
        v.push_back(std::move(im));
    }
}
Image *take_image(const char *kind) {
    for (auto &i : images[kind]) if (!i->used) { i->used = true; return i.get(); }
    fprintf(stderr, "out of images of kind %s\n", kind); _exit(71);
}
}
