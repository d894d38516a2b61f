// Driver: seeded search over simulated runs, determinism gate, minimisation, replay, evidence.
#include "world.h"
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <gnutls/crypto.h>
#include <algorithm>
#include <set>
#include <string>
using namespace sim;
namespace sim { TraceEnt *tr_shared = nullptr; uint32_t *tr_n = nullptr; uint64_t *hh_shared = nullptr; extern const uint32_t tr_max; const uint32_t tr_max = 400000; }

static double mono() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
const uint32_t TRM = 400000;
struct Slot {                 // one per worker, shared with its run children
    uint64_t hh; uint32_t tn; int done; int violated; int nontrivial; int finished; uint64_t steps, bb; int64_t simt; uint32_t nhist; uint32_t plan_n; uint32_t nops;
    char msg[2048]; char text[24576]; char sample[4096]; TraceEnt tr[TRM];
};
struct Out { int kind = 0; /*0 ok 1 violation 2 harness error*/ std::string msg; uint64_t hh = 0; std::vector<TraceEnt> tr; bool nontrivial = false; std::string text, sample; uint64_t steps = 0; int64_t simt = 0; uint32_t plan_n = 0, nops = 0, nhist = 0; bool crashed = false; };

static const PropDef *PD; static std::string tier = "quick", dir, scratch; static bool verbose = false;
static std::vector<std::string> known;   // known-finding fingerprints of this property

static std::string esc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; } return r; }
static std::string klass(const std::string &m) { std::string r; bool dg = false; for (char c : m) { if (isdigit((unsigned char)c) || (dg && isxdigit((unsigned char)c))) { if (!dg) r += '#'; dg = true; } else { dg = false; r += c; } } return r.substr(0, 160); }

// ---- one simulated run, in this (child) process
static void run_child(Slot *sl, uint64_t seed, const std::vector<TraceEnt> *fixed) {
    tr_shared = sl->tr; tr_n = &sl->tn; hh_shared = &sl->hh;
    Sim *s = new Sim(seed); S = s;
    if (fixed) { s->ch.replay = true; for (auto &e : *fixed) { if (e.kind == K_PREEMPT) s->preempt_at[e.idx] = e.val; s->ch.fixed[{e.kind, e.idx}] = e.val; } }
    World *w = new World(PD->id, seed); w->tier = tier; w->wire();
    for (auto &im : PD->images) if (strstr(im.first, "dtls") || strstr(im.first, "proxy")) { gnutls_rnd_refresh(); break; }
    PD->fn(*w);
    s->run();
    if (s->violation.empty()) w->finish();
    std::string t;
    for (auto &p : s->cnt) t += "F " + p.first + " " + std::to_string(p.second) + "\n";
    for (auto &p : w->stat) t += "S " + p.first + " " + std::to_string(p.second) + "\n";
    snprintf(sl->text, sizeof sl->text, "%s", t.c_str());
    sl->hh = s->hh; sl->steps = s->steps; sl->bb = s->bb; sl->simt = s->now; sl->nontrivial = w->nontrivial; sl->finished = s->finished; sl->nhist = s->hist.size(); sl->plan_n = w->plan_idx; sl->nops = w->opctr;
    { std::string q; int k = 0; for (auto &e : s->hist) { if (k++ >= 14) break; char b[256]; static const char *kn[] = {"send", "drop", "deliver", "recv", "app", "fault"}; snprintf(b, sizeof b, "%.6f %s node%d %s->%s %s %ld %ld %s | ", e.t / 1e9, kn[e.k], e.node, e.from.str().c_str(), e.to.str().c_str(), e.tag ? e.tag : "", e.a, e.b, hex(e.data, 16).c_str()); q += b; } snprintf(sl->sample, sizeof sl->sample, "%s", q.c_str()); }
    if (!s->violation.empty()) { sl->violated = 1; snprintf(sl->msg, sizeof sl->msg, "%s", s->violation.c_str()); }
    if (verbose && !s->violation.empty()) fprintf(stderr, "violation: %s\n", s->violation.c_str());
    sl->done = 1;
    _exit(0);
}
static std::string slurp(const std::string &p, size_t max = 1 << 20) { std::string r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return r; char b[65536]; size_t n; while (r.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static std::string crash_summary(const std::string &err, int st) {
    std::string r; size_t k = err.find("ERROR: AddressSanitizer");
    if (k != std::string::npos) {
        size_t e = err.find('\n', k); std::string first = err.substr(k, e - k); // drop addresses
        std::string w2 = first.substr(strlen("ERROR: AddressSanitizer")); std::string kind; size_t p = w2.find_first_not_of(": "); if (p != std::string::npos) { size_t q = w2.find_first_of(" \n", p); kind = w2.substr(p, q - p); }
        r = "memory error (" + kind + ")"; int n = 0; size_t pos = e;
        while (n < 4) { size_t in = err.find(" in ", pos); size_t hash = err.find("    #", pos); if (hash == std::string::npos || in == std::string::npos || in < hash || in - hash > 60) break; size_t z = err.find_first_of(" \n", in + 4); std::string fn = err.substr(in + 4, z - in - 4); pos = z; r += (n ? " < " : " in ") + fn; n++; }
        return r;
    }
    if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGXCPU) return "HANG: run exceeded its CPU limit"; return "process killed by signal " + std::to_string(WTERMSIG(st)); }
    return "process exited with status " + std::to_string(WEXITSTATUS(st)) + " " + err.substr(0, 200);
}
static Out run_one(Slot *sl, uint64_t seed, const std::vector<TraceEnt> *fixed, const std::string &tag) {
    sl->hh = 0; sl->tn = 0; sl->done = 0; sl->violated = 0; sl->msg[0] = 0; sl->text[0] = 0; sl->sample[0] = 0; sl->nontrivial = 0;
    std::string ef = scratch + "/err." + tag;
    pid_t p = fork();
    if (p == 0) {
        struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 90; setitimer(ITIMER_PROF, &it, nullptr); signal(SIGPROF, SIG_DFL);
        { int nf = open("/dev/null", O_WRONLY); if (nf >= 0) dup2(nf, 1); } if (!verbose) { int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd >= 0) { dup2(fd, 2); } }
        run_child(sl, seed, fixed);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Out o; o.hh = sl->hh; o.nontrivial = sl->nontrivial; o.text = sl->text; o.sample = sl->sample; o.steps = sl->steps; o.simt = sl->simt; o.plan_n = sl->plan_n; o.nops = sl->nops; o.nhist = sl->nhist;
    if (sl->done && sl->violated) { o.kind = 1; o.msg = sl->msg; }
    else if (!sl->done) {
        std::string err = slurp(ef); o.crashed = true;
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 70 || WEXITSTATUS(st) == 71)) { o.kind = 2; o.msg = err; }
        else { o.kind = 1; o.msg = crash_summary(err, st); }
    }
    if (o.kind == 1) o.tr.assign(sl->tr, sl->tr + std::min(sl->tn, tr_max));
    return o;
}
static Slot *new_slot() { Slot *p = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(70); } return p; }

static uint64_t seed_of(uint64_t vs, uint64_t i) { uint64_t h = mix(vs ^ 0x51ed); for (const char *c = PD->id; *c; c++) h = mix(h ^ (unsigned char)*c); return mix(h + i) >> 1; }

// ---- minimisation (delta debugging over the recorded choices and over the plan's steps)
struct Mini { Slot *sl; uint64_t seed; std::string cls; double deadline; int runs = 0; int limit = 600;
    bool fails(const std::vector<TraceEnt> &t, Out *o) { if (runs >= limit || mono() > deadline) return false; runs++; *o = run_one(sl, seed, &t, "mini"); return o->kind == 1 && klass(o->msg) == cls; } };
static std::vector<TraceEnt> minimise(Mini &m, std::vector<TraceEnt> t, Out &best) {
    Out o;
    // 1. drop plan steps / client operations
    std::vector<TraceEnt> skips; uint32_t pn = best.plan_n, on = best.nops;
    std::vector<uint32_t> cand; for (uint32_t i = 0; i < pn; i++) cand.push_back(i); for (uint32_t i = 1; i <= on; i++) cand.push_back(100000 + i);
    for (size_t chunk = std::max<size_t>(1, cand.size() / 2);; chunk /= 2) {
        for (size_t i = 0; i < cand.size();) {
            std::vector<TraceEnt> tt = t; size_t e = std::min(cand.size(), i + chunk); for (size_t k = i; k < e; k++) tt.push_back({K_OPSKIP, cand[k], 1});
            if (m.fails(tt, &o)) { t = tt; best = o; cand.erase(cand.begin() + i, cand.begin() + e); } else i = e;
        }
        if (chunk <= 1) break;
    }
    // 2. drop recorded choices that are not needed
    auto isskip = [](const TraceEnt &e) { return e.kind == K_OPSKIP; };
    std::vector<TraceEnt> ops, rest; for (auto &e : t) (isskip(e) ? ops : rest).push_back(e);
    for (size_t chunk = std::max<size_t>(1, rest.size());; chunk /= 2) {
        for (size_t i = 0; i < rest.size();) {
            std::vector<TraceEnt> tt = ops; size_t e = std::min(rest.size(), i + chunk); for (size_t k = 0; k < rest.size(); k++) if (k < i || k >= e) tt.push_back(rest[k]);
            if (m.fails(tt, &o)) { rest.erase(rest.begin() + i, rest.begin() + e); best = o; } else i = e;
        }
        if (chunk <= 1) break;
    }
    std::vector<TraceEnt> r = ops; r.insert(r.end(), rest.begin(), rest.end()); return r;
}
static void write_replay(const std::string &path, uint64_t seed, const Out &o, const std::vector<TraceEnt> &t, const std::vector<TraceEnt> &full, bool seedonly) {
    FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); _exit(70); }
    fprintf(f, "property %s\ntier %s\nseed %llu\nhash %llu\ncrash %d\nviolation %s\nchoices %zu (of %zu recorded)\n", PD->id, tier.c_str(), (unsigned long long)seed, (unsigned long long)o.hh, o.crashed, esc(o.msg).c_str(), t.size(), full.size());
    if (seedonly) fprintf(f, "seedonly 1\n");
    for (auto &e : t) fprintf(f, "c %u %u %lld  # %s\n", e.kind, e.idx, (long long)e.val, e.kind < K_NKINDS ? kind_name[e.kind] : "?");
    fclose(f);
}
struct Replay { std::string prop, tier, violation; uint64_t seed = 0, hash = 0; std::vector<TraceEnt> t; bool seedonly = false; };
static bool read_replay(const char *path, Replay &r) {
    FILE *f = fopen(path, "r"); if (!f) return false; static char line[8192];
    while (fgets(line, sizeof line, f)) { char a[64], b[4096]; unsigned long long u; unsigned k, i; long long v;
        if (sscanf(line, "property %63s", a) == 1) r.prop = a; else if (sscanf(line, "tier %63s", a) == 1) r.tier = a; else if (sscanf(line, "seed %llu", &u) == 1) r.seed = u; else if (sscanf(line, "hash %llu", &u) == 1) r.hash = u;
        else if (strncmp(line, "seedonly", 8) == 0) r.seedonly = true; else if (sscanf(line, "violation %4095[^\n]", b) == 1) r.violation = b; else if (sscanf(line, "c %u %u %lld", &k, &i, &v) == 3) r.t.push_back({k, i, v}); }
    fclose(f); return !r.prop.empty();
}
static void load_known(const char *path) {
    FILE *f = fopen(path, "r"); if (!f) return; char line[2048];
    while (fgets(line, sizeof line, f)) { std::string s(line); while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back(); std::string pre = std::string("known: property=") + PD->id + " match="; if (s.compare(0, pre.size(), pre) == 0) known.push_back(s.substr(pre.size())); }
    fclose(f);
}
static bool is_known(const std::string &m) { for (auto &k : known) if (m.find(k) != std::string::npos) return true; return false; }

int main(int argc, char **argv) {
    setenv("TZ", "UTC", 1);
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        setenv("ASAN_OPTIONS", "detect_leaks=0:detect_stack_use_after_return=0:detect_odr_violation=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=4096:malloc_fill_byte=190:quarantine_size_mb=16:allocator_may_return_null=1:handle_segv=1:handle_abort=0:print_legend=0:symbolize=1", 1);
        personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); perror("exec"); return 70;
    }
    std::string prop, replay, evidence, replays, knownf; uint64_t vseed = 1, one = 0; bool have_one = false; double tlimit = 0; long nruns = -1; int workers = 8; bool nomin = false, all = false;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); _exit(70); } return argv[++i]; };
        if (a == "--prop") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--seed") vseed = strtoull(nx().c_str(), 0, 10); else if (a == "--dir") dir = nx(); else if (a == "--evidence") evidence = nx(); else if (a == "--replays") replays = nx(); else if (a == "--known") knownf = nx();
        else if (a == "--time") tlimit = atof(nx().c_str()); else if (a == "--runs") nruns = atol(nx().c_str()); else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--replay") replay = nx(); else if (a == "--one") { one = strtoull(nx().c_str(), 0, 10); have_one = true; } else if (a == "-v") verbose = true; else if (a == "--nomin") nomin = true; else if (a == "--all") all = true;
        else if (a == "--list") { for (auto &p : props()) printf("%s\n", p.id); return 0; } else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 70; } }
    Replay rp; if (!replay.empty()) { if (!read_replay(replay.c_str(), rp)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 70; } prop = rp.prop; tier = rp.tier; }
    PD = find_prop(prop); if (!PD) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 70; }
    if (dir.empty()) { dir = argv[0]; size_t k = dir.rfind('/'); dir = k == std::string::npos ? "." : dir.substr(0, k); }
    if (!knownf.empty()) load_known(knownf.c_str());
    char tmpl[] = "/tmp/simrun.XXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 70; } scratch = tmpl;
    struct Cleaner { ~Cleaner() { std::string c = "rm -rf '" + scratch + "'"; if (scratch.compare(0, 12, "/tmp/simrun.") == 0) if (system(c.c_str())) {} } };
    cov = (uint8_t *)mmap(nullptr, cov_mask + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (auto &p : PD->images) load_images(dir.c_str(), p.first, p.second);
    Slot *sl = new_slot();
    if (!replay.empty() || have_one) {
        Cleaner c; uint64_t seed = have_one ? one : rp.seed;
        Out o = run_one(sl, seed, replay.empty() || rp.seedonly ? nullptr : &rp.t, "one");
        printf("run seed=%llu kind=%d hash=%llu steps=%llu simtime=%.3f events=%u\n%s", (unsigned long long)seed, o.kind, (unsigned long long)o.hh, (unsigned long long)o.steps, o.simt / 1e9, o.nhist, verbose ? o.text.c_str() : "");
        if (o.kind == 2) { printf("harness error: %s\n", o.msg.c_str()); return 70; }
        if (o.kind == 1) { if (getenv("SIM_ERR")) printf("%s\n", slurp(scratch + "/err.one").c_str()); printf("violation: %s\n", o.msg.c_str()); if (!replay.empty()) { bool same = o.hh == rp.hash && esc(o.msg) == rp.violation; printf("replay %s\n", same ? "reproduces the recorded violation exactly" : "DIFFERS from the recorded violation"); return same ? 1 : 3; } return 1; }
        if (!replay.empty()) { printf("replay does not reproduce a violation\n"); return 0; }
        return 0;
    }
    Cleaner cl;
    bool thorough = tier == "thorough"; if (nruns < 0) nruns = thorough ? PD->thorough_runs : PD->quick_runs; if (tlimit <= 0) tlimit = thorough ? 600 : PD->id[0] == 'X' || PD->id[0] == 'D' ? 60 : 30; // runs with TLS or DTLS are slower
    double t0 = mono(), tend = t0 + tlimit;
    struct Shared { volatile long next; volatile int stop; volatile long ran; volatile long nviol, nharness, nknown; volatile double tfirst; };
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct Rec { uint64_t hh; uint32_t steps; uint8_t ran, nontriv; }; Rec *recs = (Rec *)mmap(nullptr, sizeof(Rec) * nruns, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    struct V { uint64_t seed; long idx; char msg[2048]; int known; }; const int VMAX = 64; V *vs = (V *)mmap(nullptr, sizeof(V) * VMAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); volatile int *nv = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids;
    for (int k = 0; k < workers; k++) {
        pid_t p = fork();
        if (p == 0) {
            Slot *ws = new_slot(); std::map<std::string, long> agg; double simt = 0; std::vector<std::string> samples;
            while (!sh->stop && mono() < tend && !(sh->tfirst > 0 && mono() > sh->tfirst + 5)) {
                long i = __sync_fetch_and_add(&sh->next, 1); if (i >= nruns) break;
                uint64_t seed = seed_of(vseed, i); Out o = run_one(ws, seed, nullptr, std::to_string(k));
                __sync_fetch_and_add(&sh->ran, 1); recs[i].hh = o.hh; recs[i].steps = o.nhist; recs[i].nontriv = o.nontrivial; recs[i].ran = 1; simt += o.simt / 1e9;
                const char *q = o.text.c_str(); while (*q) { char ty, key[128]; long v; int n = 0; if (sscanf(q, "%c %127s %ld\n%n", &ty, key, &v, &n) < 3 || !n) break; agg[std::string(1, ty) + key] += v; q += n; }
                if (samples.size() < 1 && o.nontrivial) { char b[64]; snprintf(b, sizeof b, "seed %llu: ", (unsigned long long)seed); samples.push_back(b + o.sample); }
                if (o.kind == 2) { __sync_fetch_and_add(&sh->nharness, 1); int n = __sync_fetch_and_add(nv, 1); if (n < VMAX) { vs[n].seed = seed; vs[n].idx = i; vs[n].known = 2; snprintf(vs[n].msg, sizeof vs[n].msg, "%s", o.msg.c_str()); } sh->stop = 1; }
                if (o.kind == 1) { bool kn = is_known(o.msg); if (kn) __sync_fetch_and_add(&sh->nknown, 1); else __sync_fetch_and_add(&sh->nviol, 1); if (!kn || sh->nknown <= 2) { int n = __sync_fetch_and_add(nv, 1); if (n < VMAX) { vs[n].seed = seed; vs[n].idx = i; vs[n].known = kn; snprintf(vs[n].msg, sizeof vs[n].msg, "%s", o.msg.c_str()); } } if (!kn && !all) { double z = mono(); if (sh->tfirst == 0) sh->tfirst = z; if (sh->nviol >= 12 || z > sh->tfirst + 5) sh->stop = 1; } }
            }
            std::string of = scratch + "/agg." + std::to_string(k); FILE *f = fopen(of.c_str(), "w");
            if (f) { fprintf(f, "T simtime %f\n", simt); for (auto &p2 : agg) fprintf(f, "%c %s %ld\n", p2.first[0], p2.first.c_str() + 1, p2.second); for (auto &s : samples) fprintf(f, "X %s\n", s.c_str()); fclose(f); }
            _exit(0);
        }
        pids.push_back(p);
    }
    for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
    double search_s = mono() - t0;
    std::map<std::string, long> F, St; double simt = 0; std::vector<std::string> samples;
    for (int k = 0; k < workers; k++) { std::string t = slurp(scratch + "/agg." + std::to_string(k)); size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); std::string l = t.substr(p, e - p); p = e + 1; char key[128]; long v; double d; if (l[0] == 'X') { if (samples.size() < 3) samples.push_back(l.substr(2)); } else if (sscanf(l.c_str(), "T simtime %lf", &d) == 1) simt += d; else if (sscanf(l.c_str(), "F %127s %ld", key, &v) == 2) F[key] += v; else if (sscanf(l.c_str(), "S %127s %ld", key, &v) == 2) St[key] += v; } }
    std::set<uint64_t> hs, hn; long ran = 0; uint64_t evs = 0; for (long i = 0; i < nruns; i++) if (recs[i].ran) { ran++; evs += recs[i].steps; hs.insert(recs[i].hh); if (recs[i].nontriv) hn.insert(recs[i].hh); }
    long bbs = 0; for (size_t i = 0; i <= cov_mask; i++) bbs += cov[i];
    int rc = 0; long unrepro = 0; std::string vline; int nvv = std::min((int)*nv, VMAX);
    std::set<std::string> seen; std::vector<V> order(vs, vs + nvv); std::sort(order.begin(), order.end(), [](const V &a, const V &b) { return a.idx < b.idx; });
    if (sh->nharness) { for (auto &v : order) if (v.known == 2) { fprintf(stderr, "harness error (seed %llu): %s\n", (unsigned long long)v.seed, v.msg); break; } return 70; }
    for (auto &v : order) if (v.known == 1 && !seen.count(v.msg)) { seen.insert(v.msg); }
    for (auto &k : known) for (auto &v : order) if (std::string(v.msg).find(k) != std::string::npos) { printf("KNOWN-FINDING: property=%s %s\n", PD->id, k.c_str()); break; }
    if (all) { std::map<std::string, std::pair<int, uint64_t>> c; for (auto &v : order) { auto &x = c[klass(v.msg)]; if (!x.first) { x.second = v.seed; printf("seed %llu: %s\n", (unsigned long long)v.seed, v.msg); } x.first++; } printf("violations: %ld (%zu classes)\n", (long)sh->nviol, c.size()); for (auto &p : c) printf("%5d  %s\n", p.second.first, p.first.c_str()); }
    else for (auto &v : order) {
        if (v.known == 1) continue;
        // determinism gate: the same seed twice more gives the same history and the same verdict
        Out a = run_one(sl, v.seed, nullptr, "gate"), b = run_one(sl, v.seed, nullptr, "gate");
        if (a.kind != 1 || b.kind != 1 || a.hh != b.hh || a.msg != b.msg) { unrepro++; fprintf(stderr, "not reproducible (seed %llu): %s\n", (unsigned long long)v.seed, v.msg); continue; }
        std::vector<TraceEnt> full = a.tr, t = full; Out best = a; Out r0 = run_one(sl, v.seed, &full, "gate"); bool done = false;
        if (replays.empty()) replays = "."; mkdir(replays.c_str(), 0755);
        std::string path = replays + "/" + PD->id + "-" + std::to_string(v.seed) + ".replay";
        auto confirm = [&](const std::vector<TraceEnt> &tr, const Out &o, bool seedonly) { // a fresh process must reproduce it exactly
            write_replay(path, v.seed, o, tr, full, seedonly); std::string cmd = std::string("'") + argv[0] + "' --dir '" + dir + "' --replay '" + path + "' >'" + scratch + "/rp.out' 2>&1"; unsetenv("SIM_NOASLR"); int st = system(cmd.c_str());
            return WIFEXITED(st) && WEXITSTATUS(st) == 1; };
        if (r0.kind == 1) { // after memory corruption the symptom may be another one; it counts as long as it is reproducible
            best = r0; if (!nomin) { Mini m{sl, v.seed, klass(r0.msg), mono() + (thorough ? 120 : 40)}; t = minimise(m, full, best); best = run_one(sl, v.seed, &t, "gate"); }
            if (best.kind == 1) done = confirm(t, best, false); if (!done) { t = full; best = r0; done = confirm(t, best, false); } }
        if (!done) { t.clear(); best = a; done = confirm(t, best, true); } // every choice drawn from the seed itself
        if (!done) { unrepro++; fprintf(stderr, "replay file not exact: %s", slurp(scratch + "/rp.out").c_str()); unlink(path.c_str()); continue; }
        printf("violation of %s: %s\n  seed %llu, %zu of %zu recorded choices kept after minimisation\n", PD->id, best.msg.c_str(), (unsigned long long)v.seed, t.size(), full.size());
        printf("VIOLATION property=%s replay=%s\n", PD->id, path.c_str()); rc = 1; break;
    }
    if (rc == 0 && unrepro) { fprintf(stderr, "%ld candidate violation(s) could not be reproduced and are not reported\n", unrepro); }
    double wall = mono() - t0;
    if (!evidence.empty()) {
        FILE *f = fopen(evidence.c_str(), "w"); if (!f) { perror(evidence.c_str()); return 70; }
        fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": %ld,\n  \"distinct_nontrivial\": %zu,\n", PD->id, tier.c_str(), (unsigned long long)vseed, ran, hn.size());
        fprintf(f, "  \"rule\": \"one evaluation = one simulated run of the whole system from its own seed (scenario plan, schedule, packet fates and faults all derived from it); non-trivial = %s; distinct = different hash over the full history (all sends, deliveries, receives, application events and faults with their virtual times)\",\n", PD->title);
        fprintf(f, "  \"samples\": ["); for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\n   \"%s\"", i ? "," : "", esc(samples[i].substr(0, 1800)).c_str()); fprintf(f, "\n  ],\n");
        fprintf(f, "  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n  \"simulated_seconds\": %.1f,\n  \"history_events\": %llu,\n  \"distinct_histories\": %zu,\n  \"basic_blocks_reached\": %ld,\n", ran / search_s * 3600, ran / search_s * 3600, simt, (unsigned long long)evs, hs.size(), bbs);
        fprintf(f, "  \"faults_and_events_injected\": {"); bool first = true; for (auto &p : F) { fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", esc(p.first).c_str(), p.second); first = false; } fprintf(f, "},\n");
        fprintf(f, "  \"exercised\": {"); first = true; for (auto &p : St) { fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", esc(p.first).c_str(), p.second); first = false; } fprintf(f, "},\n");
        fprintf(f, "  \"fault_kinds\": \"%s\",\n  \"real_components\": \"%s\",\n  \"stub_components\": \"%s\",\n  \"known_finding_runs\": %ld,\n  \"unreproduced_candidates\": %ld\n },\n", esc(PD->faults).c_str(), esc(PD->real).c_str(), esc(PD->stub).c_str(), (long)sh->nknown, unrepro);
        fprintf(f, " \"assumptions\": [\"the simulated kernel (sockets, timerfd, select, clocks, threads, stdio files) behaves like Linux for the calls used\", \"scheduling points are system calls, lock operations and (multi-threaded nodes) basic-block boundaries\", \"the independent RFC 7252/7959 reference codec and models in /verif/sim are right\"],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, rc);
        fclose(f);
    }
    printf("%s: %ld runs, %zu distinct non-trivial histories, %.0f simulated s, %.1f s search, %ld basic blocks%s\n", PD->id, ran, hn.size(), simt, search_s, bbs, rc ? ", VIOLATED" : "");
    return rc;
}
