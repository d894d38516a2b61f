// Table of the checks: property -> scenario family, images, budgets, description of what is real.
#include "scen.h"
namespace sim {
static const char *REAL = "FreeCoAP lib/src (client, server, message codec, buffer pools, timers) compiled unmodified from /repo, one image per simulated process";
static const char *STUB = "kernel sockets/timerfd/select/clock/random (simulated); application handlers and scripted raw peers (harness)";
static const char *NETSF = "datagram loss, duplication, reordering, delay; partitions and heals; node stalls; failing system calls (send, receive, timers); slow and failing handlers; scheduling order";
static const char *NETF = "datagram loss, duplication, reordering, delay; partitions and heals; node stalls; slow and failing handlers; scheduling order";
static const char *REALD = "FreeCoAP lib/src compiled with COAP_DTLS_EN and COAP_CLIENT_AUTH unmodified from /repo, one image per simulated process; real libgnutls (handshake, X.509 verification, record layer)";
static const char *STUBD = "kernel sockets/timerfd/select/clock/random (simulated); Diffie-Hellman group fixed instead of generated; application handlers and the attacker (harness)";
static const char *REALX = "FreeCoAP proxy/http_coap and proxy/common (listener, connection threads, HTTP, URI and cross translation, TLS sockets) with its own main(), and FreeCoAP lib/src as DTLS client and server, compiled unmodified from /repo; real libgnutls";
static const char *STUBX = "kernel sockets/select/timerfd/threads/clock/random/files (simulated); Diffie-Hellman group fixed instead of generated; HTTP clients and CoAP application handlers (harness)";
const std::vector<PropDef> &props() {
    static const std::vector<std::pair<const char *, int>> I46 = {{"plain4", 5}, {"plain6", 5}};
    static const std::vector<std::pair<const char *, int>> I85 = {{"plain4", 8}, {"plain6", 8}};
    static const std::vector<std::pair<const char *, int>> IX = {{"dtls4", 6}, {"proxy", 1}, {"http", 8}};
    static const char *SYSF = "failing socket, timer and name-resolution system calls; failing and exhausted buffer pools; hostile, truncated and oversized datagrams; datagram loss, duplication, reordering, delay; node stalls; failing handlers";
    static const std::vector<std::pair<const char *, int>> IA = {{"app4", 8}, {"app6", 8}};
    static const char *REALA = "FreeCoAP sample programs (reg_client, reg_server, registrar, time_client, time_server, transfer_client, transfer_server) with their own main() except for reg_server and time_client, and FreeCoAP lib/src, all compiled unmodified from /repo";
    static const char *STUBA = "kernel sockets/select/timerfd/clock/random/files (simulated)";
    static const std::vector<PropDef> t = {
        {"C01", "at least one client operation completed", I46, p_client, 60000, 2000000, REAL, STUB, NETF},
        {"C02", "at least one client operation completed", I46, p_client, 60000, 2000000, REAL, STUB, NETF},
        {"C03", "at least one client operation completed", I46, p_client, 60000, 2000000, REAL, STUB, NETSF},
        {"C04", "at least one client operation completed", I46, p_client, 60000, 2000000, REAL, STUB, NETF},
        {"S01", "the server received at least one request", I46, p_S01, 60000, 2000000, REAL, STUB, NETF},
        {"S02", "the server received at least one request", I46, p_S02, 60000, 2000000, REAL, STUB, NETF},
        {"S03", "the server received at least one request", I46, p_S03, 60000, 2000000, REAL, STUB, NETF},
        {"S04", "the server received at least one request", I46, p_S04, 60000, 2000000, REAL, STUB, NETF},
        {"S05", "at least one hostile or disturbing datagram was sent", I46, p_S05, 60000, 2000000, REAL, STUB, SYSF},
        {"S06", "at least one hostile or disturbing datagram was sent", I46, p_S06, 60000, 2000000, REAL, STUB, SYSF},
        {"S08", "the server crashed at least once while clients were active", I85, p_S08, 60000, 2000000, REAL, STUB, "server crash at any system call and restart; datagram loss, duplication, reordering, delay; slow handlers; scheduling order"},
        {"S07", "the server received at least one request", I46, p_S07, 60000, 2000000, REAL, STUB, NETF},
        {"B01", "at least one block-wise transfer completed or failed", I46, p_B01, 60000, 2000000, REAL, STUB, NETF},
        {"B02", "at least one block-wise transfer completed or failed", I46, p_B02, 60000, 2000000, REAL, STUB, NETF},
        {"B03", "at least one block was accepted by the server", I46, p_B03, 60000, 2000000, REAL, STUB, NETF},
        {"B04", "at least one block-wise transfer completed or failed", I46, p_B04, 60000, 2000000, REAL, STUB, NETF},
        {"M01", "at least one message of arbitrary shape was sent as a response", I46, p_M01, 60000, 2000000, REAL, STUB, NETF},
        {"M02", "more than ten buffer requests were made", {{"pool", 1}}, p_M02, 60000, 2000000, "FreeCoAP lib/src/coap_mem.c compiled unmodified from /repo, with a preemption point before every memory access", "threads and mutexes (simulated); the threads' sequences of calls (harness)", "preemption at any memory access or basic block; scheduling order; pool exhaustion; oversized requests; malloc failing at creation"},
        {"D01", "at least one DTLS session was set up or refused", {{"dtls4", 6}}, p_D01, 60000, 2000000, REALD, STUBD, "datagram loss, duplication, reordering, delay, corruption; plaintext, forged, modified and replayed datagrams from any source address; clock skew; untrusted, expired, not yet valid, revoked and misnamed certificates"},
        {"D02", "at least one DTLS session was set up", {{"dtls4", 6}}, p_D02, 60000, 2000000, REALD, STUBD, "datagram loss, duplication, reordering, delay; node stalls; client crashes during handshake and session; failing TLS object creation; failing system calls; forged and replayed datagrams"},
        {"X01", "at least one response arrived at an HTTP client", IX, p_X01, 60000, 2000000, REALX, STUBX, "TCP segmentation, delay, short reads and writes; requests split and delayed anywhere; pipelining; scheduling of the proxy's threads"},
        {"X02", "at least two responses arrived at HTTP clients", IX, p_X02, 60000, 2000000, REALX, STUBX, "preemption of the proxy's threads at any basic block, threads kept off the processor there or at any library call; TCP segmentation, delay, short reads and writes; pipelining"},
        {"X03", "at least one response arrived at an HTTP client", IX, p_X03, 60000, 2000000, REALX, STUBX, "datagram loss, duplication, reordering, delay, corruption; partitions and heals; CoAP server crash at any system call and restart; silent, garbling, resetting, slow and failing CoAP servers; untrusted server certificates; unresolvable and absent hosts"},
        {"X04", "at least one hostile step was taken against the proxy", IX, p_X04, 60000, 2000000, REALX, STUBX, "hostile, truncated and oversized HTTP and TLS bytes; stalls, disconnects and resets at any point; untrusted client certificates; failing accept, thread creation, sockets, timers, name resolution, select; failing heap, message-buffer and TLS-object allocations; preemption of the proxy's threads; TCP segmentation"},
        {"A01", "at least one registration was answered by the server", IA, p_A01, 60000, 2000000, REALA, STUBA, "datagram loss, duplication, reordering, delay; partitions; node stalls; server crash at any system call and restart; failing allocations and buffer pools; malformed requests"},
        {"A02", "at least one file transfer was attempted", IA, p_A02, 60000, 2000000, REALA, STUBA, "disk open, read, write and close errors, short and lost writes on either side; datagram loss, duplication, reordering, delay; partitions; node stalls; server crash at any system call and restart; failing allocations and buffer pools"},
        {"A03", "at least one time was reported by a client", IA, p_A03, 60000, 2000000, REALA, STUBA, "clock skew and jumps on the server; datagram loss, duplication, reordering, delay; partitions; node stalls; server crash and restart"},
        {"B05", "at least one block-wise transfer completed or failed", I46, p_B05, 60000, 2000000, REAL, STUB, NETF},
    };
    return t;
}
const PropDef *find_prop(const std::string &id) { for (auto &p : props()) if (id == p.id) return &p; return nullptr; }
}
