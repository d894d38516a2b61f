/* Glue of the sample-application image: the sample programs run as simulated processes, each through its own main(),
 * except the registration server (its list has to be read) and the time client (its main() never ends). */
#include <errno.h>
#include "node_common.h"
#include "reg_server.h"
#include "registrar.h"
#include "time_client.h"

int reg_client_main(int argc, char **argv);
int transfer_client_main(int argc, char **argv);
int transfer_server_main(int argc, char **argv);
int time_server_main(int argc, char **argv);

static reg_server_t reg_srv;
static int reg_up;
static int reg_server_prog(int argc, char **argv)
{
    int ret = reg_server_init();
    if (ret < 0) return 1;
    ret = reg_server_create(&reg_srv, argv[1], argv[2], "", "", "", "");
    if (ret < 0) { reg_server_deinit(); return 1; }
    reg_up = 1;
    ret = reg_server_run(&reg_srv);
    reg_up = 0;
    reg_server_destroy(&reg_srv);
    reg_server_deinit();
    return ret < 0;
}
/* what the registration server lists: id NUL addr NUL ... */
int node_reg_list(char *buf, size_t len)
{
    size_t n = 0; registrar_entry_t *e;
    if (!reg_up) return -1;
    for (e = registrar_get_first(&reg_srv.registrar); e != NULL; e = registrar_entry_get_next(e)) {
        size_t a = strnlen(registrar_entry_get_id(e), sizeof e->id), b = strnlen(registrar_entry_get_addr(e), sizeof e->addr);
        if (n + a + b + 2 > len) return -2;
        memcpy(buf + n, registrar_entry_get_id(e), a); n += a; buf[n++] = 0;
        memcpy(buf + n, registrar_entry_get_addr(e), b); n += b; buf[n++] = 0;
    }
    return (int)n;
}
static int time_client_prog(void *node, int argc, char **argv)
{
    static time_client_t c; char buf[64]; int ret, k, n = atoi(argv[3]);
    ret = time_client_init();
    if (ret < 0) return 1;
    ret = time_client_create(&c, argv[1], argv[2], "", "", "", "", "");
    if (ret < 0) { time_client_deinit(); return 1; }
    for (k = 0; k < n; k++) {
        memset(buf, 'x', sizeof buf);
        simapp_note(node, "time_ask", k, 0, "");
        ret = time_client_get_time(&c, buf, argc > 4 ? (size_t)atoi(argv[4]) : 32);
        simapp_note(node, "time_got", ret, k, ret < 0 ? "" : buf);
        sim_sleep_ns(1000000000LL);
    }
    time_client_destroy(&c);
    time_client_deinit();
    return 0;
}
int node_app_main(void *node, int prog, int argc, char **argv)
{
    int ret = -1; char who[2] = {'0' + prog, 0};
    switch (prog) {
    case 0: ret = reg_server_prog(argc, argv); break;
    case 1: ret = reg_client_main(argc, argv); break;
    case 2: ret = transfer_server_main(argc, argv); break;
    case 3: ret = transfer_client_main(argc, argv); break;
    case 4: ret = time_server_main(argc, argv); break;
    case 5: ret = time_client_prog(node, argc, argv); break;
    }
    simapp_note(node, "app_exit", ret, prog, who);
    return ret;
}
