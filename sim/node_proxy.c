/* Glue of the HTTP/CoAP proxy image: the proxy's own main() runs as one simulated process. */
#include <getopt.h>
#include "node_common.h"
int proxy_main(int argc, char **argv);
int node_proxy_main(void *node)
{
    char a0[] = "proxy", a1[] = "-c", a2[] = "proxy.conf", *argv[] = {a0, a1, a2, NULL};
    int ret;
    node_single_thread = 0; optind = 1;
    ret = proxy_main(3, argv);
    simapp_note(node, "proxy_exit", ret, 0, "");
    return ret;
}
