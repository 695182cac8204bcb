"""C35: network addresses and TCP connections."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

PRE = """
net.ip_addr_t *a_new() { return calloc!(1, sizeof(net.ip_addr_t)); }
int a_v(net.ip_addr_t *a) { return a->v; }
char *a_data(net.ip_addr_t *a) { return a->data; }
int fd_(net.net_t *c) { return c->fd; }
"""


def body(c):
    fs = "net.parse_addr net.format_addr a_new a_v a_data net.read net.write net.connect net.connect_nonblock net.net_listen net.net_accept net.close net.net_printf net.net_addr net.getreader fd_ reader.read reader.free".split()
    exe = lib_driver("osnet", ["os/net", "reader"], fs, "osnet.c", pre=PRE, wrap=["connect", "bind", "listen", "accept", "socket"])
    for p in ("addresses", "connections"):
        c.harness(p, exe, shards=NCPU, timeout=850, extra_env={"VP_PART": p})


if __name__ == "__main__":
    main("C35", body, ["connections run over the loopback interface of the sandbox; IPv4 only", "what a reset connection gives is not specified"])
