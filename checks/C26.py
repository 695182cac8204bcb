"""C26: HTTP requests and responses, URLs, CGI heads, MIME types, connections."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

PRE = """
http.request_t *q_alloc() { return calloc!(1, sizeof(http.request_t)); }
const char *q_str(http.request_t *r, int i) {
	switch (i) {
		case 0: { return r->method; }
		case 1: { return r->uri; }
		case 2: { return r->version; }
		case 3: { return r->path; }
		case 4: { return r->query; }
		default: { return r->filename; }
	}
}
size_t q_nh(http.request_t *r) { return r->nheaders; }
int q_err(http.request_t *r) { return r->err; }
const char *q_hn(http.request_t *r, size_t i) { return r->headers[i].name; }
const char *q_hv(http.request_t *r, size_t i) { return r->headers[i].value; }
const char *q_get(http.request_t *r, const char *n) { http.header_t *h = http.get_header(r, n); if (!h) { return NULL; } return h->value; }
int method(int i) { if (i == 0) { return http.GET; } if (i == 1) { return http.POST; } if (i == 2) { return http.HEAD; } return http.UNKNOWN_METHOD; }
http.response_t *s_alloc() { return calloc!(1, sizeof(http.response_t)); }
const char *s_ver(http.response_t *r) { return r->version; }
int s_status(http.response_t *r) { return r->status; }
size_t s_nh(http.response_t *r) { return r->nheaders; }
const char *s_hn(http.response_t *r, size_t i) { return r->headers[i].name; }
const char *s_hv(http.response_t *r, size_t i) { return r->headers[i].value; }
const char *s_body(http.response_t *r) { return r->body; }
int s_clen(http.response_t *r) { return r->content_length; }
net.net_t *n_mk(int fd) { net.net_t *c = calloc!(1, sizeof(net.net_t)); c->fd = fd; return c; }
const char *u_str(url.t *u, int i) {
	switch (i) {
		case 0: { return u->schema; }
		case 1: { return u->hostname; }
		case 2: { return u->port; }
		default: { return u->path; }
	}
}
cgi.head_t *c_alloc() { return calloc!(1, sizeof(cgi.head_t)); }
size_t c_nh(cgi.head_t *r) { return r->nheaders; }
const char *c_hn(cgi.head_t *r, size_t i) { return r->headers[i].name; }
const char *c_hv(cgi.head_t *r, size_t i) { return r->headers[i].value; }
net.ip_addr_t *a_new() { return calloc!(1, sizeof(net.ip_addr_t)); }
int a_ver(net.ip_addr_t *a) { return a->v; }
"""


def body(c):
    def q(m, fs): return [m + "." + f for f in fs.split()]
    fs = "q_alloc q_str q_nh q_err q_hn q_hv q_get method s_alloc s_ver s_status s_nh s_hn s_hv s_body s_clen n_mk u_str c_alloc c_nh c_hn c_hv a_new a_ver".split() + \
        q("http", "read_request newreq freereq reqparam reqparams set_header write_request method_from_string errstr init_request parse_response get_res_header write_404 write_405 write_501 serve_text servefile") + \
        q("url", "parse") + q("mime", "lookup") + q("cgi", "parse_head") + q("reader", "new read free") + q("writer", "static_buffer free") + \
        q("net", "net_listen net_accept connect connect_nonblock read write close net_printf getreader net_addr parse_addr format_addr")
    exe = lib_driver("http", ["protocols/http", "protocols/cgi", "url", "mime", "os/net", "reader", "writer"], fs, "http.c", pre=PRE)
    c.harness("http", exe, shards=NCPU, timeout=850)


if __name__ == "__main__":
    main("C26", body, ["fields contain no zero bytes; header lines with stray line breaks inside names or request lines are only required not to harm"])
