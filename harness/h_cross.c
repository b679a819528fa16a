/* Translation between HTTP and CoAP messages in the proxy. */
#define _GNU_SOURCE
#include "mc.h"
#include "nofault.h"
#include "pool.h"
#include "cross.h"
#include "uri.h"
#include "ref_cross.h"
#include <stdio.h>
#include <errno.h>
#include <ctype.h>
void *__real_coap_mem_small_alloc(size_t n); void *__real_coap_mem_medium_alloc(size_t n); void *__real_coap_mem_large_alloc(size_t n);
void *__wrap_coap_mem_small_alloc(size_t n) { return nf() ? NULL : __real_coap_mem_small_alloc(n); }
void *__wrap_coap_mem_medium_alloc(size_t n) { return nf() ? NULL : __real_coap_mem_medium_alloc(n); }
void *__wrap_coap_mem_large_alloc(size_t n) { return nf() ? NULL : __real_coap_mem_large_alloc(n); }

/* expected options */
typedef struct { unsigned num; char v[300]; size_t n; char alt[16]; size_t altn; const char *key; } want_t;
static want_t W[24]; static int nw;
static want_t *want(unsigned num, const char *v, size_t n) { want_t *w = &W[nw++]; memset(w, 0, sizeof(*w)); w->num = num; memcpy(w->v, v, n); w->n = n; return w; }
static void want_uint(unsigned num, unsigned v, const char *ascii, const char *key)
{   /* shortest unsigned integer; the recorded finding is the ASCII form */
    unsigned char b[4]; int n = 0, i; want_t *w;
    for (i = 3; i >= 0; i--) if (n || (v >> (8 * i)) & 255) b[n++] = (v >> (8 * i)) & 255;
    w = want(num, (char *)b, n); strcpy(w->alt, ascii); w->altn = strlen(ascii); w->key = key;
}
static char known_buf[8][64]; static int nknown;
static void known_note(const char *k) { int i; for (i = 0; i < nknown; i++) if (!strcmp(known_buf[i], k)) return; if (nknown < 8) strcpy(known_buf[nknown++], k); }
static void known_flush(void) { int i; char t[80]; for (i = 0; i < nknown; i++) { sprintf(t, "KNOWN:%s", known_buf[i]); mc_count(t); } nknown = 0; }
/* options found = options wanted; empty path and query segments are ignored on both sides (the library drops them) */
static void check_ops(coap_msg_t *m)
{
    coap_msg_op_t *op; int i, used[24] = {0}, last[64]; memset(last, -1, sizeof(last));
    for (op = coap_msg_get_first_op(m); op; op = coap_msg_op_get_next(op)) {
        unsigned num = coap_msg_op_get_num(op), n = coap_msg_op_get_len(op); const char *v = coap_msg_op_get_val(op);
        if ((num == COAP_MSG_URI_PATH || num == COAP_MSG_URI_QUERY) && n == 0) continue;
        for (i = 0; i < nw; i++) if (!used[i] && W[i].num == num) break;           /* repeatable options must come in order */
        mc_check(i < nw, "unexpected option %u of %u bytes '%.*s'", num, n, (int)n, v);
        used[i] = 1;
        if (n == W[i].n && !memcmp(v, W[i].v, n)) continue;
        if (W[i].key && n == W[i].altn && !memcmp(v, W[i].alt, n)) { known_note(W[i].key); continue; }
        mc_fail("option %u is '%.*s' (%u bytes), not '%.*s' (%zu bytes)", num, (int)n, v, n, (int)W[i].n, W[i].v, W[i].n);
    }
    for (i = 0; i < nw; i++) mc_check(used[i], "option %u '%.*s' is missing", W[i].num, (int)W[i].n, W[i].v);
}
static void segs(unsigned num, const char *s, char sep)
{
    while (*s) { const char *e = strchr(s, sep); size_t n = e ? (size_t)(e - s) : strlen(s); if (n) want(num, s, n); s = e ? e + 1 : s + n; }
}
static const struct { const char *uri, *host, *port, *path, *query; int ok; } uris[] = {      /* path and query: decoded, segments separated by TAB */
    {"coap://h/a", "h", NULL, "a", "", 1}, {"coaps://H.org:5684/a/bc/d", "H.org", "5684", "a\tbc\td", "", 1}, {"COAP://[::1]:61616/", "::1", "61616", "", "", 1}, {"coap://h", "h", NULL, "", "", 1},
    {"coap://h/?x", "h", NULL, "", "x", 1}, {"coap://h:1/p?x=1&y=2&z", "h", "1", "p", "x=1\ty=2\tz", 1}, {"coap://h?q", "h", NULL, "", "q", 1}, {"coap://h/a%20b/%e9?c%3Dd&%25", "h", NULL, "a b\t\xe9", "c=d\t%", 1},
    {"coap://h/a/b/", "h", NULL, "a\tb", "", 1}, {"coap:///r", NULL, NULL, "r", "", 1}, {"coap://h/a@b:c?d@e:f/?", "h", NULL, "a@b:c", "d@e:f/?", 1}, {"coap://u@h/x", "h", NULL, "x", "", 1}, {"coap://:99/x", NULL, "99", "x", "", 1},
    {"coap://h:65535/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa/b", "h", "65535", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\tb", "", 1},
    {"http://h/a", 0, 0, 0, 0, 0}, {"coap://h/a#f", 0, 0, 0, 0, 0}, {"coap://h/a#", 0, 0, 0, 0, 0}, {"//h/a", 0, 0, 0, 0, 0}, {"/a", 0, 0, 0, 0, 0}, {"coap://h/%4", 0, 0, 0, 0, 0}, {"coap://h/%00", 0, 0, 0, 0, 0}, {"coapx://h/", 0, 0, 0, 0, 0}, {"coap:a", 0, 0, 0, 0, 0}, {"*", 0, 0, 0, 0, 0}, {"coap://h/a?%zz", 0, 0, 0, 0, 0},
};
#define NURI ((int)(sizeof(uris) / sizeof(uris[0])))
static const char *meths[] = {"GET", "POST", "PUT", "DELETE", "HEAD", "get", "GETX", "OPTIONS"};
static char body[9000], cbody[8192], cguard[8192];
static void part_request(void)
{
    static const size_t bls[] = {0, 1, 16, 1023, 1024, 1025, 4096, 8192, 8193};
    int u, m, h1, h2, nh = 0, code_exp = 0, ret, i; size_t bl, cend = 0; unsigned code = 77; http_msg_t hm; coap_msg_t cm; char num[16];
    m = mc_choose(8, "method %d", 0); u = mc_choose(NURI, "uri"); bl = bls[mc_choose(m < 4 && uris[u].ok ? 9 : 2, "body length")]; h1 = mc_choose(8, "first header"); h2 = mc_choose(8, "second header");
    mc_log("%s %s, body of %zu bytes", meths[m], uris[u].uri, bl);
    nw = 0;
    heap_mark();
    http_msg_create(&hm); coap_msg_create(&cm);
    if (http_msg_set_start(&hm, meths[m], uris[u].uri, "HTTP/1.1")) mc_internal("set_start");
    for (i = 0; i < 2; i++) switch (i ? h2 : h1) {
        case 1: if (i && h1 == 1) break; http_msg_set_header(&hm, "ETag", "abc\"1"); want(COAP_MSG_ETAG, "abc\"1", 5); break;
        case 2: if (i && h1 == 2) break; http_msg_set_header(&hm, "Cache-Control", "no-x, max-age=300"); want_uint(COAP_MSG_MAX_AGE, 300, "300", "max-age-ascii"); break;
        case 3: if (i && h1 == 3) break; http_msg_set_header(&hm, "accept", "text/plain; charset=x"); want_uint(COAP_MSG_ACCEPT, 0, "0", "accept-ascii"); break;
        case 4: http_msg_set_header(&hm, "Accept", "image/png"); nh = 1; break;
        case 5: http_msg_set_header(&hm, "Cache-Control", "no-cache"); break;
        case 6: http_msg_set_header(&hm, "X-Uri-Path", "etag"); break;
        case 7: http_msg_set_header(&hm, "Connection", "keep-alive"); break;
    }
    sprintf(num, "%zu", bl); http_msg_set_header(&hm, "Content-Length", num);
    for (i = 0; i < (int)bl; i++) body[i] = (char)(i * 31 + (i >> 8) + 7);
    if (bl && http_msg_set_body(&hm, body, bl)) mc_internal("set_body");
    memset(cbody, 0x11, sizeof(cbody));
    if (coap_msg_add_op(&cm, COAP_MSG_IF_MATCH, 3, "old") || coap_msg_set_code(&cm, COAP_MSG_REQ, COAP_MSG_PUT)) mc_internal("old message");   /* a message that was used before */
    ret = cross_req_http_to_coap(&cm, cbody, sizeof(cbody), &cend, &hm, &code);
    if (m >= 4) code_exp = 501; else if (!uris[u].ok) code_exp = 400; else if (nh) code_exp = 406; else if (bl > sizeof(cbody)) code_exp = 502;
    if (code_exp) {
        mc_check(ret < 0, "%s %s is translated", meths[m], uris[u].uri);
        if (m < 4 && uris[u].ok && nh && bl > sizeof(cbody)) mc_check(code >= 400 && code <= 599, "status %u", code);
        else if (m >= 4 && (!uris[u].ok || nh)) mc_check(code == 501 || code == 400 || code == 406, "status %u", code);
        else if (code_exp == 400 && nh) mc_check(code == 400 || code == 406, "status %u", code);
        else if (code_exp == 502) mc_check(code == 502 || code == 413, "status %u for a body that is too long", code);
        else mc_check(code == (unsigned)code_exp, "status %u instead of %d for %s %s", code, code_exp, meths[m], uris[u].uri);
        mc_count("refused");
    } else {
        mc_check(ret == 0, "%s %s is refused (%d, status %u)", meths[m], uris[u].uri, ret, code);
        mc_check(code == 0, "status %u after a successful translation", code);
        mc_check(coap_msg_get_type(&cm) == COAP_MSG_CON && coap_msg_get_code_class(&cm) == COAP_MSG_REQ && (int)coap_msg_get_code_detail(&cm) == m + 1, "%s becomes a message of type %d and code %u.%02u", meths[m], coap_msg_get_type(&cm), coap_msg_get_code_class(&cm), coap_msg_get_code_detail(&cm));
        if (uris[u].host) want(COAP_MSG_URI_HOST, uris[u].host, strlen(uris[u].host));
        if (uris[u].port) want_uint(COAP_MSG_URI_PORT, atoi(uris[u].port), uris[u].port, "uri-port-ascii");
        segs(COAP_MSG_URI_PATH, uris[u].path, '\t'); segs(COAP_MSG_URI_QUERY, uris[u].query, '\t');
        check_ops(&cm);
        if (bl <= COAP_MSG_MAX_PAYLOAD_LEN) { mc_check(coap_msg_get_payload_len(&cm) == bl && (!bl || !memcmp(coap_msg_get_payload(&cm), body, bl)), "payload of %u bytes for a body of %zu bytes, or altered", coap_msg_get_payload_len(&cm), bl); mc_check(cend == 0, "a body of %zu bytes is sent block-wise although it fits", cend); }
        else { mc_check(cend == bl && !memcmp(cbody, body, bl), "block-wise body of %zu bytes for a body of %zu bytes, or altered", cend, bl); mc_check(coap_msg_get_payload_len(&cm) == 0, "payload and block-wise body"); for (i = bl; i < (int)sizeof(cbody); i++) mc_check(cbody[i] == 0x11, "the buffer was written beyond the body"); }
        mc_count("translated");
    }
    coap_msg_destroy(&cm); http_msg_destroy(&hm);
    pool_expect(0, 0, 0, "after the translation"); heap_same("after the translation");
    known_flush();
}
/* long or delimiter-containing names: recorded finding for encoded delimiters */
static void part_uri(void)
{
    static const char *tok[] = {"a", "Z9", "/", "?", "&", "=", "%2F", "%26", "%41", ":", "@", ".", "+"}; char s[128] = "coap://h/", dp[128] = "", dq[128] = ""; int n, i, inq = 0, delim = 0, max = mc_tier ? 6 : 5; coap_msg_t m; int r;
    n = max - mc_choose(max + 1, "number of pieces");
    for (i = 0; i < n; i++) {
        int t = mc_choose(13, "piece"); char *d = inq ? dq : dp;
        strcat(s, tok[t]);
        if (t == 3 && !inq) { inq = 1; continue; }
        if (t == 2) strcat(d, inq ? "/" : "\t"); else if (t == 4) strcat(d, inq ? "\t" : "&"); else if (t == 6) { strcat(d, "/"); if (!inq) delim = 1; } else if (t == 7) { strcat(d, "&"); if (inq) delim = 1; } else if (t == 8) strcat(d, "A"); else strcat(d, tok[t]);
    }
    mc_log("%s", s);
    coap_msg_create(&m);
    r = cross_uri_http_to_coap(&m, s);
    mc_check(r == 0, "'%s' is refused (%d)", s, r);
    nw = 0; want(COAP_MSG_URI_HOST, "h", 1); segs(COAP_MSG_URI_PATH, dp, '\t'); segs(COAP_MSG_URI_QUERY, dq, '\t');
    if (delim) {            /* recorded finding: the encoded delimiter separates segments.  Right, or exactly that */
        coap_msg_op_t *op; int k, ok = 1; 
        for (k = 0, op = coap_msg_get_first_op(&m); op; op = coap_msg_op_get_next(op)) { if (coap_msg_op_get_num(op) != COAP_MSG_URI_HOST && !coap_msg_op_get_len(op)) continue; if (k >= nw || W[k].num != coap_msg_op_get_num(op) || W[k].n != coap_msg_op_get_len(op) || memcmp(W[k].v, coap_msg_op_get_val(op), W[k].n)) { ok = 0; break; } k++; }
        if (k != nw) ok = 0;
        if (!ok) { char *c; for (c = dp; *c; c++) if (*c == '/') *c = '\t'; for (c = dq; *c; c++) if (*c == '&') *c = '\t'; nw = 0; want(COAP_MSG_URI_HOST, "h", 1); segs(COAP_MSG_URI_PATH, dp, '\t'); segs(COAP_MSG_URI_QUERY, dq, '\t'); check_ops(&m); known_note("encoded-delimiter"); }
    } else {
        char buf[256]; coap_msg_t m2;
        check_ops(&m);
        /* and back */
        if (!strchr(dp, '\t') || 1) {
            r = cross_uri_coap_to_http(buf, sizeof(buf), &m);
            mc_check(r == 0, "the options of '%s' are not converted back (%d)", s, r);
            coap_msg_create(&m2);
            r = cross_uri_http_to_coap(&m2, buf);
            mc_check(r == 0, "'%s', made of the options of '%s', is refused", buf, s);
            check_ops(&m2);
            coap_msg_destroy(&m2);
        }
    }
    coap_msg_destroy(&m);
    pool_expect(0, 0, 0, "after the translation");
    mc_count("uri"); known_flush();
}
/* options -> URI -> options; buffer sizes; values that cannot be represented */
static void part_uri_back(void)
{
    static const char *hv[] = {"h", "::1", "a b", "x%41", "%"}, *pv[] = {"5683", "0"}, *sv[] = {"a", "b%20", "c:@", "\xe9\x01", "d=e", "", "%"}; coap_msg_t m, m2; int i, n, r, coap_host, coap_port; char full[600]; size_t len, fn; static char lng[260]; int special = mc_choose(8, "special");
    nw = 0;
    coap_msg_create(&m);
    if ((coap_host = mc_choose(2, "host"))) { const char *v = hv[mc_choose(5, "host value")]; if (coap_msg_add_op(&m, COAP_MSG_URI_HOST, strlen(v), v)) mc_internal("add"); want(COAP_MSG_URI_HOST, v, strlen(v)); }
    if ((coap_port = mc_choose(2, "port"))) { const char *v = pv[mc_choose(2, "port value")]; if (coap_msg_add_op(&m, COAP_MSG_URI_PORT, strlen(v), v)) mc_internal("add"); want(COAP_MSG_URI_PORT, v, strlen(v)); }
    for (i = 0, n = mc_choose(3, "path options"); i < n; i++) { const char *v = sv[mc_choose(7, "path value")]; if (coap_msg_add_op(&m, COAP_MSG_URI_PATH, strlen(v), v)) mc_internal("add"); if (*v) want(COAP_MSG_URI_PATH, v, strlen(v)); }
    for (i = 0, n = mc_choose(3, "query options"); i < n; i++) { const char *v = sv[mc_choose(7, "query value")]; if (coap_msg_add_op(&m, COAP_MSG_URI_QUERY, strlen(v), v)) mc_internal("add"); if (*v) want(COAP_MSG_URI_QUERY, v, strlen(v)); }
    if (special == 1) { if (coap_msg_add_op(&m, COAP_MSG_URI_PATH, 3, "a\0b")) mc_internal("add"); }
    if (special == 2 || special == 3) { size_t k = special == 2 ? 200 : 86; memset(lng, special == 2 ? 'x' : '%', k); if (coap_msg_add_op(&m, COAP_MSG_URI_QUERY, k, lng)) mc_internal("add"); want(COAP_MSG_URI_QUERY, lng, k); }
    if (special >= 4 && special <= 6 && coap_msg_add_op(&m, special == 4 ? COAP_MSG_URI_HOST : special == 5 ? COAP_MSG_URI_PORT : COAP_MSG_URI_QUERY, 3, "a\0b")) mc_internal("add");
    if (special == 7) { size_t k = 245 + mc_choose(11, "long path option"); memset(lng, 'x', sizeof(lng)); if (coap_msg_add_op(&m, COAP_MSG_URI_PATH, k, lng)) mc_internal("add"); want(COAP_MSG_URI_PATH, lng, k); if (coap_msg_add_op(&m, COAP_MSG_URI_PATH, 1, "p")) mc_internal("add"); want(COAP_MSG_URI_PATH, "p", 1); }
    if (coap_msg_add_op(&m, COAP_MSG_ETAG, 2, "zz")) mc_internal("add");
    memset(full, 0x5a, sizeof(full));
    heap_mark();
    r = cross_uri_coap_to_http(full, sizeof(full), &m);
    if (special == 1 || special == 6 || (special == 4 && !coap_host) || (special == 5 && !coap_port)) mc_check(r < 0, "an option containing a null byte becomes the URI '%s'", full);
    if (special < 1) mc_check(r == 0, "the options cannot be converted (%d)", r);
    if (r == 0) {
        fn = strlen(full);
        coap_msg_create(&m2);
        r = cross_uri_http_to_coap(&m2, full);
        mc_check(r == 0, "'%s' is refused (%d)", full, r);
        check_ops(&m2);
        coap_msg_destroy(&m2);
        for (len = 0; len <= fn + 1; len++) { char *o = __real_malloc(len ? len : 1); r = cross_uri_coap_to_http(len ? o : o + 1, len, &m); mc_check(len > fn ? r == 0 && !strcmp(o, full) : r < 0, "conversion into %zu bytes returns %d, the URI '%s' has %zu", len, r, full, fn); free(o); }
        mc_count("converted");
    } else mc_count("refused");
    heap_same("after the conversion");
    coap_msg_destroy(&m);
    pool_expect(0, 0, 0, "after the conversion");
}
/* ---- responses */
static const char *xhdr(http_msg_t *m, const char *n) { http_msg_header_t *h; for (h = http_msg_get_first_header(m); h; h = http_msg_header_get_next(h)) if (!strcasecmp(http_msg_header_get_name(h), n)) return http_msg_header_get_value(h); return NULL; }
static void part_response(void)
{
    static const struct { const char *v; size_t n; int ok; } et[] = {{"", 0, 0}, {"abc123", 6, 1}, {"a\r\nX: y", 7, 0}, {"a\0b", 3, 0}, {"\xff\x01", 2, 0}, {"x\nSet-Z:1\n", 8, 0}, {"a b", 3, 2}, {"\"q\"", 3, 1}, {"\r", 1, 0}, {":;=", 3, 1}};
    static const struct { const char *v; size_t n; } ma[] = {{"", 0}, {"60", 2}, {"\x3c", 1}, {"5", 1}, {"\r\n\r\n", 4}, {"1\r\n\r", 4}};
    static const size_t pls[] = {0, 1, 100, 1024}, bls[] = {0, 1, 1025, 8192};
    int cd, e, a, x, ret, i; unsigned cls, det, code = 77; size_t pl, bl, n, k; coap_msg_t cm; http_msg_t hm, hp; static char out[16384], pay[1024], bd[8192]; const char *h; int st;
    cd = mc_choose(256, "code"); cls = cd >> 5; det = cd & 31;
    if (cls != 2 && cls != 4 && cls != 5) { mc_count("skipped class"); return; }
    e = mc_choose(10, "etag"); a = mc_choose(6, "max-age"); x = mc_choose(5, "another option");
    pl = pls[mc_choose(e > 1 && !mc_tier ? 2 : 4, "payload")]; bl = bls[mc_choose(a > 1 && !mc_tier ? 2 : 4, "block-wise body")];
    heap_mark();
    coap_msg_create(&cm); http_msg_create(&hm); http_msg_create(&hp);
    if (coap_msg_set_type(&cm, COAP_MSG_ACK) || coap_msg_set_code(&cm, cls, det)) mc_internal("code");
    if (et[e].n && coap_msg_add_op(&cm, COAP_MSG_ETAG, et[e].n, et[e].v)) mc_internal("etag");
    if (ma[a].n && coap_msg_add_op(&cm, COAP_MSG_MAX_AGE, ma[a].n, ma[a].v)) mc_internal("max-age");
    if (x == 1 && coap_msg_add_op(&cm, COAP_MSG_CONTENT_FORMAT, 1, "\0")) mc_internal("cf");
    if (x == 2 && coap_msg_add_op(&cm, COAP_MSG_ETAG, 0, "")) mc_internal("etag");
    if (x == 3 && coap_msg_add_op(&cm, COAP_MSG_LOCATION_PATH, 5, "\r\n\r\nx")) mc_internal("lp");
    if (x == 4 && coap_msg_add_op(&cm, COAP_MSG_ACCEPT, 1, "0")) mc_internal("accept");
    for (i = 0; i < (int)pl; i++) pay[i] = (char)(i * 7 + 13); for (i = 0; i < (int)bl; i++) bd[i] = (char)(i * 11 + (i >> 8));
    if (pl && coap_msg_set_payload(&cm, pay, pl)) mc_internal("payload");
    if (http_msg_set_start(&hm, "OLD", "OLD", "OLD") || http_msg_set_header(&hm, "Old", "old")) mc_internal("old");
    ret = cross_resp_coap_to_http(&hm, &cm, bd, bl, &code);
    if (ret < 0) {
        mc_check(!known_code(cls, det), "the response %u.%02u is not translated (%d)", cls, det, ret);
        mc_check(code >= 500 && code <= 599, "status %u for a response that is not understood", code);
        mc_count("not understood");
    } else {
        mc_check(code == 0, "status %u after a successful translation", code);
        mc_check(!strcmp(http_msg_get_start(&hm, 0), "HTTP/1.1") || !strcmp(http_msg_get_start(&hm, 0), "HTTP/1.0"), "status line '%s'", http_msg_get_start(&hm, 0));
        st = atoi(http_msg_get_start(&hm, 1));
        mc_check(http_status_ok(cls, det, st), "%u.%02u becomes %s", cls, det, http_msg_get_start(&hm, 1));
        n = http_msg_generate(&hm, out, sizeof(out));
        mc_check(n < sizeof(out), "response of %zu bytes", n);
        k = http_msg_parse(&hp, out, n);
        mc_check(k == n, "the generated response is not one HTTP message: %zd of %zu bytes parsed", (ssize_t)k, n);
        mc_check(!strcmp(http_msg_get_start(&hp, 1), http_msg_get_start(&hm, 1)), "status '%s'", http_msg_get_start(&hp, 1));
        {   const char *b = bl ? bd : pay; size_t q = bl ? bl : pl;
            if (q) { mc_check(http_msg_get_body_len(&hp) == q && !memcmp(http_msg_get_body(&hp), b, q), "the body has %zu bytes instead of %zu, or differs", (size_t)http_msg_get_body_len(&hp), q); }
            else { mc_check(http_msg_get_body_len(&hp) == 0, "a body appears"); if (st != 304 && st != 204) mc_check((h = xhdr(&hp, "Content-Length")) ? !strcmp(h, "0") : xhdr(&hp, "Transfer-Encoding") != NULL, "nothing tells the HTTP client that there is no body"); } }
        {   http_msg_header_t *q; int cnt = 0;
            for (q = http_msg_get_first_header(&hp); q; q = http_msg_header_get_next(q)) {
                const char *nm = http_msg_header_get_name(q), *v = http_msg_header_get_value(q);
                cnt++;
                if (!strcasecmp(nm, "Etag")) { mc_check(et[e].n || x == 2, "entity-tag without an option"); if (et[e].ok == 1 && !(x == 2 && !*v)) mc_check(strstr(v, et[e].v) != NULL, "entity-tag '%s' instead of '%s'", v, et[e].v); }
                else if (!strcasecmp(nm, "Cache-Control")) mc_check(ma[a].n > 0, "Cache-Control without a Max-Age option");
                else mc_check(!strcasecmp(nm, "Content-Length") || !strcasecmp(nm, "Content-Type") || !strcasecmp(nm, "Location") || !strcasecmp(nm, "Accept") || !strcasecmp(nm, "Content-Location"), "header '%s: %s' was injected", nm, v);
            }
            if (et[e].ok == 1) mc_check(xhdr(&hp, "Etag") != NULL, "the entity-tag '%s' is lost", et[e].v);
            if (a == 1) { h = xhdr(&hp, "Cache-Control"); if (h && !strcmp(h, "max-age=60")) known_note("max-age-ascii"); else mc_check(!h || !strcmp(h, "max-age=13872"), "Max-Age bytes '60' become '%s'", h); }
            if (a == 3) { h = xhdr(&hp, "Cache-Control"); if (h && !strcmp(h, "max-age=5")) known_note("max-age-ascii"); else mc_check(!h || !strcmp(h, "max-age=53"), "Max-Age byte '5' becomes '%s'", h); }
        }
        mc_count("translated");
    }
    coap_msg_destroy(&cm); http_msg_destroy(&hm); http_msg_destroy(&hp);
    pool_expect(0, 0, 0, "after the translation"); heap_same("after the translation");
    known_flush();
}
/* ---- every value of one field at a time */
static int many(int n, const char *what) { int hi = mc_choose((n + 255) / 256, "%s / 256", what); return hi * 256 + mc_choose(n - hi * 256 < 256 ? n - hi * 256 : 256, "%s %% 256", what); }
static int known_header(const char *n) { static const char *k[] = {"etag", "cache-control", "accept"}; int i; for (i = 0; i < 3; i++) if (!strcasecmp(n, k[i])) return 1; return 0; }
static unsigned pow2ish(int i) { unsigned long long b = 1ull << (i / 3); return (unsigned)(b + i % 3 - 1); }      /* 2^k - 1, 2^k, 2^k + 1 */
static void part_req_values(void)
{
    static const char *names[] = {"Accept-Language", "Accept-Encoding", "Accept-Charset", "Accept-Ranges", "Accep", "Acceptx", "X-Accept", "ETag2", "E-Tag", "ETa", "tag", "If-Match", "If-None-Match", "If-Modified-Since", "Cache-Controlx", "Cache-Contro", "Cache", "Content-Type", "Content-Length",
        "Content-Encoding", "Host", "User-Agent", "Connection", "Cookie", "Authorization", "Location", "Expires", "Age", "Max-Age", "Pragma", "Proxy-Connection", "Range", "TE", "Trailer", "Upgrade", "Via", "Warning", "Uri-Host", "Uri-Path", "X", "Date", "Expect", "From", "Referer", "Origin"};
    static const char *meth4[] = {"GET", "POST", "PUT", "DELETE"}, *others[] = {"HEAD", "TRACE", "CONNECT", "PATCH", "OPTIONS", "PROPFIND", "FETCH", "iPATCH", "PRI", "M-SEARCH", "LINK", "UPDATE", "G", "P", "D"};
    static const char chs[] = "AEGOPSTULXZaegopstux09-_.";
    static char lng[1200];
    http_msg_t hm; coap_msg_t cm; unsigned code = 77, v; size_t cend = 0, bl = 0, i; int ret, f = mc_choose(9, "field"), exp = 0, may_refuse = 0, may_drop = 0, mi = 0, k; char uri[1400] = "coap://h/a", val[600], method[32]; const char *hn = NULL; int lbl = 0;
    nw = 0; heap_mark();
    http_msg_create(&hm); coap_msg_create(&cm);
    strcpy(method, "GET"); val[0] = 0;
    switch (f) {
    case 0: {   /* entity-tags: every length and character */
        int n = 1 + mc_choose(300, "length"), c = 0x21 + mc_choose(n <= 8 ? 94 : 3, "character");
        memset(val, c, n); val[0] = n > 1 ? 'a' : (char)c; val[n] = 0; hn = mc_choose(2, "case") ? "etag" : "ETag"; want(COAP_MSG_ETAG, val, n < 300 ? n : 299); if (n >= 300) return; may_refuse = may_drop = n > 8; break; }
    case 1: {   /* Cache-Control: every age */
        static const char *fm[] = {"max-age=%u", "no-transform, max-age=%u", "max-age=%u, no-store"}; static const char *un[] = {"no-cache", "", "max-age", "max-age=", "max-stale=5", "private", "max-age=x"}; char as[16];
        int t = mc_choose(3, "values"), q;
        if (t == 2) { strcpy(val, un[mc_choose(7, "other")]); hn = "Cache-Control"; may_refuse = 1; break; }
        q = many(t ? 95 : 70000, "age"); v = t ? pow2ish(q) : (unsigned)q; sprintf(val, fm[mc_choose(t || q < 300 ? 3 : 1, "form")], v); hn = "Cache-Control"; sprintf(as, "%u", v); want_uint(COAP_MSG_MAX_AGE, v, as, "max-age-ascii"); break; }
    case 2: hn = names[mc_choose(sizeof(names) / sizeof(names[0]), "header name")]; strcpy(val, ((const char *[]){"max-age=7", "text/plain", "image/png", "x", "*/*"})[mc_choose(5, "value")]); if (!strcmp(hn, "Content-Length")) lbl = 1; if (known_header(hn)) mc_internal("name"); break;
    case 3: {   /* methods: everything one edit away from a method */
        int m = mc_choose(5, "method"), e, at, ch;
        if (m == 4) { strcpy(method, others[mc_choose(15, "other")]); exp = 501; break; }
        strcpy(method, meth4[m]); e = mc_choose(4, "edit (none, replace, insert, delete)"); at = e ? mc_choose(strlen(method) + (e == 2), "position") : 0; ch = e == 1 || e == 2 ? mc_choose(sizeof(chs) - 1, "character") : 0;
        if (e == 1) method[at] = chs[ch]; else if (e == 2) { memmove(method + at + 1, method + at, strlen(method + at) + 1); method[at] = chs[ch]; } else if (e == 3) memmove(method + at, method + at + 1, strlen(method + at));
        for (exp = 501, k = 0; k < 4; k++) if (!strcmp(method, meth4[k])) { exp = 0; mi = k; }
        break; }
    case 4: { char as[16]; v = many(65536, "port"); sprintf(uri, "coap%s://h:%u/a", v & 1 ? "s" : "", v); sprintf(as, "%u", v); want_uint(COAP_MSG_URI_PORT, v, as, "uri-port-ascii"); break; }
    case 5: {   /* path and query characters, as they are where allowed and encoded */
        int c = 1 + mc_choose(255, "character"), q = mc_choose(2, "path or query"), form = mc_choose(3, "form"), at = mc_choose(3, "position"); char seg[8], enc[32], *o = enc; static const char plain[] = "!$'()*+,;=:@-._~";
        if (c == (q ? '&' : '/')) { mc_count("delimiter"); coap_msg_destroy(&cm); http_msg_destroy(&hm); return; }
        if (form == 2 && !(isalnum(c) || strchr(plain, c))) { mc_count("not allowed"); coap_msg_destroy(&cm); http_msg_destroy(&hm); return; }
        strcpy(seg, "xyz"); seg[at] = (char)c;
        for (k = 0; k < 3; k++) if (k == at && form < 2) o += sprintf(o, form ? "%%%02x" : "%%%02X", c); else *o++ = seg[k];
        *o = 0; sprintf(uri, q ? "coap://h/a?%s&k=1" : "coap://h/a/%s/e", enc); want(COAP_MSG_URI_PATH, "a", 1);
        if (q) { want(COAP_MSG_URI_QUERY, seg, 3); want(COAP_MSG_URI_QUERY, "k=1", 3); } else { want(COAP_MSG_URI_PATH, seg, 3); want(COAP_MSG_URI_PATH, "e", 1); }
        uri[strlen(uri)] = 0; goto nopath; }
    case 6: {   /* lengths of host, path segment and query parameter */
        int n = 1 + mc_choose(290, "length"), w = mc_choose(3, "component"); memset(lng, 'k', n); lng[n] = 0;
        sprintf(uri, w == 0 ? "coap://%s/a" : w == 1 ? "coap://h/a/%s" : "coap://h/a?%s", lng); may_refuse = n > 255; want(w == 0 ? COAP_MSG_URI_HOST : w == 1 ? COAP_MSG_URI_PATH : COAP_MSG_URI_QUERY, lng, n < 300 ? n : 299);
        if (w == 1) { want_t t = W[nw - 1]; W[nw - 1] = W[nw]; nw--; want(COAP_MSG_URI_PATH, "a", 1); W[nw++] = t; goto nopath; }
        if (w == 0) { want(COAP_MSG_URI_PATH, "a", 1); goto nohost; }
        break; }
    case 7: bl = mc_choose(8300, "body length"); strcpy(method, "PUT"); mi = 2; if (bl > sizeof(cbody)) exp = 502; break;
    default: {  /* Accept */
        static const struct { const char *v; int ok; } ac[] = {{"text/plain", 1}, {"TEXT/PLAIN", 1}, {"Text/Plain", 1}, {"text/plain;q=0.5", 1}, {"text/plain; charset=utf-8", 1}, {"text/html", 0}, {"text/plai", 0}, {"text", 0}, {"application/json", 0}, {"image/png", 0}, {"application/xml", 0}, {"ext/plain", 0}, {"application/text/plain", 0}, {"text-plain", 0}, {"text/xplain", 0}};
        k = mc_choose(15, "value"); strcpy(val, ac[k].v); hn = mc_choose(2, "case") ? "ACCEPT" : "Accept"; if (ac[k].ok) want_uint(COAP_MSG_ACCEPT, 0, "0", "accept-ascii"); else exp = 406; }
    }
    want(COAP_MSG_URI_PATH, "a", 1);
nopath:
    want(COAP_MSG_URI_HOST, "h", 1);
nohost:
    mc_log("%s %.200s, %s: %.100s, body of %zu bytes", method, uri, hn ? hn : "-", val, bl);
    if (http_msg_set_start(&hm, method, uri, "HTTP/1.1")) mc_internal("set_start");
    if (hn && http_msg_set_header(&hm, hn, val)) mc_internal("set_header");
    for (i = 0; i < bl; i++) body[i] = (char)(i * 31 + (i >> 8) + 7);
    if (bl && http_msg_set_body(&hm, body, bl)) mc_internal("set_body");
    memset(cbody, 0x11, sizeof(cbody)); (void)lbl;
    ret = cross_req_http_to_coap(&cm, cbody, sizeof(cbody), &cend, &hm, &code);
    if (exp) {
        mc_check(ret < 0, "%s %.100s with %s: %s is translated", method, uri, hn ? hn : "-", val);
        mc_check(code == (unsigned)exp || (exp == 502 && code == 413) || (exp == 501 && code == 405), "status %u instead of %d", code, exp); mc_count("refused");
    } else if (ret < 0) {
        mc_check(may_refuse, "%s %.200s with %s: %.100s is refused (%d, status %u)", method, uri, hn ? hn : "-", val, ret, code);
        mc_check(code >= 400 && code <= 599, "status %u", code); mc_count("refused: too long");
    } else {
        mc_check(code == 0 && coap_msg_get_type(&cm) == COAP_MSG_CON && coap_msg_get_code_class(&cm) == COAP_MSG_REQ && (int)coap_msg_get_code_detail(&cm) == mi + 1, "%s becomes code %u.%02u, status %u", method, coap_msg_get_code_class(&cm), coap_msg_get_code_detail(&cm), code);
        if (may_drop) { coap_msg_op_t *op; int found = 0; for (op = coap_msg_get_first_op(&cm); op; op = coap_msg_op_get_next(op)) if (coap_msg_op_get_num(op) == COAP_MSG_ETAG) found = 1; if (!found) { memmove(W, W + 1, sizeof(W[0]) * --nw); } }
        check_ops(&cm);
        if (bl <= COAP_MSG_MAX_PAYLOAD_LEN) mc_check(cend == 0 && coap_msg_get_payload_len(&cm) == bl && (!bl || !memcmp(coap_msg_get_payload(&cm), body, bl)), "payload of %u bytes (block-wise %zu) for a body of %zu bytes, or altered", (unsigned)coap_msg_get_payload_len(&cm), cend, bl);
        else { mc_check(cend == bl && !memcmp(cbody, body, bl) && coap_msg_get_payload_len(&cm) == 0, "block-wise body of %zu bytes for a body of %zu bytes, or altered", cend, bl); for (i = bl; i < sizeof(cbody); i++) if (cbody[i] != 0x11) mc_fail("the buffer was written beyond the body"); }
        mc_count("translated");
    }
    coap_msg_destroy(&cm); http_msg_destroy(&hm);
    pool_expect(0, 0, 0, "after the translation"); heap_same("after the translation");
    known_flush();
}
static int printable(const char *v, size_t n) { size_t i; for (i = 0; i < n; i++) if (v[i] < 0x21 || v[i] > 0x7e) return 0; return 1; }
static void part_resp_values(void)
{
    static char ov[1400], out[80000], bd[70100]; coap_msg_t cm; http_msg_t hm, hp; http_msg_header_t *q; unsigned code = 77, num = 0; size_t on = 0, bl = 0, pl = 0, n, k; int f = mc_choose(6, "field"), ret, may_refuse = 0, st, etag_seen = 0, clen = 0; const char *h; char pay[1024];
    switch (f) {
    case 0: { int c = mc_choose(256, "byte"), len = 1 + mc_choose(8, "length"), at = mc_choose(len, "position"); num = COAP_MSG_ETAG; memset(ov, 't', len); ov[at] = (char)c; on = len; break; }
    case 1: num = COAP_MSG_ETAG; on = 1 + mc_choose(1030, "length"); memset(ov, mc_choose(2, "binary") ? 0x80 : 'e', on); may_refuse = on > 8; break;
    case 2: {   /* every other option */
        static const char *vs[] = {"", "v", "\r\nX: y\r\n\r\n", "60"}; int t = mc_choose(4, "value"); num = mc_choose(301, "option number"); if (num == COAP_MSG_ETAG || num == COAP_MSG_MAX_AGE) { mc_count("other field"); return; }
        if (num == 300) num = mc_choose(2, "high number") ? 65000 : 2049; strcpy(ov, vs[t]); on = strlen(ov); may_refuse = num & 1; break; }
    case 3: { static const unsigned ns[] = {COAP_MSG_LOCATION_PATH, COAP_MSG_LOCATION_QUERY, COAP_MSG_CONTENT_FORMAT, 28, COAP_MSG_BLOCK2, 2050}; num = ns[mc_choose(6, "option")]; on = mc_choose(301, "length"); memset(ov, 'l', on); may_refuse = on > (num == COAP_MSG_LOCATION_PATH || num == COAP_MSG_LOCATION_QUERY ? 255u : 3u); break; }
    case 4: {   /* Max-Age: integers, and digits */
        int t = mc_choose(2, "form"), i; unsigned v; num = COAP_MSG_MAX_AGE; i = many(65631, "age"); v = i < 65536 ? (unsigned)i : pow2ish(i - 65536);
        if (t) on = sprintf(ov, "%u", v); else { for (on = 0, i = 3; i >= 0; i--) if (on || (v >> (8 * i)) & 255) ov[on++] = (char)(v >> (8 * i)); }
        may_refuse = t && on > 4; break; }
    default: { int w = mc_choose(2, "payload or block-wise"); if (!w) pl = mc_choose(1025, "payload length"); else { bl = mc_choose(8193 + 60, "body length"); if (bl > 8192) bl = 65506 + (bl - 8192); } }
    }
    heap_mark();
    coap_msg_create(&cm); http_msg_create(&hm); http_msg_create(&hp);
    if (coap_msg_set_type(&cm, COAP_MSG_ACK) || coap_msg_set_code(&cm, 2, 5)) mc_internal("code");
    if (num && coap_msg_add_op(&cm, num, on, ov)) mc_internal("option");
    for (k = 0; k < pl; k++) pay[k] = (char)(k * 7 + 13); for (k = 0; k < bl; k++) bd[k] = (char)(k * 11 + (k >> 8));
    if (pl && coap_msg_set_payload(&cm, pay, pl)) mc_internal("payload");
    ret = cross_resp_coap_to_http(&hm, &cm, bd, bl, &code);
    mc_log("option %u of %zu bytes: %d", num, on, ret);
    if (ret < 0) { mc_check(may_refuse, "a response with option %u of %zu bytes, payload of %zu and body of %zu bytes is not translated (%d)", num, on, pl, bl, ret); mc_check(code >= 500 && code <= 599, "status %u", code); mc_count("not understood"); }
    else {
        mc_check(code == 0, "status %u", code); st = atoi(http_msg_get_start(&hm, 1)); mc_check(st == 200, "2.05 becomes %d", st);
        n = http_msg_generate(&hm, out, sizeof(out)); mc_check(n < sizeof(out), "response of %zu bytes", n);
        k = http_msg_parse(&hp, out, n); mc_check(k == n, "the generated response is not one HTTP message: %zd of %zu bytes parsed", (ssize_t)k, n);
        { const char *b = bl ? bd : pay; size_t m = bl ? bl : pl; mc_check((size_t)http_msg_get_body_len(&hp) == m && (!m || !memcmp(http_msg_get_body(&hp), b, m)), "the body has %zu bytes instead of %zu, or differs", (size_t)http_msg_get_body_len(&hp), m); }
        for (q = http_msg_get_first_header(&hp); q; q = http_msg_header_get_next(q)) {
            const char *nm = http_msg_header_get_name(q), *v = http_msg_header_get_value(q); size_t vl = strlen(v);
            for (k = 0; k < vl; k++) mc_check((unsigned char)v[k] >= 0x20 && v[k] != 0x7f, "a control character in header '%s'", nm);
            if (!strcasecmp(nm, "Etag")) {
                etag_seen = 1; mc_check(num == COAP_MSG_ETAG, "entity-tag made of option %u", num);
                if (printable(ov, on)) mc_check(memmem(v, vl, ov, on) != NULL, "entity-tag '%s' instead of '%.*s'", v, (int)on, ov);
                else if (on == 1 && ov[0] == ' ') ; else if (!memchr(ov, ' ', on)) mc_check(vl > on && printable(v, vl), "the entity-tag of %zu bytes, not all printable, becomes '%s'", on, v);
            } else if (!strcasecmp(nm, "Cache-Control")) mc_check(num == COAP_MSG_MAX_AGE, "Cache-Control made of option %u", num);
            else if (!strcasecmp(nm, "Content-Length")) { mc_check(!clen++, "two lengths"); mc_check(strtoull(v, NULL, 10) == (bl ? bl : pl), "length %s for %zu bytes", v, bl ? bl : pl); }
            else mc_check(!strcasecmp(nm, "Content-Type") || !strcasecmp(nm, "Location") || !strcasecmp(nm, "Accept") || !strcasecmp(nm, "Content-Location") || !strcasecmp(nm, "Content-Encoding"), "header '%s: %s' appears", nm, v);
        }
        if (f == 0 && printable(ov, on)) mc_check(etag_seen, "the entity-tag '%.*s' is lost", (int)on, ov);
        if (f == 4) {
            unsigned v = 0, a = 0; char t[16], b[40]; int r; h = xhdr(&hp, "Cache-Control");
            for (k = 0; k < on && on <= 4; k++) v = v << 8 | (unsigned char)ov[k];
            memcpy(t, ov, on); t[on] = 0; r = sscanf(t, "%u", &a); sprintf(b, "max-age=%u", v);
            if (on <= 4 && h && !strcmp(h, b)) ;                                      /* right */
            else { sprintf(b, "max-age=%u", a); if (r == 1) mc_check(h && !strcmp(h, b), "Max-Age '%s' becomes '%s'", t, h ? h : "nothing"); else mc_check(!h, "Max-Age becomes '%s'", h); if (on) known_note("max-age-ascii"); }
        }
        mc_count("translated");
    }
    coap_msg_destroy(&cm); http_msg_destroy(&hm); http_msg_destroy(&hp);
    pool_expect(0, 0, 0, "after the translation"); heap_same("after the translation");
    known_flush();
}
static void part_nomem(void)
{
    int dir = mc_choose(3, "direction"), ret, big = mc_choose(2, "large body"); coap_msg_t cm; http_msg_t hm; unsigned code = 77; size_t cend = 0;
    mc_set_dev_budget(mc_tier ? 2 : 1);
    heap_mark();
    coap_msg_create(&cm); http_msg_create(&hm);
    if (dir == 0) {
        if (http_msg_set_start(&hm, "PUT", "coap://host.example.org:5683/a/bc?d&e", "HTTP/1.1") || http_msg_set_header(&hm, "ETag", "x") || http_msg_set_header(&hm, "Cache-Control", "max-age=9") || http_msg_set_header(&hm, "Accept", "text/plain") || http_msg_set_body(&hm, body, big ? 2000 : 10)) mc_internal("message");
        nf_on = 1; nf_hit = 0; ret = cross_req_http_to_coap(&cm, cbody, sizeof(cbody), &cend, &hm, &code); nf_on = 0;
    } else if (dir == 2) {
        char u[64] = "";
        if (coap_msg_add_op(&cm, COAP_MSG_URI_HOST, 4, "host") || coap_msg_add_op(&cm, COAP_MSG_URI_PORT, 4, "5683") || coap_msg_add_op(&cm, COAP_MSG_URI_PATH, 2, "ab") || coap_msg_add_op(&cm, COAP_MSG_URI_QUERY, 1, "q") || (big && coap_msg_add_op(&cm, COAP_MSG_URI_QUERY, 1, "r"))) mc_internal("message");
        nf_on = 1; nf_hit = 0; ret = cross_uri_coap_to_http(u, sizeof(u), &cm); nf_on = 0;
        code = nf_hit ? 500 : 0;
    } else {
        if (coap_msg_set_code(&cm, 2, 5) || coap_msg_add_op(&cm, COAP_MSG_ETAG, 2, "ab") || coap_msg_add_op(&cm, COAP_MSG_MAX_AGE, 1, "5") || coap_msg_add_op(&cm, COAP_MSG_ACCEPT, 1, "0") || coap_msg_set_payload(&cm, body, 10)) mc_internal("message");
        nf_on = 1; nf_hit = 0; ret = cross_resp_coap_to_http(&hm, &cm, body, big ? 2000 : 0, &code); nf_on = 0;
    }
    if (nf_hit) { mc_check(ret < 0, "a translation succeeds although memory ran out"); mc_check(code >= 400 && code <= 599, "status %u", code); mc_count("failed"); }
    else { mc_check(ret == 0 && code == 0, "a translation fails (%d)", ret); mc_count("ok"); }
    coap_msg_destroy(&cm); http_msg_destroy(&hm);
    pool_expect(0, 0, 0, "after the translation"); heap_same("after the translation");
}
void mc_setup(void) { mc_shard_depth(4); pool_init(64, 64, 32, 1088, 8, 1152); (void)cguard; }
void mc_execute(void)
{
    nf_on = 0; nknown = 0;
    if (mc_dirty) pool_again();
    if (!strcmp(mc_part, "request")) part_request();
    else if (!strcmp(mc_part, "uri")) part_uri();
    else if (!strcmp(mc_part, "uri-back")) part_uri_back();
    else if (!strcmp(mc_part, "response")) part_response();
    else if (!strcmp(mc_part, "req-values")) part_req_values();
    else if (!strcmp(mc_part, "resp-values")) part_resp_values();
    else if (!strcmp(mc_part, "nomem")) part_nomem();
    else mc_internal("unknown part %s", mc_part);
}
