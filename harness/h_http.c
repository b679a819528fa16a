/* The HTTP message parser and formatter of the proxy. */
#define _GNU_SOURCE
#include "mc.h"
#include "nofault.h"
#include "http_msg.h"
#include "data_buf.h"
#include <stdio.h>
#include <errno.h>
#include <stdarg.h>
#define L(n) void __wrap_coap_log_##n(const char *m, ...) { }
L(error) L(warn) L(notice) L(info) L(debug)

/* ---- a message under construction, with what a parser must find in it */
static char raw[90000]; static size_t rn;
static const char *xs[3]; static char xh[8][2][1300]; static int xnh; static char xbody[70000]; static size_t xbl;
static void put(const char *s) { size_t n = strlen(s); memcpy(raw + rn, s, n); rn += n; }
static void putn(const char *s, size_t n) { memcpy(raw + rn, s, n); rn += n; }
static void hdr(const char *wire, const char *name, const char *value) { put(wire); strcpy(xh[xnh][0], name); strcpy(xh[xnh][1], value); xnh++; }
static ssize_t parse(http_msg_t *m, const char *p, size_t n) { char *b = exact(p, n); ssize_t r = http_msg_parse(m, b, n); free(b); return r; }
static void same_fields(http_msg_t *m)
{
    int i; http_msg_header_t *h;
    for (i = 0; i < 3; i++) mc_check(http_msg_get_start(m, i) && !strcmp(http_msg_get_start(m, i), xs[i]), "start line field %d is '%s', not '%s'", i, http_msg_get_start(m, i) ? http_msg_get_start(m, i) : "(null)", xs[i]);
    for (i = 0, h = http_msg_get_first_header(m); h; h = http_msg_header_get_next(h), i++) {
        mc_check(i < xnh, "%d headers found, the message has %d", i + 1, xnh);
        mc_check(!strcmp(http_msg_header_get_name(h), xh[i][0]) && !strcmp(http_msg_header_get_value(h), xh[i][1]), "header %d is '%s: %s', not '%s: %s'", i, http_msg_header_get_name(h), http_msg_header_get_value(h), xh[i][0], xh[i][1]);
    }
    mc_check(i == xnh, "%d headers found, the message has %d", i, xnh);
    mc_check(http_msg_get_body_len(m) == xbl, "body of %zu bytes, the message has %zu", (size_t)http_msg_get_body_len(m), xbl);
    if (xbl) mc_check(http_msg_get_body(m) && !memcmp(http_msg_get_body(m), xbody, xbl), "the body differs from the one sent");
}
static void show_raw(void) { size_t i; char b[2048]; size_t k = 0; if (!mc_verbose && !mc_capture) return; for (i = 0; i < rn && k < sizeof(b) - 8; i++) { unsigned char c = raw[i]; if (c >= 32 && c < 127) b[k++] = c; else k += sprintf(b + k, "\\x%02x", c); } b[k] = 0; mc_log("message: %s", b); }

static const char *datas[] = {"hello", "a\0b\0\0", "\r\n\r\n5", "\xff\x80;:x", "0\r\n\r\n"};
static void build(void)
{
    static const char *starts[][3] = {{"GET", "/", "HTTP/1.1"}, {"PUT", "coap://h:5683/a/b?c=%20&d", "HTTP/1.1"}, {"HTTP/1.1", "404", "Not Found"}, {"X", "y", "z:w \t"}};
    int k, nh, i, body; char t[64];
    rn = 0; xnh = 0; xbl = 0;
    nh = mc_choose(3, "headers before"); k = nh == 2 && !mc_tier ? 1 : mc_choose(4, "start line"); for (i = 0; i < 3; i++) { xs[i] = starts[k][i]; put(xs[i]); put(i < 2 ? " " : "\r\n"); }
    for (i = 0; i < nh; i++) switch (mc_choose(8, "header")) {
        case 0: hdr("Host: example.org:80\r\n", "Host", "example.org:80"); break;
        case 1: hdr("A:b\r\n", "A", "b"); break;
        case 2: hdr("A:  b \t c  \r\n", "A", "b c"); break;
        case 3: hdr("Fold: b\r\n c\r\n\t d:e\r\n", "Fold", "b c d:e"); break;
        case 4: hdr("Empty:\r\n", "Empty", ""); break;
        case 5: hdr("Sp: \r\n", "Sp", ""); break;
        case 6: hdr("Q: \"x; y\"=\xe9\r\n", "Q", "\"x; y\"=\xe9"); break;
        case 7: hdr("Fold2:\r\n z\r\n", "Fold2", "z"); break;
    }
    body = mc_choose(3, "body");
    if (body == 0) { put("\r\n"); }
    else if (body == 1) {
        const char *d = datas[mc_choose(5, "data")]; int n = (int[]){0, 1, 4, 5}[mc_choose(4, "length")];
        switch (mc_choose(3, "content-length form")) {
        case 0: sprintf(t, "Content-Length: %d\r\n", n); put(t); strcpy(xh[xnh][0], "Content-Length"); break;
        case 1: sprintf(t, "content-length:%d \r\n", n); put(t); strcpy(xh[xnh][0], "content-length"); break;
        case 2: sprintf(t, "CONTENT-LENGTH: 00%d\r\n", n); put(t); strcpy(xh[xnh][0], "CONTENT-LENGTH"); break;
        }
        sprintf(xh[xnh][1], strstr(t, "00") ? "00%d" : "%d", n); xnh++;
        if (mc_choose(2, "header after")) hdr("Z: 9\r\n", "Z", "9");
        put("\r\n"); putn(d, n); memcpy(xbody, d, n); xbl = n;
    } else {
        int nc = mc_choose(3, "chunks"), c;
        static const char *sz5[] = {"5", "05", "0005", "5;x=y", "5; p=\"v\"", "5 "};
        hdr(mc_choose(2, "transfer-encoding form") ? "transfer-encoding:CHUNKED\r\n" : "transfer-encoding:chunked\r\n", "transfer-encoding", strstr(raw, "x") ? "" : ""); strcpy(xh[xnh - 1][1], raw[rn - 3] == 'D' ? "CHUNKED" : "chunked");
        if (mc_choose(2, "content-length too")) hdr("Content-Length: 2\r\n", "Content-Length", "2");
        put("\r\n");
        for (c = 0; c < nc; c++) {
            if (mc_choose(2, "chunk length")) { put(mc_choose(2, "case") ? "1A\r\n" : "1a\r\n"); putn("0123456789\0abcdefghijk\r\n\r\n\xff", 26); memcpy(xbody + xbl, raw + rn - 26, 26); xbl += 26; }
            else { const char *d = datas[c == 0 ? mc_choose(5, "data") : (c + 1) % 5]; put(c == 0 ? sz5[mc_choose(6, "size form")] : "5"); put("\r\n"); putn(d, 5); memcpy(xbody + xbl, d, 5); xbl += 5; }
            put("\r\n");
        }
        put((const char *[]){"0\r\n", "000\r\n", "0;last\r\n"}[mc_choose(3, "last chunk")]);
        if (mc_choose(2, "trailer")) hdr("T: u\r\n", "T", "u");
        put("\r\n");
    }
}
static void part_parse(void)
{
    http_msg_t m; ssize_t r; size_t n, k; static const char *tails[] = {"", "G", "GET / HTTP/1.1\r\n\r\n", "\r\n", " x", "\n"}; int t;
    build(); show_raw();
    n = rn;
    heap_mark();
    http_msg_create(&m);
    t = (xnh > 3 || xbl > 20) && !mc_tier ? 0 : mc_choose(7, "following bytes"); if (t < 6) put(tails[t]); else putn("\0\0", 2);
    r = parse(&m, raw, rn);
    mc_check(r == (ssize_t)n, "parsing a complete message of %zu bytes returns %zd", n, r);
    same_fields(&m);
    if (t == 0 && (xnh <= 3 || mc_tier)) for (k = 0; k < n; k++) {
        r = parse(&m, raw, k);
        mc_check(r == -EAGAIN, "parsing the first %zu of %zu bytes returns %zd instead of asking for more", k, n, r);
        mc_count("prefix");
    }
    if (t == 0) { r = parse(&m, raw, n); mc_check(r == (ssize_t)n, "parsing after an incomplete attempt returns %zd", r); same_fields(&m); }
    http_msg_destroy(&m);
    heap_same("after destroying the message");
    mc_count("message"); mc_state(mc_hash(1, raw, rn));
}
static void part_invalid(void)
{
    static const char *hd = "PUT /x HTTP/1.1\r\n";
    static const struct { const char *s; int strict; } bad[] = {      /* strict: must be reported as malformed */
        {"GET\r\n\r\n", 1}, {"GET /\r\n\r\n", 1}, {" / HTTP/1.1\r\n\r\n", 1}, {"GET  HTTP/1.1\r\n\r\n", 1}, {"GET / \r\n\r\n", 1}, {"\r\n\r\n", 1},
        {"@nocolon\r\n\r\n", 1}, {"@A: b\r\nnocolon\r\n\r\n", 1},
        {"@Content-Length: -1\r\n\r\nhello", 1}, {"@Content-Length: abc\r\n\r\nhello", 1}, {"@Content-Length: 3x\r\n\r\nhello", 1}, {"@Content-Length: 3 4\r\n\r\nhello", 1}, {"@Content-Length: 0x3\r\n\r\nhello", 1}, {"@Content-Length:\r\n\r\nhello", 1},
        {"@Content-Length: 99999999999999999999999999\r\n\r\nhello", 0}, {"@Content-Length: 18446744073709551619\r\n\r\nhello", 0}, {"@Content-Length: 4294967299\r\n\r\nhello", 0}, {"@Content-Length: 3\r\nContent-Length: 5\r\n\r\nhello", 1},
        {"!g\r\nhello\r\n0\r\n\r\n", 1}, {"!\r\nhello\r\n0\r\n\r\n", 1}, {"!\r\n5\r\nhello\r\n0\r\n\r\n", 1}, {"!-1\r\nhello\r\n0\r\n\r\n", 1}, {"!-2\r\nhello\r\n0\r\n\r\n", 1}, {"!fffffffe\r\n5\r\nhello\r\n0\r\n\r\n", 0}, {"!ffffffff\r\nhello\r\n0\r\n\r\n", 0}, {"!80000000\r\nhello\r\n0\r\n\r\n", 0},
        {"!7fffffff\r\nhello\r\n0\r\n\r\n", 0}, {"!100000005\r\nhello\r\n0\r\n\r\n", 0}, {"!10000000000000005\r\nhello\r\n0\r\n\r\n", 0}, {"!5\r\nhelloX\r\n0\r\n\r\n", 1}, {"!5\r\nhello\n\r0\r\n\r\n", 1}, {"!4\r\nhello\r\n0\r\n\r\n", 1}, {"!;5\r\nhello\r\n0\r\n\r\n", 1}, {"!0\r\nnocolon\r\n\r\n", 1},
    };
    int i = mc_choose(sizeof(bad) / sizeof(bad[0]), "message"), tail = mc_choose(2, "more bytes follow"); http_msg_t m; ssize_t r; size_t k;
    const char *s = bad[i].s;
    rn = 0;
    if (*s == '@') { put(hd); s++; } else if (*s == '!') { put(hd); put("Transfer-Encoding: chunked\r\n\r\n"); s++; }
    put(s); if (tail) put("GET / HTTP/1.1\r\n\r\n"); show_raw();
    heap_mark();
    http_msg_create(&m);
    for (k = 0; k <= rn; k++) {
        r = parse(&m, raw, k);
        mc_check(r == -EAGAIN || r == -EBADMSG || r == -ENOMEM, "%zu bytes of a malformed message parsed as a message of %zd bytes", k, r);
    }
    if (bad[i].strict) mc_check(r == -EBADMSG, "malformed message not refused (%zd)", r);
    mc_count(r == -EBADMSG ? "refused" : "waits");
    http_msg_destroy(&m);
    heap_same("after destroying the message");
}
/* every value of single fields: lengths, chunk sizes, bytes in every place */
static int hexd(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static void value_ok(void)
{
    http_msg_t m; ssize_t r; size_t n = rn;
    show_raw();
    heap_mark();
    http_msg_create(&m);
    r = parse(&m, raw, rn); mc_check(r == (ssize_t)n, "parsing a complete message of %zu bytes returns %zd", n, r); same_fields(&m);
    putn("GET x", 5); r = parse(&m, raw, rn); mc_check(r == (ssize_t)n, "parsing a complete message of %zu bytes followed by others returns %zd", n, r); same_fields(&m);
    r = parse(&m, raw, n - 1); mc_check(r == -EAGAIN, "parsing all but the last byte returns %zd", r);
    http_msg_destroy(&m);
    heap_same("after destroying the message");
    mc_count("message");
}
static void value_bad(void)
{
    http_msg_t m; ssize_t r;
    show_raw();
    heap_mark();
    http_msg_create(&m);
    r = parse(&m, raw, rn); mc_check(r == -EBADMSG, "a malformed message is not refused (%zd)", r);
    http_msg_destroy(&m);
    heap_same("after destroying the message");
    mc_count("malformed message");
}
static void part_values(void)
{
    static const char *tchar = "!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"; int what = mc_choose(15, "what"), i, k, n; static char t[1400], d[70000]; char c[2] = "";
    rn = 0; xnh = 0; xbl = 0; xs[0] = "PUT"; xs[1] = "/x"; xs[2] = "HTTP/1.1";
    for (i = 0; i < 70000; i++) d[i] = (char)(i * 7 + (i >> 8));
#define START rn = 0; xnh = 0; xbl = 0; put("PUT /x HTTP/1.1\r\n")
    switch (what) {
    case 0: for (n = 0; n <= 300; n++) { START; sprintf(t, "Content-Length: %d\r\n", n); hdr(t, "Content-Length", ""); sprintf(xh[0][1], "%d", n); put("\r\n"); putn(d, n); memcpy(xbody, d, n); xbl = n; value_ok(); } break;
    case 1: for (n = 1; n <= 300; n++) for (k = 0; k < 2; k++) { START; hdr("Transfer-Encoding: chunked\r\n", "Transfer-Encoding", "chunked"); sprintf(t, k ? "\r\n%X\r\n" : "\r\n%x\r\n", n); put(t); putn(d, n); put("\r\n0\r\n\r\n"); memcpy(xbody, d, n); xbl = n; value_ok(); } break;
    case 2: for (i = 0x21; i < 256; i++) if (i != 127) for (k = 0; k < 3; k++) { START; c[0] = (char)i; sprintf(xh[0][1], k == 0 ? "%sb" : k == 1 ? "a%sb" : "a%s", c); strcpy(xh[0][0], "Name"); sprintf(t, "Name: %s\r\n", xh[0][1]); put(t); xnh = 1; put("\r\n"); value_ok(); } break;
    case 3: for (i = 0; tchar[i]; i++) for (k = 0; k < 3; k++) { START; c[0] = tchar[i]; sprintf(xh[0][0], k == 0 ? "%sb" : k == 1 ? "a%sb" : "a%s", c); strcpy(xh[0][1], "v"); sprintf(t, "%s: v\r\n", xh[0][0]); put(t); xnh = 1; put("\r\n"); value_ok(); } break;
    case 4: for (i = 0; i < 256; i++) for (k = 0; k < 6; k++) {                                                       /* every byte in bodies */
        START; strcpy(d, "abc"); d[k % 3] = (char)i; memcpy(xbody, d, 3); xbl = 3;
        if (k < 3) { hdr("Content-Length: 3\r\n", "Content-Length", "3"); put("\r\n"); putn(d, 3); } else { hdr("Transfer-Encoding: chunked\r\n", "Transfer-Encoding", "chunked"); put("\r\n3\r\n"); putn(d, 3); put("\r\n0\r\n\r\n"); }
        value_ok(); } break;
    case 5: for (i = 0x21; i < 256; i++) if (i != 127) for (k = 0; k < 3; k++) { char v[3][16]; int j; rn = 0; xnh = 0; xbl = 0; c[0] = (char)i; for (j = 0; j < 3; j++) { sprintf(v[j], j == k ? "a%sb" : "ab", c); xs[j] = v[j]; put(v[j]); put(j < 2 ? " " : "\r\n"); } put("\r\n"); value_ok(); } break;
    case 6: for (n = 1; n <= 120; n++) { START; hdr("Transfer-Encoding: chunked\r\n", "Transfer-Encoding", "chunked"); put("\r\n"); for (k = 0; k < n; k++) { char b = (char)(k * 3 + 1); put(k & 1 ? "1\r\n" : "2\r\n"); putn(&b, 1); xbody[xbl++] = b; if (!(k & 1)) { putn("\0", 1); xbody[xbl++] = 0; } put("\r\n"); } put("0\r\n\r\n"); value_ok(); } break;
    case 7: for (i = 1; i < 256; i++) if (i != 13 && i != 10 && i != 127 && (i > 31 || i == 9)) { START; hdr("Transfer-Encoding: chunked\r\n", "Transfer-Encoding", "chunked"); c[0] = (char)i; sprintf(t, "\r\n3;e=\"%s\"\r\nabc\r\n0\r\n\r\n", c); put(t); memcpy(xbody, "abc", 3); xbl = 3; value_ok(); } break;
    case 8: for (i = 1; i < 256; i++) if (i != 13 && i != 10 && hexd(i) == 0 && !strchr(" \t;\v\f", i)) for (k = 0; k < 2; k++) { START; put("Transfer-Encoding: chunked\r\n\r\n"); c[0] = (char)i; sprintf(t, k ? "%s3\r\nabc\r\n0\r\n\r\n" : "3%s\r\nabc\r\n0\r\n\r\n", c); put(t); value_bad(); } break;
    case 9: for (i = 1; i < 256; i++) if (!(i >= '0' && i <= '9') && !strchr(" \t\r\n\v\f,", i)) for (k = 0; k < 3; k++) { START; c[0] = (char)i; sprintf(t, k == 0 ? "Content-Length: 3%s\r\n\r\n" : k == 1 ? "Content-Length: %s3\r\n\r\n" : "Content-Length: 1%s3\r\n\r\n", c); put(t); put("abcabcabcabcabcabc"); value_bad(); } break;
    case 10: for (i = 0; i < 256; i++) for (k = 0; k < 2; k++) if (i != (k ? '\n' : '\r')) { START; put("Transfer-Encoding: chunked\r\n\r\n3\r\nabc"); c[0] = (char)i; if (k) put("\r"); putn(c, 1); if (!k) put("\n"); put("0\r\n\r\n"); value_bad(); } break;       /* end of the chunk data */
    case 11: for (i = 0x21; i < 256; i++) for (k = 0; k < 2; k++) { START; put("Transfer-Encoding: chunked\r\n\r\n"); c[0] = (char)i; sprintf(t, k ? "3\n%s\r\nabc\r\n0\r\n\r\n" : "3\r%s\r\nabc\r\n0\r\n\r\n", c); put(t); value_bad(); } break;             /* bare CR or LF in the size line */
    case 12: {   /* other transfer codings are not chunked: the length counts, or the message is refused */
        static const char *te[] = {"chunk", "chunke", "chunkedx", "chu", "identity", "xchunked", "c", "chunked2", "chunkd"}; http_msg_t m; ssize_t r;
        for (i = 0; i < 9; i++) {
            START; sprintf(t, "Transfer-Encoding: %s\r\n", te[i]); hdr(t, "Transfer-Encoding", te[i]); hdr("Content-Length: 13\r\n", "Content-Length", "13"); put("\r\n3\r\nabc\r\n0\r\n\r\n"); memcpy(xbody, raw + rn - 13, 13); xbl = 13; show_raw();
            heap_mark(); http_msg_create(&m); r = parse(&m, raw, rn); if (r != -EBADMSG) { mc_check(r == (ssize_t)rn, "parsing a message with an unknown transfer coding returns %zd", r); same_fields(&m); } http_msg_destroy(&m); heap_same("after destroying the message"); mc_count("unknown coding");
        } break; }
    case 13: { static const char *ws[] = {" ", "\t", "\t\t", " \t", "\t ", "\r\n\t", "\r\n ", "\r\n\t\t", " \r\n\t", "\t\r\n ", "\r\n \r\n\t"}; for (i = 0; i < 11; i++) for (k = 0; k < 3; k++) { START; sprintf(t, k == 0 ? "N: a%sb\r\n" : k == 1 ? "N:%sa\r\n" : "N: a%s\r\n", ws[i]); hdr(t, "N", k ? "a" : "a b"); put("\r\n"); value_ok(); } break; }
    case 14: for (i = 0; i < 60; i++) {   /* long bodies, names and values */
        n = i < 12 ? 65530 + i : i < 24 ? 4090 + i - 12 : i < 36 ? 32762 + i - 24 : i < 48 ? 250 + i - 36 : 1019 + i - 48;
        for (k = 0; k < 4; k++) {
            START;
            if (k == 0) { sprintf(t, "Content-Length: %d\r\n", n); hdr(t, "Content-Length", ""); sprintf(xh[0][1], "%d", n); put("\r\n"); putn(d, n); memcpy(xbody, d, n); xbl = n; value_ok(); }
            else if (k == 1) { hdr("Transfer-Encoding: chunked\r\n", "Transfer-Encoding", "chunked"); sprintf(t, "\r\n%x\r\n", n); put(t); putn(d, n); put("\r\n0\r\n\r\n"); memcpy(xbody, d, n); xbl = n; value_ok(); }
            else if (i >= 36) { if (k == 2) put("N: "); for (int j = 0; j < n; j++) putn("v", 1); if (k == 3) put(": n"); put("\r\n\r\n"); memset(xh[0][k == 2], 'v', n); xh[0][k == 2][n] = 0; strcpy(xh[0][k == 3], k == 2 ? "N" : "n"); xnh = 1; value_ok(); }
        } } break;
    }
}
static void part_soup(void)
{
    static const char *pre[] = {"", "GET / H\r\n", "GET / H\r\nTransfer-Encoding:chunked\r\n\r\n", "GET / H\r\nContent-Length:", "GET / H\r\na:b\r\nTransfer-Encoding:chunked\r\n\r\n2\r\nxx\r\n"};
    static const struct { const char *s; int n; } tok[] = {{"\r\n", 2}, {"\r", 1}, {"\n", 1}, {":", 1}, {" ", 1}, {"\t", 1}, {";", 1}, {"0", 1}, {"2", 1}, {"f", 1}, {"fffffffe", 8}, {"-", 1}, {"\0", 1}, {"\xff", 1}};
    int i, len, max = mc_tier ? 6 : 5; http_msg_t m, m2; ssize_t r, r2;
    rn = 0; put(pre[mc_choose(5, "prefix")]);
    len = max - mc_choose(max + 1, "number of pieces");
    for (i = 0; i < len; i++) { int t = mc_choose(14, "piece"); putn(tok[t].s, tok[t].n); }
    show_raw();
    heap_mark();
    http_msg_create(&m); http_msg_create(&m2);
    r = parse(&m, raw, rn);
    mc_check(r > 0 ? r <= (ssize_t)rn : (r == -EAGAIN || r == -EBADMSG || r == -ENOMEM), "parsing %zu bytes returns %zd", rn, r);
    if (r > 0) {
        mc_check(http_msg_get_start(&m, 0) && http_msg_get_start(&m, 1) && http_msg_get_start(&m, 2), "message without a start line");
        mc_check((size_t)http_msg_get_body_len(&m) <= rn, "body longer than the message");
        r2 = parse(&m2, raw, r);
        mc_check(r2 == r, "%zd bytes parsed, but with exactly these bytes the result is %zd", r, r2);
        mc_check(http_msg_get_body_len(&m) == http_msg_get_body_len(&m2) && (!http_msg_get_body_len(&m) || !memcmp(http_msg_get_body(&m), http_msg_get_body(&m2), http_msg_get_body_len(&m))), "the body depends on the bytes after the message");
        r2 = parse(&m2, raw, r - 1);
        mc_check(r2 == -EAGAIN, "%zd bytes parsed, but one byte less gives %zd instead of asking for more", r, r2);
        raw[rn++] = 'Q';
        r2 = parse(&m2, raw, rn);
        mc_check(r2 == r, "%zd bytes parsed, but with another byte the result is %zd", r, r2);
        mc_count("accepted");
    } else mc_count(r == -EAGAIN ? "incomplete" : "refused");
    http_msg_destroy(&m); http_msg_destroy(&m2);
    heap_same("after destroying the messages");
}
static void part_nomem(void)
{
    http_msg_t m; ssize_t r; char *b; size_t n;
    int what = mc_choose(2, "operation"), tier = mc_tier; (void)tier;
    mc_set_dev_budget(mc_tier ? 2 : 1);
    rn = 0; xnh = 0; xbl = 0; xs[0] = "PUT"; xs[1] = "/x"; xs[2] = "HTTP/1.1";
    put("PUT /x HTTP/1.1\r\n"); hdr("A: b\r\n", "A", "b");
    if (mc_choose(2, "chunked")) { hdr("Transfer-Encoding: chunked\r\n", "Transfer-Encoding", "chunked"); put("\r\n3\r\nabc\r\n2\r\nde\r\n0\r\n"); hdr("T: u\r\n", "T", "u"); put("\r\n"); }
    else { hdr("Content-Length: 5\r\n", "Content-Length", "5"); put("\r\nabcde"); }
    memcpy(xbody, "abcde", 5); xbl = 5; n = rn;
    heap_mark();
    http_msg_create(&m);
    if (what == 0) {
        b = exact(raw, rn);
        nf_on = 1; nf_hit = 0; r = http_msg_parse(&m, b, rn); nf_on = 0;
        free(b);
        if (nf_hit) mc_check(r == -ENOMEM, "parsing returns %zd although memory ran out", r);
        else { mc_check(r == (ssize_t)n, "parsing returns %zd", r); same_fields(&m); }
    } else {
        nf_on = 1; nf_hit = 0;
        r = http_msg_set_start(&m, "PUT", "/x", "HTTP/1.1");
        if (r == 0) r = http_msg_set_header(&m, "A", "b");
        if (r == 0) r = http_msg_set_header(&m, "C", "d");
        if (r == 0) r = http_msg_set_body(&m, "abcde", 5);
        nf_on = 0;
        if (nf_hit) mc_check(r == -ENOMEM, "building a message returns %zd although memory ran out", r); else mc_check(r == 0, "building a message returns %zd", r);
    }
    mc_count(nf_hit ? "failed" : "ok");
    if (mc_choose(2, "reuse")) { r = parse(&m, raw, n); mc_check(r == (ssize_t)n, "parsing afterwards returns %zd", r); same_fields(&m); }
    http_msg_destroy(&m);
    heap_same("after destroying the message");
}
/* ---- formatting */
static char want[90000]; static size_t wn;
static void buf_check(const char *out, size_t len, size_t ret, int zero_ok)
{
    size_t i;
    if (len == 0) return;
    mc_check(ret == wn, "%zu returned for a buffer of %zu bytes, the text has %zu", ret, len, wn);
    for (i = 0; i < len - 1 && i < wn; i++) mc_check(out[i] == want[i], "byte %zu of the output is wrong (buffer of %zu bytes, text of %zu)", i, len, wn);
    if (wn < len) mc_check(out[wn] == '\0', "no terminating null character");
    else mc_check(out[len - 1] == '\0', "no terminating null character in a truncated result (buffer of %zu bytes, text of %zu)", len, wn);
}
static void part_generate(void)
{
    static const char *st[][3] = {{"GET", "/", "HTTP/1.1"}, {"HTTP/1.1", "200", "OK"}, {"", "", ""}};
    static const char *hn[] = {"A", "Content-Type", "E"}, *hv[] = {"b", "text/plain; x", ""};
    int s = mc_choose(3, "start"), nh = mc_choose(4, "headers"), i, b = mc_choose(4, "body"), twice = mc_choose(2, "set twice"), rt; http_msg_t m, m2; size_t len, r; char *out; char t[16];
    static const char *bd[] = {NULL, "", "x\0yz", "hello world, a longer body\xff\xfe"}; static const size_t bl[] = {0, 0, 4, 28};
    wn = 0; xnh = 0;
    heap_mark();
    http_msg_create(&m);
    if (twice) mc_check(http_msg_set_start(&m, "old", "older", "oldest") == 0, "set_start");
    mc_check(http_msg_set_start(&m, st[s][0], st[s][1], st[s][2]) == 0, "set_start");
    wn = sprintf(want, "%s %s %s\r\n", st[s][0], st[s][1], st[s][2]);
    for (i = 0; i < 3; i++) xs[i] = st[s][i];
    for (i = 0; i < nh; i++) { int k = mc_choose(3, "header"); mc_check(http_msg_set_header(&m, hn[k], hv[k]) == 0, "set_header"); wn += sprintf(want + wn, "%s: %s\r\n", hn[k], hv[k]); strcpy(xh[xnh][0], hn[k]); strcpy(xh[xnh++][1], hv[k]); }
    rt = s != 2;
    if (b > 1) { sprintf(t, "%zu", bl[b]); mc_check(http_msg_set_header(&m, "Content-Length", t) == 0, "set_header"); wn += sprintf(want + wn, "Content-Length: %s\r\n", t); strcpy(xh[xnh][0], "Content-Length"); strcpy(xh[xnh++][1], t); }
    wn += sprintf(want + wn, "\r\n");
    if (b) { if (twice) mc_check(http_msg_set_body(&m, "replaced", 8) == 0, "set_body"); mc_check(http_msg_set_body(&m, bd[b], bl[b]) == 0, "set_body"); memcpy(want + wn, bd[b], bl[b]); wn += bl[b]; }
    xbl = bl[b]; if (xbl) memcpy(xbody, bd[b], xbl);
    for (len = 0; len <= wn + 3; len++) {
        out = exact("", 0); free(out); out = __real_malloc(len ? len : 1); memset(out, 0x5a, len ? len : 1);
        if (len == 0) { out[0] = 0x5a; r = http_msg_generate(&m, out + 1, 0); mc_check(out[0] == 0x5a, "a buffer of size 0 was written to"); }   /* out+1: any access is out of bounds */
        else { r = http_msg_generate(&m, out, len); buf_check(out, len, r, 0); }
        if (len > wn && rt) {
            http_msg_create(&m2);
            mc_check(parse(&m2, out, wn) == (ssize_t)wn, "a formatted message is not parsed completely");
            same_fields(&m2);
            http_msg_destroy(&m2);
        }
        free(out);
    }
    http_msg_destroy(&m);
    heap_same("after destroying the message");
    mc_count("message");
}
static void part_chunks(void)
{
    static const size_t ls[] = {1, 5, 9, 10, 15, 16, 17, 255, 256, 300}; static char in[400];
    int what = mc_choose(4, "what"), i; size_t len, r, n; char *out;
    for (i = 0; i < 400; i++) in[i] = (char)(i * 13 + 1);
    if (what == 0) { n = ls[mc_choose(10, "chunk length")]; wn = sprintf(want, "%zx\r\n", n); memcpy(want + wn, in, n); wn += n; memcpy(want + wn, "\r\n", 2); wn += 2; }
    else if (what == 1) wn = sprintf(want, "0\r\n");
    else if (what == 2) wn = sprintf(want, "Name: some value\r\n");
    else wn = sprintf(want, "\r\n");
    len = mc_choose((int)wn + 4, "buffer length");
    out = __real_malloc(len ? len : 1); memset(out, 0x5a, len ? len : 1);
    {   char *o = len ? out : out + 1;
        if (what == 0) { char *e = exact(in, n); r = http_msg_generate_chunk(o, len, e, n); free(e); }
        else if (what == 1) r = http_msg_generate_last_chunk(o, len);
        else if (what == 2) r = http_msg_generate_trailer(o, len, "Name", "some value");
        else r = http_msg_generate_blank_line(o, len); }
    buf_check(out, len, r, 0);
    free(out);
    mc_count("piece");
    if (len == wn + 1 && what == 0) {           /* pieces put together are parsed back */
        http_msg_t m; char big[2048]; size_t k = 0; int c, nc = 1 + mc_choose(3, "chunks");
        k = sprintf(big, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n");
        for (c = 0; c < nc; c++) k += http_msg_generate_chunk(big + k, sizeof(big) - k, in + c, n);
        k += http_msg_generate_last_chunk(big + k, sizeof(big) - k);
        if (nc == 2) k += http_msg_generate_trailer(big + k, sizeof(big) - k, "T", "u");
        k += http_msg_generate_blank_line(big + k, sizeof(big) - k);
        http_msg_create(&m);
        mc_check(parse(&m, big, k) == (ssize_t)k, "generated chunks are not parsed back");
        mc_check(http_msg_get_body_len(&m) == n * nc, "body of %zu bytes after %d chunks of %zu", (size_t)http_msg_get_body_len(&m), nc, n);
        for (c = 0; c < nc; c++) mc_check(!memcmp(http_msg_get_body(&m) + c * n, in + c, n), "chunk %d differs", c);
        http_msg_destroy(&m);
        mc_count("chunked round trip");
    }
}
/* ---- formatting: lengths and bytes */
static void gen_at(http_msg_t *m, size_t len) { char *o = __real_malloc(len); size_t r; memset(o, 0x5a, len); r = http_msg_generate(m, o, len); buf_check(o, len, r, 0); free(o); }
static void part_gen_values(void)
{
    static char v[70000]; int what = mc_choose(7, "what"), n = 0, i, k; http_msg_t m, m2; char t[16], *o; size_t r; 
    for (i = 0; i < (int)sizeof(v); i++) v[i] = (char)(i * 11 + (i >> 8));
    heap_mark();
    http_msg_create(&m); xnh = 0; xbl = 0; xs[0] = "PUT"; xs[1] = "/x"; xs[2] = "HTTP/1.1";
    if (what < 4) {
        n = what == 3 ? mc_choose(3010, "length") : mc_choose(1200, "length"); if (what == 3 && n >= 3000) n = 65531 + n - 3000;
        if (what < 3 && n == 0) n = 1;
        o = __real_malloc(n + 1); memset(o, 'n', n); o[n] = 0;
        if (what == 0) xs[1] = o;
        mc_check(http_msg_set_start(&m, xs[0], xs[1], xs[2]) == 0, "set_start"); wn = sprintf(want, "%s %s %s\r\n", xs[0], xs[1], xs[2]);
        if (what == 1 || what == 2) { const char *a = what == 1 ? o : "N", *b = what == 1 ? "v" : o; mc_check(http_msg_set_header(&m, a, b) == 0, "set_header"); wn += sprintf(want + wn, "%s: %s\r\n", a, b); strcpy(xh[0][0], a); strcpy(xh[0][1], b); xnh = 1; }
        if (what == 3) { sprintf(t, "%d", n); mc_check(http_msg_set_header(&m, "Content-Length", t) == 0, "set_header"); wn += sprintf(want + wn, "Content-Length: %s\r\n", t); strcpy(xh[0][0], "Content-Length"); strcpy(xh[0][1], t); xnh = 1; mc_check(http_msg_set_body(&m, v, n) == 0, "set_body"); memcpy(xbody, v, n); xbl = n; }
        wn += sprintf(want + wn, "\r\n"); if (what == 3) { memcpy(want + wn, v, n); wn += n; }
        gen_at(&m, wn + 1); gen_at(&m, wn); gen_at(&m, wn / 2 + 1); gen_at(&m, wn + 100);
        http_msg_create(&m2); mc_check(parse(&m2, want, wn) == (ssize_t)wn, "a formatted message is not parsed completely"); same_fields(&m2); http_msg_destroy(&m2);
        free(o);
    } else if (what == 4) {          /* chunks */
        n = 1 + mc_choose(1110, "length"); if (n > 1100) n = 65531 + n - 1100;
        wn = sprintf(want, "%x\r\n", n); memcpy(want + wn, v, n); wn += n; memcpy(want + wn, "\r\n", 2); wn += 2;
        for (k = 0; k < 4; k++) { size_t len = (size_t[]){wn + 1, wn, wn + 50, wn / 2 + 1}[k]; o = __real_malloc(len); r = http_msg_generate_chunk(o, len, v, n); buf_check(o, len, r, 0); free(o); }
    } else if (what == 5) {          /* trailers */
        char *a; n = 1 + mc_choose(1100, "length"); k = mc_choose(2, "name or value"); a = __real_malloc(n + 1); memset(a, 'q', n); a[n] = 0;
        wn = sprintf(want, "%s: %s\r\n", k ? a : "N", k ? "v" : a);
        for (i = 0; i < 3; i++) { size_t len = (size_t[]){wn + 1, wn, wn / 2 + 1}[i]; o = __real_malloc(len); r = http_msg_generate_trailer(o, len, k ? a : "N", k ? "v" : a); buf_check(o, len, r, 0); free(o); }
        free(a);
    } else {                         /* replacing parts when memory runs out: the message stays usable */
        mc_set_dev_budget(1);
        mc_check(http_msg_set_start(&m, "A", "B", "C") == 0 && http_msg_set_body(&m, "old body", 8) == 0, "set");
        k = mc_choose(2, "what is set");
        nf_on = 1; nf_hit = 0; i = k ? http_msg_set_body(&m, "new", 3) : http_msg_set_start(&m, "P", "Q", "R"); nf_on = 0;
        mc_check(nf_hit ? i == -ENOMEM : i == 0, "setting returns %d", i);
        if (k) {
            size_t bl = http_msg_get_body_len(&m); const char *b = http_msg_get_body(&m);
            if (!nf_hit) mc_check(bl == 3 && !memcmp(b, "new", 3), "the body is not the new one"); else mc_check(bl == 0 || (bl == 8 && b && !memcmp(b, "old body", 8)), "after a failure the body has %zu bytes", bl);
            wn = sprintf(want, "A B C\r\n\r\n"); if (bl) { memcpy(want + wn, b, bl); wn += bl; } gen_at(&m, 64);
        }
        if (mc_choose(2, "again")) { mc_check(http_msg_set_start(&m, "P", "Q", "R") == 0 && http_msg_set_body(&m, "later", 5) == 0, "set"); wn = sprintf(want, "P Q R\r\n\r\nlater"); gen_at(&m, 64); }
    }
    http_msg_destroy(&m);
    heap_same("after destroying the message");
    mc_count("message");
}
/* ---- data_buf: every sequence of operations against a byte-queue model */
static void part_buf(void)
{
    data_buf_t b; static unsigned char q[64]; size_t qn = 0, size, max; int i, n = mc_tier ? 8 : 7; static unsigned char ctr; size_t k; uint64_t hs[8];
    size = (size_t[]){4, 6, 1}[mc_choose(3, "initial size")]; max = (size_t[]){4, 8, 16, 15}[mc_choose(4, "maximum")];
    mc_set_dev_budget(1);
    heap_mark();
    {   int r; nf_on = 1; nf_hit = 0; r = data_buf_create(&b, size, max); nf_on = 0; if (nf_hit) { mc_check(r == -ENOMEM, "create without memory returns %d", r); heap_same("after a failed creation"); return; } if (size > max) { mc_check(r < 0, "buffer larger than its maximum created"); return; } mc_check(r == 0, "create fails"); }
    ctr = 1;
    for (i = 0; i < n; i++) {
        switch (mc_choose(3, "operation")) {
        case 0: {                 /* receive 1, 3 or all bytes */
            size_t want_n = (size_t[]){1, 3, 100}[mc_choose(3, "bytes received")], space = data_buf_get_space(&b), put_n = want_n < space ? want_n : space;
            for (k = 0; k < put_n; k++) data_buf_get_next(&b)[k] = q[qn + k] = ctr % 3 ? ctr : 0, ctr++;
            {   size_t r = data_buf_add(&b, want_n); mc_check(r == put_n, "adding %zu bytes with %zu free returns %zu", want_n, space, r); }
            qn += put_n; break; }
        case 1: {
            size_t want_n = (size_t[]){0, 1, 2, 100}[mc_choose(4, "bytes consumed")], r, c = want_n < qn ? want_n : qn;
            r = data_buf_consume(&b, want_n); mc_check(r == c, "consuming %zu of %zu bytes returns %zu", want_n, qn, r);
            memmove(q, q + c, qn - c); qn -= c; break; }
        case 2: {
            size_t s = data_buf_get_size(&b); int r; nf_on = 1; nf_hit = 0; r = data_buf_expand(&b); nf_on = 0;
            if (nf_hit) { mc_check(r == -ENOMEM && data_buf_get_size(&b) == s, "expanding without memory returns %d, size %zu", r, data_buf_get_size(&b)); break; }
            if (r == 0) mc_check(data_buf_get_size(&b) > s && data_buf_get_size(&b) <= max, "size %zu after expanding %zu (maximum %zu)", data_buf_get_size(&b), s, max);
            else { mc_check(data_buf_get_size(&b) == s, "a failed expansion changed the size"); mc_check(2 * s > max, "expansion from %zu refused although the maximum is %zu", s, max); }
            break; }
        }
        mc_check(data_buf_get_count(&b) == qn, "%zu bytes stored, expected %zu", data_buf_get_count(&b), qn);
        mc_check(data_buf_get_space(&b) == data_buf_get_size(&b) - qn, "space is %zu", data_buf_get_space(&b));
        mc_check(!memcmp(data_buf_get_data(&b), q, qn), "the bytes stored are not the bytes received");
        mc_check(data_buf_get_data(&b)[data_buf_get_size(&b)] == '\0', "the terminating null character after the buffer is gone");
        hs[i] = mc_hash_u(5, data_buf_get_size(&b) * 64 + qn);
    }
    data_buf_destroy(&b);
    heap_same("after destroying the buffer");
    for (i = 0; i < n; i++) mc_state(hs[i]);
    mc_count("history");
}
void mc_setup(void) { mc_shard_depth(!strcmp(mc_part, "soup") ? 4 : 5); heap_mark(); }
void mc_execute(void)
{
    nf_on = 0;
    if (!strcmp(mc_part, "parse")) part_parse();
    else if (!strcmp(mc_part, "invalid")) part_invalid();
    else if (!strcmp(mc_part, "values")) part_values();
    else if (!strcmp(mc_part, "soup")) part_soup();
    else if (!strcmp(mc_part, "nomem")) part_nomem();
    else if (!strcmp(mc_part, "generate")) part_generate();
    else if (!strcmp(mc_part, "chunks")) part_chunks();
    else if (!strcmp(mc_part, "gen-values")) part_gen_values();
    else if (!strcmp(mc_part, "buf")) part_buf();
    else mc_internal("unknown part %s", mc_part);
}
