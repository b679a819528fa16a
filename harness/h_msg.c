/* Message codec harness: decode, encode, option lists, classification, Block options, URI path. */
#include "mc.h"
#include "ref_coap.h"
#include "pool.h"
#include "coap_msg.h"
#include "coap_mem.h"
#include <stdlib.h>
#include <errno.h>

#define ARENA 4096
static char *arena;                    /* heap block: inputs are right aligned so the first byte past the end is a redzone */
static unsigned char scratch[70000];

/* ---------------------------------------------------------------- decode (M01) */
static void check_decode(const unsigned char *in, size_t n)
{
    coap_msg_t m; rmsg_t r; int want; ssize_t got; unsigned k; coap_msg_op_t *op;
    char *buf = arena + ARENA - n;
    memcpy(buf, in, n);
    want = ref_decode(&r, in, n);
    coap_msg_create(&m);
    got = coap_msg_parse(&m, buf, n);
    memset(buf, 0xA5, n);              /* the decoded message must not depend on the datagram buffer any more */
    if (want == REF_OK) mc_check(got == 0, "well-formed datagram of %zu bytes rejected (%zd)", n, got);
    else mc_check(got < 0, "malformed datagram of %zu bytes accepted (reference class %d)", n, want);
    if (want == REF_OK) {
        mc_check(coap_msg_get_ver(&m) == 1 && coap_msg_get_type(&m) == r.type && coap_msg_get_code_class(&m) == r.cls
                 && coap_msg_get_code_detail(&m) == r.det && coap_msg_get_msg_id(&m) == r.mid, "header fields differ from the datagram");
        mc_check(coap_msg_get_token_len(&m) == r.tkl && memcmp(coap_msg_get_token(&m), r.tok, r.tkl) == 0, "token differs");
        k = 0;
        for (op = coap_msg_get_first_op(&m); op; op = coap_msg_op_get_next(op), k++) {
            mc_check(k < r.nop, "more options decoded than on the wire (%u)", r.nop);
            if (k >= RMAXOP) continue;
            mc_check(coap_msg_op_get_num(op) == r.op[k].num, "option %u: number %u, on the wire %u", k, coap_msg_op_get_num(op), r.op[k].num);
            mc_check(coap_msg_op_get_len(op) == r.op[k].len, "option %u: length %u, on the wire %u", k, coap_msg_op_get_len(op), r.op[k].len);
            mc_check(memcmp(coap_msg_op_get_val(op), r.op[k].val, r.op[k].len) == 0, "option %u: value differs", k);
        }
        mc_check(k == r.nop, "only %u of %u options decoded", k, r.nop);
        mc_check(coap_msg_get_payload_len(&m) == r.pll && (r.pll == 0 || memcmp(coap_msg_get_payload(&m), r.pl, r.pll) == 0), "payload differs");
        mc_count("accepted");
        mc_state(mc_hash(mc_hash_u(1, n), in, n > 24 ? 24 : n));
    } else {
        mc_count(want == REF_SHORT ? "rejected: short" : want == REF_VERSION ? "rejected: version" : "rejected: format");
        mc_state(mc_hash_u(mc_hash_u(2, want), mc_hash(1, in, n > 8 ? 8 : n)));
    }
    {   /* type and message ID are recoverable from any 4-byte header, and only from that */
        unsigned t = 99, id = 99999; int rr;
        memcpy(buf, in, n);
        rr = coap_msg_parse_type_msg_id(buf, n, &t, &id);
        if (n < 4) mc_check(rr < 0, "type/message ID reported for a %zu byte datagram", n);
        else mc_check(rr == 0 && t == ((in[0] >> 4) & 3u) && id == (unsigned)(in[2] << 8 | in[3]), "type/message ID peek wrong");
    }
    coap_msg_destroy(&m);
    pool_expect(0, 0, 0, "after destroying the decoded message");
}

/* all byte strings over the full alphabet as the part after a fixed header */
static void x_decode_free(void)
{
    unsigned char b[16] = {0x40, 0x01, 0x12, 0x34}; int n, i, full = mc_tier ? 4 : 3;
    n = mc_choose(full + 1, "tail length");
    if (n > 0) b[4] = mc_choose(256, "byte 0");
    for (i = 1; i < n; i++) {
        if (i == 3) { static const unsigned char sub[] = {0, 1, 0x0d, 0x0e, 0x10, 0x7f, 0x80, 0xd0, 0xe0, 0xfe, 0xff}; b[4 + i] = sub[mc_choose(sizeof(sub), "byte 3")]; }
        else b[4 + i] = mc_choose(256, "byte %d", i);
    }
    check_decode(b, 4 + n);
}
/* headers: every first byte, every code, short datagrams, token bytes present or missing */
static void x_decode_header(void)
{
    static const unsigned ids[] = {0, 1, 0x7fff, 0x80ff, 0xff00, 0xffff};
    unsigned char b[64]; unsigned tkl, have, tail; size_t n; unsigned id;
    b[0] = mc_choose(256, "byte 0"); b[1] = mc_choose(256, "code");
    id = ids[mc_choose(6, "message id")];
    b[2] = id >> 8; b[3] = id & 255;
    tkl = b[0] & 15;
    /* datagram truncated anywhere in header or token, exact token, and with tails */
    have = mc_choose(4 + tkl + 1, "bytes present");
    for (n = 4; n < 4 + tkl; n++) b[n] = 0xA0 + (unsigned char)n;
    n = have;
    if (have == 4 + tkl) {
        tail = mc_choose(6, "tail");
        if (tail == 1) b[n++] = 0xff;
        if (tail == 2) { b[n++] = 0xff; b[n++] = 0x00; }
        if (tail == 3) { b[n++] = 0x00; }
        if (tail == 4) { b[n++] = 0xb1; b[n++] = 'a'; b[n++] = 0xff; b[n++] = 0xff; }
        if (tail == 5) { b[n++] = 0x01; }
    }
    check_decode(b, n);
}
/* option grammar: strings over the structurally significant bytes */
static void x_decode_grammar(void)
{
    static const unsigned char sym[] = {0x00, 0x01, 0x0d, 0x0e, 0x0f, 0x10, 0xd0, 0xdd, 0xe0, 0xee, 0xf0, 0xff, 0x80, 0xb2};
    unsigned char b[32] = {0x51, 0x45, 0xff, 0x00, 0x77}; int n, i, max = mc_tier ? 7 : 6;
    n = mc_choose(max + 1, "length");
    for (i = 0; i < n; i++) b[5 + i] = sym[mc_choose(sizeof(sym), "sym %d", i)];
    check_decode(b, 5 + n);
}
/* extended deltas and lengths, complete values, followed by another option / payload / truncation */
static const unsigned xnum[] = {0, 1, 11, 12, 13, 14, 100, 140, 141, 142, 255, 268, 269, 270, 400, 524, 525, 1000, 33000, 65535, 65804};
static const unsigned xlen[] = {0, 1, 12, 13, 14, 100, 139, 140, 141, 142, 200, 255, 256, 267, 268, 269, 270, 271, 397, 398, 524, 525, 526, 1024, 1200};
static void x_decode_ext(void)
{
    rmsg_t m; size_t n, cut; unsigned i, base = 0;
    static unsigned char val[70000];
    memset(&m, 0, sizeof(m));
    if (val[1] == 0) for (i = 0; i < sizeof(val); i++) val[i] = (unsigned char)(i * 7 + 3);
    m.type = 0; m.tkl = 1; m.tok[0] = 0xff; m.cls = 0; m.det = 3; m.mid = 0x00ff;
    m.nop = 1 + mc_choose(2, "options");
    for (i = 0; i < m.nop; i++) {
        unsigned d, l;
        if (i == 0 && m.nop == 1) { d = mc_choose(mc_tier ? 4096 : 600, "delta"); l = mc_choose(2, "len class") ? xlen[mc_choose(25, "len")] : 2; }
        else { d = xnum[mc_choose(21, "delta")]; l = i == 0 ? xlen[mc_choose(25, "len")] : (unsigned)mc_choose(3, "len"); }
        base += d;
        m.op[i].num = base; m.op[i].len = l; m.op[i].val = val + i;
    }
    if (mc_choose(2, "payload")) { m.pl = val + 5; m.pll = 3; }
    n = ref_encode(&m, scratch);
    cut = mc_choose(4, "truncate by");
    if (cut > n - 4) cut = n - 4;
    check_decode(scratch, n - cut);
}
/* one option with every length 0..1200 and every truncation class */
/* well-formed messages in which two bytes take every value */
static void x_decode_mutate(void)
{
    static const struct { const char *b; int n; } t[] = {{"\x42\x01\x12\x34\xaa\xbb\xb1p\x11q\xff\x00x", 13}, {"\x60\x45\x00\x01\x42zz\xd1\x01\x07\xe0\x00\x10\x0d\x00\x61\x62\x63\x64\x65\x66\x67\x68\x69\x6a\x6b\x6c\x6d\xff\xff", 30}};
    unsigned char b[40]; int k = mc_choose(2, "message"), i, j, c, d, n;
    memcpy(b, t[k].b, t[k].n);
    i = mc_choose(t[k].n, "first byte"); j = mc_choose(t[k].n, "second byte"); if (j <= i) mc_prune();
    if (k && !mc_tier && i > 11) mc_prune();
    n = t[k].n - mc_choose(2, "last byte missing");
    c = mc_choose(256, "value of the first byte");
    b[i] = (unsigned char)c;
    for (d = 0; d < 256; d++) { b[j] = (unsigned char)d; check_decode(b, n); }
}
static void x_decode_len(void)
{
    rmsg_t m; size_t n; static unsigned char val[2000]; unsigned i;
    if (val[1] == 0) for (i = 0; i < sizeof(val); i++) val[i] = (unsigned char)(i * 5 + 1);
    memset(&m, 0, sizeof(m));
    m.type = 1; m.cls = 2; m.det = 5; m.mid = 7;
    m.nop = 1; m.op[0].num = xnum[mc_choose(21, "num")]; m.op[0].len = mc_choose(1201, "len"); m.op[0].val = val;
    n = ref_encode(&m, scratch);
    if (mc_choose(2, "truncate")) { if (n > 4) n--; }
    check_decode(scratch, n);
}

/* ---------------------------------------------------------------- encode (M02) */
static unsigned char vals[4000];
static void build(coap_msg_t *m, const rmsg_t *r, const unsigned *order)
{
    unsigned k; int ret;
    coap_msg_create(m);
    ret = coap_msg_set_type(m, r->type); mc_check(ret == 0, "set_type(%u) failed", r->type);
    ret = coap_msg_set_code(m, r->cls, r->det); mc_check(ret == 0, "set_code(%u,%u) failed", r->cls, r->det);
    ret = coap_msg_set_msg_id(m, r->mid); mc_check(ret == 0, "set_msg_id(%u) failed", r->mid);
    ret = coap_msg_set_token(m, (char *)r->tok, r->tkl); mc_check(ret == 0, "set_token(len %u) failed", r->tkl);
    for (k = 0; k < r->nop; k++) {
        unsigned j = order ? order[k] : k;
        ret = coap_msg_add_op(m, r->op[j].num, r->op[j].len, (const char *)r->op[j].val);
        mc_check(ret == 0, "add_op(%u, len %u) failed", r->op[j].num, r->op[j].len);
    }
    ret = coap_msg_set_payload(m, (char *)r->pl, r->pll); mc_check(ret == 0, "set_payload(len %zu) failed", r->pll);
}
static void stable_sort(rmsg_t *r)
{
    unsigned i, j;
    for (i = 1; i < r->nop; i++) for (j = i; j > 0 && r->op[j - 1].num > r->op[j].num; j--) { rop_t t = r->op[j]; r->op[j] = r->op[j - 1]; r->op[j - 1] = t; }
}
static int legal(const rmsg_t *r)
{
    if (r->cls == 0 && r->det == 0) return !(r->type == 1 || r->tkl || r->nop || r->pll);
    return r->type != 3;
}
/* encode in a buffer of the given size and compare */
static void try_encode(coap_msg_t *m, const rmsg_t *r, size_t exact, size_t size, int ok)
{
    char *buf = arena + ARENA - size; ssize_t got; size_t i;
    memset(buf, 0x5A, size);
    got = coap_msg_format(m, buf, size);
    if (!ok) { mc_check(got < 0, "message that violates the Empty/Reset/Non-confirmable rules was encoded"); mc_count("illegal refused"); return; }
    if (size < exact) { mc_check(got < 0, "%zu-byte message encoded in a %zu-byte buffer (%zd)", exact, size, got); mc_count("no space reported"); return; }
    mc_check(got == (ssize_t)exact, "encoding needs %zu bytes, buffer %zu, result %zd", exact, size, got);
    for (i = 0; i < exact; i++) mc_check((unsigned char)buf[i] == scratch[i], "encoded byte %zu is %02x, RFC 7252 says %02x", i, (unsigned char)buf[i], scratch[i]);
    for (; i < size; i++) mc_check(buf[i] == 0x5A, "encoder wrote past the end of the message");
    mc_count("encoded");
}
static void check_encode(rmsg_t *r, int allsizes)
{
    coap_msg_t m, back; size_t exact, size; int ok = legal(r);
    build(&m, r, NULL);
    stable_sort(r);
    exact = ref_encode(r, scratch);
    mc_state(mc_hash(exact, scratch, exact));
    if (allsizes) for (size = 0; size <= exact + 3; size++) try_encode(&m, r, exact, size, ok);
    else {
        static const int off[] = {-300, -20, -13, -4, -3, -2, -1, 0, 1, 2};
        unsigned i;
        for (i = 0; i < 10; i++) { long s = (long)exact + off[i]; if (s >= 0) try_encode(&m, r, exact, s, ok); }
    }
    if (ok) {
        rmsg_t d; unsigned char *b = (unsigned char *)arena + ARENA - exact; ssize_t got; unsigned k = 0; coap_msg_op_t *op;
        memcpy(b, scratch, exact);
        mc_check(ref_decode(&d, b, exact) == REF_OK, "reference disagreement");
        coap_msg_create(&back);
        got = coap_msg_parse(&back, (char *)b, exact);
        mc_check(got == 0, "encoded message is not accepted by the decoder (%zd)", got);
        mc_check(back.type == r->type && back.code_class == r->cls && back.code_detail == r->det && back.msg_id == r->mid && back.token_len == r->tkl
                 && memcmp(back.token, r->tok, r->tkl) == 0 && back.payload_len == r->pll && (!r->pll || memcmp(back.payload, r->pl, r->pll) == 0), "round trip changed header, token or payload");
        for (op = coap_msg_get_first_op(&back); op; op = op->next, k++)
            mc_check(k < r->nop && op->num == r->op[k].num && op->len == r->op[k].len && memcmp(op->val, r->op[k].val, op->len) == 0, "round trip changed option %u", k);
        mc_check(k == r->nop, "round trip lost options");
        coap_msg_destroy(&back);
    }
    coap_msg_destroy(&m);
    pool_expect(0, 0, 0, "after encoding");
}
static void x_encode_header(void)
{
    rmsg_t r; static const unsigned ids[] = {0, 0x0180, 0xffff}; unsigned i;
    memset(&r, 0, sizeof(r));
    r.type = mc_choose(4, "type");
    r.cls = mc_choose(8, "class"); r.det = mc_choose(32, "detail");
    if (r.cls == 1 || r.cls == 3 || r.cls == 6 || r.cls == 7) mc_prune();
    r.mid = ids[mc_choose(3, "id")];
    r.tkl = mc_choose(9, "token length");
    for (i = 0; i < r.tkl; i++) r.tok[i] = 0xF0 ^ i;
    if (mc_choose(2, "option")) { r.nop = 1; r.op[0].num = 11; r.op[0].len = 2; r.op[0].val = vals; }
    if (mc_choose(2, "payload")) { r.pl = vals + 9; r.pll = 2; }
    check_encode(&r, 1);
}
static void x_encode_ops(void)
{
    rmsg_t r; unsigned i, n;
    static const unsigned num[] = {0, 1, 3, 11, 12, 13, 14, 23, 24, 27, 35, 60, 268, 269, 270, 281, 282, 300, 538, 65535, 65804};
    static const unsigned len[] = {0, 1, 12, 13, 14, 15, 140, 141, 255, 256, 267, 268, 269, 270, 525, 1000};
    static const unsigned len2[] = {0, 12, 13, 20, 141, 268, 269};
    memset(&r, 0, sizeof(r));
    r.type = 0; r.cls = 0; r.det = 1; r.mid = 0x1234; r.tkl = 2; r.tok[0] = 1; r.tok[1] = 0xff;
    n = mc_choose(mc_tier ? 4 : 3, "options");
    for (i = 0; i < n; i++) {
        r.op[i].num = num[mc_choose(21, "num")];
        r.op[i].len = n < 3 ? len[mc_choose(16, "len")] : len2[mc_choose(7, "len")];
        r.op[i].val = vals + i * 3;
    }
    r.nop = n;
    if (mc_choose(2, "payload")) { r.pl = vals + 100; r.pll = 5; }
    check_encode(&r, 0);
}
static void x_encode_range(void)       /* one option, every number and every length around the encodings' ranges */
{
    rmsg_t r; memset(&r, 0, sizeof(r));
    r.type = 2; r.cls = 2; r.det = 5; r.mid = 1; r.nop = 1; r.op[0].val = vals;
    if (mc_choose(2, "sweep")) { r.op[0].num = mc_choose(mc_tier ? 2500 : 600, "num"); r.op[0].len = mc_choose(40, "len"); }
    else { static const unsigned n0[] = {0, 5, 12, 13, 268, 269, 3000}; r.op[0].num = n0[mc_choose(7, "num")]; r.op[0].len = mc_choose(1201, "len"); }
    if (mc_choose(2, "payload")) { r.pll = 1; r.pl = vals; }
    check_encode(&r, 0);
}
static void x_encode_payload(void)
{
    rmsg_t r; memset(&r, 0, sizeof(r));
    r.type = 1; r.cls = 4; r.det = 4; r.mid = 0xfffe; r.tkl = 8; memcpy(r.tok, "\xff\x00zabcde", 8);
    r.pl = vals + 1; r.pll = mc_choose(1201, "payload length");
    if (mc_choose(2, "option")) { r.nop = 1; r.op[0].num = 12; r.op[0].len = 0; r.op[0].val = vals; }
    check_encode(&r, 0);
}
static void x_setters(void)            /* field setters accept exactly the values the header can carry */
{
    coap_msg_t m; unsigned a, b; int ret;
    coap_msg_create(&m);
    switch (mc_choose(4, "setter")) {
    case 0: a = mc_choose(12, "type"); ret = coap_msg_set_type(&m, a); mc_check((ret == 0) == (a <= 3) && (ret || m.type == a), "set_type(%u) -> %d", a, ret); break;
    case 1: a = mc_choose(20, "class"); b = mc_choose(80, "detail"); ret = coap_msg_set_code(&m, a, b);
        mc_check((ret == 0) == (a <= 7 && b <= 31) && (ret || (m.code_class == a && m.code_detail == b)), "set_code(%u,%u) -> %d", a, b, ret); break;
    case 2: a = mc_choose(4, "base") * 0x8000 + mc_choose(3, "off") - 1; ret = coap_msg_set_msg_id(&m, a); mc_check((ret == 0) == (a <= 0xffff) && (ret || m.msg_id == a), "set_msg_id(%u) -> %d", a, ret); break;
    case 3: a = mc_choose(20, "len"); ret = coap_msg_set_token(&m, (char *)vals, a); mc_check((ret == 0) == (a <= 8) && (ret || (m.token_len == a && !memcmp(m.token, vals, a))), "set_token(%u) -> %d", a, ret); break;
    }
    coap_msg_destroy(&m);
}

/* ---------------------------------------------------------------- option lists and copies (M03) */
static void expect_list(coap_msg_t *m, rmsg_t *r, const char *when)
{
    unsigned k = 0; coap_msg_op_t *op;
    for (op = coap_msg_get_first_op(m); op; op = op->next, k++) {
        mc_check(k < r->nop, "%s: too many options", when);
        mc_check(op->num == r->op[k].num, "%s: position %u holds option %u, expected %u", when, k, op->num, r->op[k].num);
        mc_check(op->len == r->op[k].len && memcmp(op->val, r->op[k].val, op->len) == 0, "%s: position %u (option %u) holds another option's value", when, k, op->num);
    }
    mc_check(k == r->nop, "%s: %u options, expected %u", when, k, r->nop);
}
static void x_oplist(void)
{
    static const unsigned nums[] = {1, 4, 11, 300, 0};
    unsigned i, n, depth = mc_tier ? 7 : 6, syms = mc_tier ? 5 : 4; rmsg_t r, s; coap_msg_t m, c; int ret;
    memset(&r, 0, sizeof(r)); memset(&s, 0, sizeof(s));
    coap_msg_create(&m);
    n = mc_choose(depth + 1, "insertions");
    for (i = 0; i < n; i++) {
        r.op[r.nop].num = nums[mc_choose(syms, "num")]; r.op[r.nop].len = (i + 1) % 3; r.op[r.nop].val = vals + 2 * i;
        ret = coap_msg_add_op(&m, r.op[r.nop].num, r.op[r.nop].len, (const char *)r.op[r.nop].val);
        mc_check(ret == 0, "add_op failed");
        r.nop++;
        s = r; stable_sort(&s);
        expect_list(&m, &s, "after insertion");
    }
    {   uint64_t h = 0; for (i = 0; i < s.nop; i++) h = mc_hash_u(mc_hash_u(h, s.op[i].num), s.op[i].val - vals); mc_state(mc_hash_u(h, n)); }
    /* copy is equal and independent of its source */
    coap_msg_set_type(&m, COAP_MSG_NON); coap_msg_set_code(&m, 5, 3); coap_msg_set_msg_id(&m, 0xfedc); coap_msg_set_token(&m, (char *)vals + 40, 8);
    coap_msg_set_payload(&m, (char *)vals + 60, 9);
    coap_msg_create(&c);
    ret = coap_msg_copy(&c, &m);
    mc_check(ret == 0, "copy failed");
    if (mc_choose(2, "drop source")) { coap_msg_destroy(&m); memset(&m, 0xEE, sizeof(m)); }
    else {
        coap_msg_op_t *op; for (op = coap_msg_get_first_op(&m); op; op = op->next) memset(op->val, 0, op->len);
        memset(m.payload, 0, m.payload_len); memset(m.token, 0, 8);
        coap_msg_add_op(&m, 4, 1, "z"); coap_msg_set_payload(&m, "q", 1);
        coap_msg_destroy(&m);
    }
    expect_list(&c, &s, "copy");
    mc_check(c.ver == 1 && c.type == COAP_MSG_NON && c.code_class == 5 && c.code_detail == 3 && c.msg_id == 0xfedc && c.token_len == 8 && !memcmp(c.token, vals + 40, 8)
             && c.payload_len == 9 && !memcmp(c.payload, vals + 60, 9), "copy differs from its source");
    switch (mc_choose(3, "payload op")) {
    case 0: coap_msg_clear_payload(&c); mc_check(c.payload_len == 0, "payload still there after clear"); break;
    case 1: coap_msg_set_payload(&c, "ab", 2); mc_check(c.payload_len == 2 && !memcmp(c.payload, "ab", 2), "payload not replaced"); break;
    case 2: coap_msg_reset(&c); mc_check(!c.op_list.first && !c.payload_len && c.ver == 1 && !c.msg_id && !c.token_len, "reset left data behind");
        ret = coap_msg_add_op(&c, 3, 1, "x"); mc_check(ret == 0 && c.op_list.first && c.op_list.first->num == 3 && !c.op_list.first->next, "option list unusable after reset"); break;
    }
    coap_msg_destroy(&c);
    pool_expect(0, 0, 0, "after destroy");
}

static void x_copy(void)
{
    static const unsigned nums[] = {0, 5, 11, 27, 2050}, lens[] = {0, 1, 3, 15, 64, 300}, pls[] = {0, 1, 16, 1100}, ids[] = {0, 1, 255, 256, 32768, 65535};
    unsigned i, n, mid, tkl, type, cls, det, pll; rmsg_t s; coap_msg_t m, c; int ret, again;
    memset(&s, 0, sizeof(s));
    switch (mc_choose(2, "what varies")) {
    case 0: type = mc_choose(4, "type"); cls = mc_choose(8, "class"); det = mc_choose(32, "detail"); mid = ids[mc_choose(6, "id")]; tkl = mc_choose(9, "token length"); pll = 5; n = 1; break;
    default: type = 0; cls = 0; det = 2; mid = 77; tkl = 3; pll = pls[mc_choose(4, "payload")]; n = mc_choose(mc_tier ? 4 : 3, "options"); break;
    }
    coap_msg_create(&m); coap_msg_create(&c);
    for (i = 0; i < n; i++) {
        s.op[i].num = n == 1 ? nums[2] : nums[mc_choose(5, "num")]; s.op[i].len = lens[mc_choose(6, "length")]; s.op[i].val = vals + 7 * i; s.nop++;
        mc_check(coap_msg_add_op(&m, s.op[i].num, s.op[i].len, (const char *)s.op[i].val) == 0, "add_op failed");
    }
    stable_sort(&s);
    mc_check(coap_msg_set_type(&m, type) == 0 && coap_msg_set_code(&m, cls, det) == 0 && coap_msg_set_msg_id(&m, mid) == 0 && coap_msg_set_token(&m, (char *)vals + 40, tkl) == 0
             && coap_msg_set_payload(&m, (char *)vals + 60, pll) == 0, "setter refused a valid value");
    again = mc_choose(2, "destination used before");
    if (again) { coap_msg_add_op(&c, 1, 2, "ww"); coap_msg_set_payload(&c, "old", 3); coap_msg_set_token(&c, "tttttttt", 8); coap_msg_reset(&c); }
    ret = coap_msg_copy(&c, &m);
    mc_check(ret == 0, "copy failed");
    coap_msg_destroy(&m);
    expect_list(&c, &s, "copy");
    mc_check(coap_msg_get_ver(&c) == 1 && coap_msg_get_type(&c) == type && coap_msg_get_code_class(&c) == cls && coap_msg_get_code_detail(&c) == det && coap_msg_get_msg_id(&c) == mid, "header of the copy differs from its source");
    mc_check(coap_msg_get_token_len(&c) == tkl && !memcmp(coap_msg_get_token(&c), vals + 40, tkl), "token of the copy differs from its source");
    mc_check(coap_msg_get_payload_len(&c) == pll && (!pll || !memcmp(coap_msg_get_payload(&c), vals + 60, pll)), "payload of the copy differs from its source");
    mc_state(mc_hash_u(mc_hash_u(mc_hash_u(0, type * 256 + cls * 32 + det), mid * 16 + tkl), pll * 8 + n));
    coap_msg_destroy(&c);
    pool_expect(0, 0, 0, "after destroy");
}

/* ---------------------------------------------------------------- critical / unsafe options (M04) */
static void x_classify_one(void)
{
    unsigned num, got; coap_msg_t m;
    num = mc_choose(257, "high") * 256 + mc_choose(256, "low");
    mc_check(coap_msg_op_num_is_recognized(num) == ref_recognised(num), "option %u recognised wrongly", num);
    coap_msg_create(&m); coap_msg_set_code(&m, 0, 1);
    mc_check(coap_msg_add_op(&m, num, 1, "x") == 0, "add");
    got = coap_msg_check_critical_ops(&m);
    mc_check(got == (((num & 1) && !ref_recognised(num)) ? num : 0), "option %u: critical check says %u", num, got);
    got = coap_msg_check_unsafe_ops(&m);
    mc_check(got == (((num & 2) && !ref_recognised(num)) ? num : 0), "option %u: unsafe check says %u", num, got);
    if (got) mc_state(num);
    coap_msg_destroy(&m);
}
static void x_classify_list(void)
{
    static const unsigned nums[] = {0, 1, 2, 6, 9, 10, 11, 12, 13, 23, 27, 29, 258, 259, 65001};
    unsigned i, n, k, num, got, crit = 0, uns = 0, c[5], u[5], nc = 0, nu = 0; coap_msg_t m;
    coap_msg_create(&m);
    n = mc_choose(mc_tier ? 6 : 5, "options");
    for (i = 0; i < n; i++) {
        num = nums[mc_choose(15, "num")];
        mc_check(coap_msg_add_op(&m, num, i & 1, "y") == 0, "add");
        if (!ref_recognised(num)) { if (num & 1) c[nc++] = num; if (num & 2) u[nu++] = num; }
    }
    got = coap_msg_check_critical_ops(&m);
    for (k = 0; k < nc; k++) if (c[k] == got) crit = 1;
    mc_check(nc ? crit : got == 0, "critical check returned %u with %u unrecognised critical options present", got, nc);
    got = coap_msg_check_unsafe_ops(&m);
    for (k = 0; k < nu; k++) if (u[k] == got) uns = 1;
    mc_check(nu ? uns : got == 0, "unsafe check returned %u with %u unrecognised unsafe options present", got, nu);
    mc_count(nc ? "critical found" : "critical none"); mc_count(nu ? "unsafe found" : "unsafe none");
    mc_state(mc_hash_u(mc_hash_u(mc_hash_u(0, nc), nu), n));
    coap_msg_destroy(&m);
}

/* ---------------------------------------------------------------- Block options (M05) */
static void x_block_parse(void)
{
    unsigned num = 7, more = 7, size = 7, i, v = 0, len; int ret; char *b; unsigned char in[8];
    len = mc_choose(6, "len");
    memset(in, 0, sizeof(in));
    for (i = 0; i < len; i++) {
        if (len <= 2 || (len == 3 && (i == 2 || mc_tier))) in[i] = mc_choose(256, "byte %u", i);
        else if (len == 3) { static const unsigned char s[] = {0, 1, 2, 0x0f, 0x10, 0x7f, 0x80, 0x81, 0xf0, 0xff}; in[i] = i == 0 ? mc_choose(256, "b0") : s[mc_choose(10, "byte")]; }
        else { static const unsigned char s[] = {0, 1, 0x86, 0xff}; in[i] = s[mc_choose(4, "byte")]; }
    }
    b = arena + ARENA - len; memcpy(b, in, len);
    for (i = 0; i < len && i < 3; i++) v = (v << 8) | in[i];
    ret = coap_msg_op_parse_block_val(&num, &more, &size, b, len);
    if (len > 3) mc_check(ret < 0, "%u-byte Block value accepted", len);
    else if ((v & 7) == 7) mc_check(ret < 0, "reserved block size exponent 7 accepted");
    else {
        mc_check(ret == 0, "Block value of %u bytes (%06x) rejected: %d", len, v, ret);
        mc_check(num == v >> 4 && more == ((v >> 3) & 1) && size == 16u << (v & 7), "Block value %06x decoded as num %u more %u size %u", v, num, more, size);
        mc_state(mc_hash_u(len, v));
    }
    mc_count(ret == 0 ? "decoded" : "refused");
}
static void x_block_format(void)
{
    static const unsigned sizes[] = {16, 32, 64, 128, 256, 512, 1024, 0, 1, 8, 15, 17, 48, 2048, 4096, 0x10010};
    unsigned len, num, more, size, szx, n2 = 9, m2 = 9, s2 = 9, v = 0, i; int ret; char *b;
    len = mc_choose(5, "len");
    size = sizes[mc_choose(16, "size")];
    more = mc_choose(3, "more") * 8;
    switch (mc_choose(3, "range")) {
    case 0: num = mc_choose(mc_tier ? 0x1102 : 300, "num"); break;
    case 1: num = 0xffe + mc_choose(4, "num"); break;
    default: { static const unsigned f[] = {0x1234, 0x8000, 0xfff0, 0xffff, 0x10000, 0x7ffff, 0x80000, 0xffffe, 0xfffff, 0x100000, 0x100001, 0x1000000, 0x80000000u, 0xffffffffu}; num = f[mc_choose(14, "num")]; }
    }
    b = arena + ARENA - len; memset(b, 0x33, len);
    ret = coap_msg_op_format_block_val(b, len, num, more, size);
    for (szx = 0; szx < 7 && size != 16u << szx; szx++) ;
    mc_check(coap_msg_op_calc_block_szx(size) == (szx < 7 ? (int)szx : -EINVAL) || (szx == 7 && coap_msg_op_calc_block_szx(size) < 0), "size exponent of %u wrong", size);
    if (szx == 7 || len == 0 || len > 3 || num >= (1u << (8 * len - 4)) ) { mc_check(ret < 0, "unrepresentable Block value (len %u num %u size %u) encoded: %d", len, num, size, ret); mc_count("refused"); return; }
    mc_check(ret == (int)len, "Block value (len %u num %u more %u size %u) refused: %d", len, num, more, size, ret);
    for (i = 0; i < len; i++) v = (v << 8) | (unsigned char)b[i];
    mc_check(v == (num << 4 | (more ? 8 : 0) | szx), "Block value for num %u more %u size %u encoded as %x", num, more, size, v);
    ret = coap_msg_op_parse_block_val(&n2, &m2, &s2, b, len);
    mc_check(ret == 0 && n2 == num && m2 == !!more && s2 == size, "Block value does not survive a round trip");
    mc_count("encoded"); mc_state(mc_hash_u(len, v));
}
static void x_block_op(void)           /* the block option is found in any option list, and only the asked-for kind */
{
    static const unsigned nums[] = {23, 27, 11, 28, 60};
    unsigned i, n, k, num = 9, more = 9, size = 9; coap_msg_t m; int ret, type; int want = -1;
    unsigned v[4], lens[4], t[4];
    coap_msg_create(&m);
    n = mc_choose(4, "options"); type = mc_choose(2, "kind") ? COAP_MSG_BLOCK1 : COAP_MSG_BLOCK2;
    for (i = 0; i < n; i++) {
        static const unsigned vs[] = {0, 0x0e, 0x16, 0x1234, 0xabcd5e, 0x17};
        static const unsigned ls[] = {0, 1, 1, 2, 3, 1};
        char b[3]; unsigned j;
        t[i] = nums[mc_choose(5, "num")]; k = mc_choose(6, "value"); v[i] = vs[k]; lens[i] = ls[k];
        for (j = 0; j < lens[i]; j++) b[j] = v[i] >> (8 * (lens[i] - 1 - j));
        mc_check(coap_msg_add_op(&m, t[i], lens[i], b) == 0, "add");
        if ((int)t[i] == type && want < 0) want = i;
    }
    ret = coap_msg_parse_block_op(&num, &more, &size, &m, type);
    if (want < 0) { mc_check(ret == 1, "Block option reported in a message without one: %d", ret); mc_count("absent"); }
    else if ((v[want] & 7) == 7) { mc_check(ret < 0, "bad Block option accepted"); mc_count("bad"); }
    else { mc_check(ret == 0 && num == v[want] >> 4 && more == ((v[want] >> 3) & 1) && size == 16u << (v[want] & 7), "Block option decoded as num %u more %u size %u", num, more, size); mc_count("present"); }
    mc_state(mc_hash_u(mc_hash_u(want < 0 ? 99 : v[want], type), n));
    coap_msg_destroy(&m);
}

/* ---------------------------------------------------------------- URI path string (M09) */
static void x_uripath(void)
{
    unsigned i, n, max = mc_tier ? 5 : 4; coap_msg_t m; char want[128] = ""; size_t len, wl, got; char *b; unsigned k, any = 0;
    coap_msg_create(&m);
    n = mc_choose(max, "options");
    wl = 0;
    for (i = 0; i < n; i++) {
        unsigned num = mc_choose(4, "option"); unsigned l; char seg[8];
        static const unsigned nn[] = {11, 11, 8, 15}; static const unsigned ll[] = {0, 1, 3};
        l = ll[mc_choose(3, "segment length")];
        for (k = 0; k < l; k++) seg[k] = 'a' + 3 * i + k;
        if (num == 1) for (k = 0; k < l; k++) seg[k] = k == 1 ? '/' : (char)(0x80 + k);
        mc_check(coap_msg_add_op(&m, nn[num], l, seg) == 0, "add");
        if (nn[num] == 11) { any = 1; want[wl++] = '/'; memcpy(want + wl, seg, l); wl += l; }
    }
    if (!any) { want[0] = '/'; wl = 1; }
    len = mc_choose(20, "buffer length");
    b = arena + ARENA - len; memset(b, 0x77, len);
    got = coap_msg_uri_path_to_str(&m, b, len);
    if (len == 0) mc_check(got == 0, "returned %zu for an empty buffer", got);
    else {
        size_t c = wl < len - 1 ? wl : len - 1;
        if (!(len == 1 && !any)) mc_check(got == wl, "returned length %zu, path has %zu characters", got, wl);
        mc_check(memcmp(b, want, c) == 0 && b[c] == 0, "path string differs or is not terminated (buffer %zu)", len);
        mc_count(wl < len ? "complete" : "truncated");
        mc_state(mc_hash(mc_hash_u(len, wl), want, wl));
    }
    coap_msg_destroy(&m);
    pool_expect(0, 0, 0, "after destroy");
}

/* ---------------------------------------------------------------- exhaustion (M08) */
static unsigned char dgram[256];
static void x_exhaust(void)
{
    static const unsigned avail[] = {0, 1, 2, 3, 4, 5, 16};
    unsigned fs = avail[mc_choose(7, "free small buffers")], fm = avail[mc_choose(7, "free medium buffers")]; coap_msg_t m, c; int ret; unsigned i, n = 0;
    void *keep[16], *keepm[16]; unsigned nk = 0, nm = 0, us, um, ul, vs, vm, vl; int plenty = fs == 16 && fm == 16;
    for (i = 0; i < 16 - fs; i++) keep[nk++] = coap_mem_small_alloc(1);
    for (i = 0; i < 16 - fm; i++) keepm[nm++] = coap_mem_medium_alloc(1);
    coap_msg_create(&m);
    switch (mc_choose(4, "operation")) {
    case 0: {                          /* add options one by one, payload somewhere in between, then copy */
        unsigned at = mc_choose(4, "payload after"); int pl = 0; rmsg_t r; memset(&r, 0, sizeof(r));
        for (i = 0; i < 4; i++) {
            pool_used(&us, &um, &ul);
            if (i == at) {
                ret = coap_msg_set_payload(&m, "pay", 3); mc_check(ret == 0 || !plenty, "payload refused with memory available: %d", ret); pl = ret == 0;
                mc_check(ret == 0 ? (m.payload_len == 3 && !memcmp(m.payload, "pay", 3)) : m.payload_len == 0, "payload state wrong");
                pool_used(&vs, &vm, &vl); if (ret) mc_check(us == vs && um == vm, "refused payload leaked a buffer");
                us = vs; um = vm;
            }
            ret = coap_msg_add_op(&m, 4 - i, 1, (char *)vals + i);
            mc_check(ret == 0 || !plenty, "option refused with memory available: %d", ret);
            pool_used(&vs, &vm, &vl);
            if (ret) { mc_check(us == vs && um == vm, "refused option leaked a buffer (small %u -> %u, medium %u -> %u)", us, vs, um, vm); mc_count("option refused"); }
            else { r.op[r.nop].num = 4 - i; r.op[r.nop].len = 1; r.op[r.nop].val = vals + i; r.nop++; n++; stable_sort(&r); }
            expect_list(&m, &r, "under memory pressure");
        }
        pool_used(&us, &um, &ul);
        coap_msg_create(&c);
        ret = coap_msg_copy(&c, &m);
        mc_check(ret == 0 || !plenty, "copy refused with memory available: %d", ret);
        if (ret == 0) { expect_list(&c, &r, "copy under memory pressure"); mc_check(c.payload_len == (pl ? 3 : 0), "copied payload wrong"); }
        mc_count(ret == 0 ? "copied" : "copy refused");
        coap_msg_destroy(&c);
        pool_used(&vs, &vm, &vl);
        mc_check(us == vs && um == vm, "a (partial) copy leaked buffers (small %u -> %u, medium %u -> %u)", us, vs, um, vm);
        break; }
    case 1: {                          /* decode with limited memory */
        unsigned nop = mc_choose(5, "options"), pl = mc_choose(2, "payload"); size_t k = 0; ssize_t r; unsigned j = 0; coap_msg_op_t *op;
        dgram[k++] = 0x40; dgram[k++] = 2; dgram[k++] = 9; dgram[k++] = 9;
        for (i = 0; i < nop; i++) { dgram[k++] = 0x11; dgram[k++] = 'a' + i; }
        if (pl) { dgram[k++] = 0xff; dgram[k++] = 'p'; }
        r = coap_msg_parse(&m, (char *)dgram, k);
        mc_check(r == 0 || !plenty, "decode refused with memory available: %zd", r);
        if (r == 0) { for (op = m.op_list.first; op; op = op->next, j++) mc_check(op->num == j + 1 && op->len == 1 && op->val[0] == (char)('a' + j), "option damaged"); mc_check(j == nop && m.payload_len == pl, "partial message reported as decoded"); }
        mc_count(r == 0 ? "decoded" : "decode refused");
        break; }
    case 2: {                          /* values longer than a pool buffer are refused, nothing is lost */
        char *big = calloc(1, 5000); unsigned l = 1998 + mc_choose(5, "length");
        pool_used(&us, &um, &ul);
        ret = coap_msg_add_op(&m, 3, l, big);
        mc_check(ret ? (l > 2000 || !plenty) : l <= 2000, "add_op of %u bytes in 2000-byte buffers: %d", l, ret);
        pool_used(&vs, &vm, &vl);
        if (ret) mc_check(us == vs && um == vm, "refused long option leaked a buffer");
        coap_msg_reset(&m);
        ret = coap_msg_set_payload(&m, big, l);
        mc_check(ret ? (l > 2000 || !plenty) : l <= 2000, "payload of %u bytes in 2000-byte buffers: %d", l, ret);
        mc_count(ret == 0 ? "big ok" : "big refused");
        free(big);
        break; }
    case 3: {                          /* repeated failures do not eat the pool: whatever was free stays usable */
        unsigned k;
        for (k = 0; k < 20; k++) { if (coap_msg_add_op(&m, k, 1, "x") == 0) n++; else mc_count("option refused"); }
        coap_msg_destroy(&m); coap_msg_create(&m);
        for (k = 0, i = 0; k < 20; k++) if (coap_msg_add_op(&m, k, 1, "x") == 0) i++;
        mc_check(i == n, "only %u of %u options fit after a full release", i, n);
        break; }
    }
    mc_state(mc_hash_u(mc_hash_u(fs, fm), n));
    coap_msg_destroy(&m);
    pool_expect(nk, nm, 0, "after destroy");
    for (i = 0; i < nk; i++) coap_mem_small_free(keep[i]);
    for (i = 0; i < nm; i++) coap_mem_medium_free(keepm[i]);
    pool_expect(0, 0, 0, "at the end");
}

static void (*body)(void);
void mc_setup(void)
{
    static const struct { const char *n; void (*f)(void); int depth; } t[] = {
        {"decode-free", x_decode_free, 2}, {"decode-header", x_decode_header, 2}, {"decode-grammar", x_decode_grammar, 3}, {"decode-ext", x_decode_ext, 2}, {"decode-len", x_decode_len, 1}, {"decode-mutate", x_decode_mutate, 3},
        {"encode-header", x_encode_header, 3}, {"encode-ops", x_encode_ops, 3}, {"encode-range", x_encode_range, 2}, {"encode-payload", x_encode_payload, 1}, {"setters", x_setters, 1},
        {"oplist", x_oplist, 3}, {"copy", x_copy, 4}, {"classify-one", x_classify_one, 1}, {"classify-list", x_classify_list, 3},
        {"block-parse", x_block_parse, 2}, {"block-format", x_block_format, 3}, {"block-op", x_block_op, 3}, {"uripath", x_uripath, 3}, {"exhaust", x_exhaust, 3}};
    unsigned i;
    for (i = 0; i < sizeof(t) / sizeof(t[0]); i++) if (!strcmp(t[i].n, mc_part)) { body = t[i].f; mc_shard_depth(t[i].depth); }
    if (!body) mc_internal("unknown part %s", mc_part);
    arena = malloc(ARENA);
    for (i = 0; i < sizeof(vals); i++) vals[i] = (unsigned char)(i * 11 + (i >> 8) + 1);
    if (!strcmp(mc_part, "exhaust")) pool_init(16, 64, 16, 2000, 8, 16);
    else pool_init(32, 64, 40, 2000, 8, 16);
}
void mc_execute(void) { if (mc_dirty) pool_again(); body(); }
