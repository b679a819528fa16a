/* Block-wise transfers handled by the library on behalf of the application (RFC 7959), server side. */
#define BW_MAX 66100
static size_t bw_limit = 80, bw_total;                    /* capacity of a body buffer; length of the body to upload (bw-large) */
static unsigned bw_s1, bw_s2, bw_c1, bw_c2; static size_t bw_get_len, bw_resp_len; static int bw_rx_code;   /* rx code: 0x44 = 2.04 ... */
static int rx_calls; static unsigned char rx_body[BW_MAX]; static size_t rx_len; static unsigned rx_det;
static unsigned bw_next_mid; static dg_t bw_last; static int bw_have_last; static int bw_up;
static unsigned bw_seq; static int bw_multi, bw_first;
static unsigned char get_body[BW_MAX], put_resp[BW_MAX];

static int bw_rx(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp)
{
    rx_calls++;
    rx_len = coap_server_trans_get_body_end(t);
    mc_check(rx_len <= sizeof(rx_body), "the received body is %zu bytes long", rx_len);
    memcpy(rx_body, coap_server_trans_get_body(t), rx_len);
    rx_det = coap_msg_get_code_detail(req);
    if (bw_rx_code == 0) return -EIO;
    if (bw_resp_len && (bw_rx_code >> 5) == 2) { memcpy(coap_server_trans_get_body(t), put_resp, bw_resp_len); coap_server_trans_set_body_end(t, bw_resp_len); }
    else coap_server_trans_set_body_end(t, 0);
    return coap_msg_set_code(resp, bw_rx_code >> 5, bw_rx_code & 31);
}
static int bw_handler(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp, rmsg_t *m)
{
    if (!path_is(m, "b") && !path_is(m, "b/d")) return 1;
    if (m->det == 1) return coap_server_trans_handle_blockwise(t, req, resp, bw_s1, bw_s2, (char *)get_body, bw_get_len, NULL);
    return coap_server_trans_handle_blockwise(t, req, resp, bw_s1, bw_s2, (char *)put_resp, bw_limit, bw_rx);
}
typedef struct { int have, bad; unsigned num, more, size; } rblk_t;
static void get_blk(const rmsg_t *m, unsigned opn, rblk_t *b)
{
    unsigned i, k, v = 0;
    memset(b, 0, sizeof(*b));
    for (i = 0; i < m->nop; i++) if (m->op[i].num == opn) {
        b->have = 1;
        if (m->op[i].len > 3) { b->bad = 1; return; }
        for (k = 0; k < m->op[i].len; k++) v = v << 8 | m->op[i].val[k];
        b->num = v >> 4; b->more = (v >> 3) & 1; b->size = 16u << (v & 7);
        if ((v & 7) == 7) b->bad = 1;
        return;
    }
}
static int bw_active_model(mcl_t *c, const rmsg_t *in) { return c->bw || path_is(in, "b") || path_is(in, "b/d"); }
static void bw_uri(const rmsg_t *in, char *s) { unsigned i; s[0] = 0; for (i = 0; i < in->nop; i++) if (in->op[i].num == 11) { strcat(s, "/"); strncat(s, (const char *)in->op[i].val, in->op[i].len); } }
static void bw_end(mcl_t *c) { c->bw = 0; }

static void bw_model(mcl_t *c, int cl, const rmsg_t *in, int type, unsigned mid)
{
    rblk_t b1, b2, o1, o2; char uri[40]; rmsg_t o; dg_t *d; int started = 0, allow400 = 0, allow408 = 0, allow413 = 0, mism; size_t off;
    bw_uri(in, uri);
    if (!c->bw) {
        mc_check(nh == 1, "handler called %d times for a new block-wise request", nh);
        started = 1;
        c->bw = in->det == 1 ? 2 : 1; c->bw_det = in->det; strcpy(c->bw_uri, uri);
        c->b1size = bw_s1; c->b2size = bw_s2; c->b1next = c->b2next = 0; c->body_end = 0;
        if (in->det == 1) { memcpy(BODY(c), get_body, bw_get_len); c->body_end = bw_get_len; c->codefinal = 0x45; }
        if (in->det == 4) {                   /* method without block-wise support */
            d = next_out(cl, "response"); mc_check(ref_decode(&o, d->b, d->n) == REF_OK && o.cls == 5, "unsupported method not answered with a server error"); bw_end(c); goto hdr;
        }
    } else mc_check(nh == 0, "the application's handler is called in the middle of a block-wise transfer");
    d = next_out(cl, "response to a block-wise request");
    mc_check(ref_decode(&o, d->b, d->n) == REF_OK, "the response sent is malformed");
    get_blk(&o, 27, &o1); get_blk(&o, 23, &o2);
    get_blk(in, 27, &b1); get_blk(in, 23, &b2);
    mism = in->det != c->bw_det || strcmp(uri, c->bw_uri);
    if (b1.bad || b2.bad || mism) allow400 = 1;
    if (!b1.bad && b1.have && b1.size < c->b1size) c->b1size = b1.size;
    if (!b2.bad && b2.have && b2.size < c->b2size) c->b2size = b2.size;
    if (c->bw == 1) {
        off = b1.have ? (size_t)b1.num * b1.size : 0;
        if (!b1.bad && off != c->b1next) allow408 = 1;
        if (!in->pll) allow400 = 1;
        if (c->b1next + in->pll > bw_limit) allow413 = 1;
        if (allow400 || allow408 || allow413) goto error;
        if (b1.have && b1.more && in->pll != b1.size && o.cls == 4) { mc_count("odd block refused"); bw_end(c); goto hdr; }   /* a block that is not full but claims more: may be refused */
        memcpy(BODY(c) + c->b1next, in->pl, in->pll);
        c->b1next += in->pll; c->body_end = c->b1next;
        if (b1.more) {
            mc_check(rx_calls == 0, "the application is given the body before the last block arrived");
            mc_check(o.cls == 2 && o.det == 31, "a block in sequence was answered with %u.%02u instead of 2.31", o.cls, o.det);
            mc_check(o1.have && !o1.bad && o1.size == c->b1size && (size_t)o1.num * o1.size == off, "Block1 in the response (num %u, size %u) does not acknowledge offset %zu with size %u", o1.num, o1.size, off, c->b1size);
            mc_check(o.pll == 0, "2.31 response carries a payload");
            mc_count("block1 continue");
            goto hdr;
        }
        mc_check(rx_calls == 1, "the application was given the complete body %d times", rx_calls);
        mc_check(rx_len == c->body_end && memcmp(rx_body, BODY(c), rx_len) == 0, "the body given to the application (%zu bytes) is not the concatenation of the blocks (%zu bytes)", rx_len, c->body_end);
        mc_check(rx_det == c->bw_det, "wrong method given to the application");
        mc_count("block1 complete");
        if ((bw_rx_code >> 5) != 2) {
            mc_check(o.cls == (unsigned)bw_rx_code >> 5 && o.det == (bw_rx_code & 31), "final response %u.%02u is not the application's", o.cls, o.det);
            bw_end(c); goto hdr;
        }
        mc_check(o1.have && !o1.bad && (size_t)o1.num * o1.size == off, "Block1 in the final response does not acknowledge offset %zu", off);
        if (!bw_resp_len) {
            mc_check(o.cls * 32 + o.det == (unsigned)bw_rx_code, "final response %u.%02u is not the application's", o.cls, o.det);
            mc_check(o.pll == 0 && !o2.have, "response without a body carries one");
            bw_end(c); goto hdr;
        }
        memcpy(BODY(c), put_resp, bw_resp_len); c->body_end = bw_resp_len; c->bw = 2; c->codefinal = bw_rx_code; c->b2next = 0;
        off = b2.have ? (size_t)b2.num * b2.size : 0;
        if (off != 0) { allow400 = 1; goto error; }
    } else {
        off = b2.have ? (size_t)b2.num * b2.size : 0;
        mc_check(rx_calls == 0, "the application's receive function is called for a download");
        if (!b2.bad && off != c->b2next) allow400 = allow408 = 1;
        if (allow400 || allow408) goto error;
    }
    {   /* serve a block of the response body */
        size_t n = c->body_end - c->b2next; int must_more, may_more;
        if (n > c->b2size) n = c->b2size;
        must_more = c->b2next + c->b2size < c->body_end; may_more = c->b2next + c->b2size <= c->body_end;
        mc_check(o2.have && !o2.bad && o2.size == c->b2size && (size_t)o2.num * o2.size == c->b2next, "Block2 in the response (have %d num %u size %u) does not describe offset %zu with size %u", o2.have, o2.num, o2.size, c->b2next, c->b2size);
        mc_check(o.pll == n && (n == 0 || memcmp(o.pl, BODY(c) + c->b2next, n) == 0), "block at offset %zu: payload is not that part of the body (%zu bytes, expected %zu)", c->b2next, o.pll, n);
        mc_check(!(must_more && !o2.more), "last-block flag at offset %zu although %zu bytes remain", c->b2next, c->body_end - c->b2next - n);
        mc_check(!(o2.more && !may_more), "the last block claims that more follow");
        if (o2.more) mc_check(o.cls == 2, "block in sequence answered with %u.%02u", o.cls, o.det);
        else mc_check(o.cls * 32 + o.det == (unsigned)c->codefinal, "final block carries %u.%02u", o.cls, o.det);
        c->b2next += n;
        mc_count(o2.more ? "block2 more" : "block2 complete");
        if (!o2.more) bw_end(c);
        goto hdr;
    }
error:
    mc_check(rx_calls == 0 || c->bw == 2, "the application is given a body although the block was refused");
    mc_check(o.cls == 4 && ((allow400 && o.det == 0) || (allow408 && o.det == 8) || (allow413 && o.det == 13)), "unacceptable block answered with %u.%02u (4.00 %d, 4.08 %d, 4.13 %d acceptable)", o.cls, o.det, allow400, allow408, allow413);
    mc_count(o.det == 8 ? "4.08" : o.det == 13 ? "4.13" : "4.00");
    (void)started;
    bw_end(c);
hdr:
    mc_check((int)o.type == type, "response has type %u, expected %d", o.type, type);
    if (type == 2) mc_check(o.mid == mid, "piggybacked response has the wrong message ID"); else fresh_mid(o.mid);
    mc_check(o.tkl == in->tkl && memcmp(o.tok, in->tok, in->tkl) == 0, "response token differs from the request's token");
    {   unsigned s, m, l, i, act = 0; pool_used(&s, &m, &l); for (i = 0; i < NCL; i++) act += M[i].active; mc_check(l <= act, "%u body buffers in use for %u clients", l, act); }
    rx_calls = 0;
}
static int put_blk(unsigned char *v, unsigned num, unsigned more, unsigned size)
{
    unsigned szx = 0, x; while ((16u << szx) < size) szx++;
    x = num << 4 | more << 3 | szx;
    if (x == 0) return 0;
    if (x < 256) { v[0] = x; return 1; }
    if (x < 65536) { v[0] = x >> 8; v[1] = x; return 2; }
    v[0] = x >> 16; v[1] = x >> 8; v[2] = x; return 3;
}
static void bw_event(int cl)
{
    mcl_t *c = &M[cl]; rmsg_t m; static unsigned char v1[8], v2[8], pl[1100]; unsigned dev, num, size, det, more, k, npl; const char *p1 = "b", *p2 = NULL; int l1 = -1, l2 = -1, nbad = 0;
    unsigned csz = bw_c1, c2 = bw_c2, type;
    if (bw_multi) { cl = mc_choose(2, "client"); c = &M[cl]; }
    rx_calls = 0;
    inbox.cl = cl; inbox_full = 1;
    if (bw_up) {
        if (c->bw == 1) { if (c->b1size < csz) csz = c->b1size; }
        dev = c->bw == 2 ? mc_dev(12, "deviation while fetching the response body") : mc_dev(15, "upload deviation");
    } else dev = mc_dev(12, "download deviation");
    if (dev == 1 && bw_have_last && bw_last.cl == cl) { inbox = bw_last; return; }      /* duplicate */
    memset(&m, 0, sizeof(m));
    type = bw_first && dev == 0 ? 0 : 0;
    m.type = type; m.mid = bw_next_mid++; m.tkl = 2; m.tok[0] = cl; m.tok[1] = m.mid;
    if (!bw_up || c->bw == 2) {                        /* GET, or fetching the response body of an upload */
        det = c->bw == 2 ? c->bw_det : 1;
        if (c->bw == 2 && c->b2size < c2) c2 = c->b2size;
        size = c2; num = c->bw == 2 ? c->b2next / (size ? size : 16) : 0;
        switch (dev) {
        case 2: num++; break; case 3: if (num) num--; else num = 5; break; case 4: p1 = "x"; break; case 5: det = det == 3 ? 2 : 3; break; case 11: det = det == 1 ? 2 : 1; break; case 6: size = 16; num = c->bw == 2 ? c->b2next / 16 : 0; break;
        case 7: size = size == 64 ? 32 : 64; if (size >= 32) num = c->bw == 2 ? (c->b2next + size - 1) / size : 0; break; case 8: size = 0; break; case 9: l2 = 1; v2[0] = 7; break; case 10: p1 = "b"; p2 = "d"; break;
        }
        if (size && l2 < 0) l2 = put_blk(v2, num, 0, size);
        npl = 0;
    } else {
        det = c->bw == 1 ? c->bw_det : (unsigned)(bw_first ? mc_choose(2, "POST/PUT") + 2 : 3);
        size = csz; num = c->bw == 1 ? c->b1next / size : 0;
        if (bw_total) { size_t left = bw_total - (c->bw == 1 ? c->b1next : 0); more = left > size; npl = more ? size : left; }
        else {
            more = c->bw == 1 && c->b1next >= 96 ? 0 : mc_choose(3, "more / last full / last short");
            npl = more == 2 ? size / 2 + 1 : size; more = more == 0;
        }
        switch (dev) {
        case 2: num++; break; case 3: if (num) num--; else num = 2; break; case 4: num = 0; break; case 5: p1 = "x"; break; case 6: det ^= 1; break; case 7: det = 1; break; case 8: npl = 0; break;
        case 9: npl = 5; more = 1; break; case 10: size = 0; break; case 11: size = 16; num = c->bw == 1 ? c->b1next / 16 : 0; npl = npl > 16 ? 16 : npl; break;
        case 12: size = size == 64 ? 32 : 64; npl = more ? size : npl; num = c->bw == 1 ? (c->b1next + size - 1) / size : 0; break; case 13: l1 = 1; v1[0] = 0x0f; break; case 14: p2 = "d"; break;
        }
        if (size && l1 < 0) l1 = put_blk(v1, num, more, size);
        if (!more && c2) l2 = put_blk(v2, 0, 0, c2);
    }
    m.det = det;
    (void)nbad;
    m.op[m.nop].num = 11; m.op[m.nop].len = strlen(p1); m.op[m.nop++].val = (unsigned char *)p1;
    if (p2) { m.op[m.nop].num = 11; m.op[m.nop].len = 1; m.op[m.nop++].val = (unsigned char *)p2; }
    if (l2 >= 0) { m.op[m.nop].num = 23; m.op[m.nop].len = l2; m.op[m.nop++].val = v2; }
    if (l1 >= 0) { m.op[m.nop].num = 27; m.op[m.nop].len = l1; m.op[m.nop++].val = v1; }
    for (k = 0; k < npl; k++) pl[k] = (unsigned char)(bw_seq * 37 + k * 5 + 1);
    bw_seq++;
    if (npl) { m.pl = pl; m.pll = npl; }
    inbox.n = ref_encode(&m, inbox.b);
    bw_last = inbox; bw_have_last = 1;
    mc_log("%s", bw_up ? "upload request" : "download request");
}
static void bw_fill(size_t n) { size_t k; for (k = 0; k < n; k++) { get_body[k] = 200 - k + (k >> 8) * 3 + (k >> 16); put_resp[k] = 30 + k + (k >> 8) * 5 + (k >> 16); } }
static int bw_setup(void)
{
    unsigned k;
    bw_total = 0;
    bw_multi = 0; bw_first = 1; bw_rx_code = 0x44; bw_resp_len = 0; bw_get_len = 0; bw_s1 = bw_s2 = bw_c1 = bw_c2 = 16;
    if (!strcmp(mc_part, "bw-up")) {
        static const int rc[] = {0x44, 0x41, 0x80, 0};
        bw_up = 1; mc_set_dev_budget(mc_tier ? 2 : 1);
        bw_s1 = 16u << mc_choose(3, "server block1 size"); bw_c1 = 16u << mc_choose(3, "client block1 size"); bw_c2 = mc_choose(2, "client block2") * 16;
        k = mc_choose(5, "application result"); bw_rx_code = k < 4 ? rc[k] : 0x41; bw_resp_len = k == 4 ? 37 : 0;
        if (bw_rx_code == 0) bw_rx_code = 0xa0;
        return mc_tier ? 5 : 4;
    }
    if (!strcmp(mc_part, "bw-updown")) {
        static const int ln[] = {1, 15, 16, 17, 32, 33, 80};
        bw_up = 1; bw_first = 0; mc_set_dev_budget(0);
        bw_s1 = 16; bw_s2 = 16u << mc_choose(3, "server block2 size"); bw_c1 = 16u << mc_choose(2, "client block1 size"); bw_c2 = mc_choose(4, "client block2"); if (bw_c2) bw_c2 = 8u << bw_c2;
        bw_resp_len = ln[mc_choose(7, "response body")]; bw_rx_code = mc_choose(2, "response code") ? 0x41 : 0x44;
        return 8;
    }
    if (!strcmp(mc_part, "bw-fetch")) {                   /* a client that deviates while it fetches the response body of its upload */
        static const int ln[] = {17, 33, 48, 80};
        bw_up = 1; mc_set_dev_budget(mc_tier ? 2 : 1); bw_total = mc_choose(2, "upload") ? 20 : 16;
        bw_s2 = 16u << mc_choose(2, "server block2 size"); bw_c2 = 16u << mc_choose(2, "client block2 size");
        bw_resp_len = ln[mc_choose(4, "response body")]; bw_rx_code = mc_choose(2, "response code") ? 0x41 : 0x44;
        return mc_tier ? 9 : 7;
    }
    if (!strcmp(mc_part, "bw-down")) {
        static const int ln[] = {0, 1, 15, 16, 17, 31, 32, 33, 48, 64, 80};
        bw_up = 0; mc_set_dev_budget(mc_tier ? 3 : 2);
        bw_s2 = 16u << mc_choose(3, "server block2 size"); bw_c2 = mc_choose(4, "client block2"); if (bw_c2) bw_c2 = 8u << bw_c2;
        bw_get_len = ln[mc_choose(11, "body length")];
        return mc_tier ? 8 : 7;
    }
    if (!strcmp(mc_part, "bw-multi")) {
        bw_multi = 1; bw_up = mc_choose(2, "up"); mc_set_dev_budget(mc_tier ? 2 : 1); bw_get_len = 40; bw_first = 0; bw_resp_len = mc_choose(2, "resp") * 20;
        return mc_tier ? 6 : 5;
    }
    if (!strcmp(mc_part, "bw-large")) {                  /* whole transfers: every block size, block numbers of two (and three) bytes */
        static const unsigned ln[] = {17, 240, 256, 257, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 4130}; static const unsigned lt[] = {65535, 65536, 65537, 66000};
        unsigned big = mc_tier && mc_choose(2, "very long"), n = big ? 4 : 13;
        bw_first = 0; mc_set_dev_budget(0);
        bw_up = mc_choose(3, "download / upload / both");
        bw_s1 = 16u << (bw_up ? mc_choose(big ? 2 : 7, "server block1 size") : 0); bw_c1 = 16u << (bw_up ? mc_choose(big ? 2 : 7, "client block1 size") : 0);
        if (bw_up != 1) { bw_s2 = 16u << mc_choose(big ? 2 : 7, "server block2 size"); bw_c2 = mc_choose(big ? 3 : 8, "client block2"); if (bw_c2) bw_c2 = 8u << bw_c2; }
        k = mc_choose(n, "length"); k = big ? lt[k] : ln[k];
        if (bw_up == 0) bw_get_len = k; else bw_total = k;
        if (bw_up == 2) { if (!mc_tier && (bw_s1 != bw_c1 || bw_s2 != bw_c2)) mc_prune(); bw_resp_len = big ? 66000 : ln[mc_choose(13, "response body")]; }
        return big ? 9000 : 600;
    }
    mc_internal("unknown part %s", mc_part);
}
static void bw_reset(void)
{
    if (strncmp(mc_part, "bw", 2)) { bw_up = 1; bw_s1 = bw_s2 = bw_c1 = 16; bw_c2 = 16; bw_get_len = 40; bw_resp_len = 20; bw_rx_code = 0x44; bw_multi = 0; bw_first = 1; }
    bw_fill(128);
    bw_next_mid = 0x500; bw_have_last = 0; rx_calls = 0; bw_seq = 0;
}
