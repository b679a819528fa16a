/* Block-wise transfers driven by the client library (RFC 7959): the harness plays the server. */
static int bw_part(void) { return !strncmp(mc_part, "bw", 2); }
static unsigned bw_c1, bw_c2, bw_s1, bw_s2, bw_det; static int bw_ct, bw_resp_style, bw_final, bw_devs;
static unsigned char *bw_up, *bw_down; static size_t bw_uplen, bw_downlen, bw_cap;
/* server state */
static size_t up_next, down_next; static unsigned cur1, cur2; static int stage, bw_expect_end, bw_loose, bw_nreq, bw_code, bw_sent_code, bw_nob2; static unsigned bw_smid;
enum { ST_UP, ST_DOWN, ST_DONE };
enum { D_NONE, D_NUM1, D_NUM0, D_NOBLOCK, D_SZX7, D_LEN4, D_ERR408, D_ERR500, D_RST, D_BIGGER, D_SMALLER, D_ODDCODE, D_SHORT, D_LONG, D_EMPTY, D_BADOPT, D_ERR404, D_ERR405, D_ERR501, D_N };
static const char *dname[] = {"normal", "block number + 1", "block number 0", "no block option", "reserved block size", "4-byte block value", "4.08", "5.00", "reset", "larger block size", "smaller block size", "2.02", "short payload", "long payload", "empty payload", "unknown critical option", "4.04", "4.05", "5.01"};
typedef struct { int have, bad; unsigned num, more, size; } cblk_t;
static void cblk(const rmsg_t *m, unsigned opn, cblk_t *b)
{
    unsigned i, k, v = 0;
    memset(b, 0, sizeof(*b));
    for (i = 0; i < m->nop; i++) if (m->op[i].num == opn) {
        if (b->have || m->op[i].len > 3) { b->have = b->bad = 1; return; }
        b->have = 1;
        for (k = 0; k < m->op[i].len; k++) v = v << 8 | m->op[i].val[k];
        b->num = v >> 4; b->more = (v >> 3) & 1; b->size = 16u << (v & 7);
        if ((v & 7) == 7) b->bad = 1;
    }
}
static unsigned szx(unsigned s) { unsigned r = 0; while (s > 16) { s >>= 1; r++; } return r; }
static size_t put_blk(unsigned char *v, unsigned num, unsigned more, unsigned size, int dev)
{
    unsigned x = num << 4 | (more ? 8 : 0) | (dev == D_SZX7 ? 7 : szx(size)); size_t n = x > 0xffff ? 3 : x > 0xff ? 2 : x ? 1 : 0, i;
    if (dev == D_LEN4) n = 4;
    for (i = 0; i < n; i++) v[i] = x >> (8 * (n - 1 - i));
    return n;
}
static void bw_server(void)
{
    rmsg_t q, r; cblk_t b1, b2; unsigned char v1[4], v2[4], pl[2200]; int i, dev = 0, seen = 0; size_t off, n; unsigned sz, num, more;
    for (i = 0; i < nouts; i++) {
        mc_check(ref_decode(&q, outs[i].b, outs[i].n) == REF_OK, "the client sent a malformed message");
        if (q.type == 2 && q.cls == 0 && q.det == 0) continue;
        if (q.type == 3) continue;
        mc_check(q.cls == 0 && q.det, "the client sent something that is not a request");
        mc_check(!seen, "two requests at once");
        seen = 1; req_dg = outs[i];
    }
    nouts = 0;
    if (!seen && faulted) mc_prune();
    if (!seen) mc_fail("the client waits although its request was answered (last answer: %s)", dname[last_event]);
    ref_decode(&q, req_dg.b, req_dg.n);
    bw_nreq++;
    mc_check(!bw_expect_end, "the transfer continues although the server ended or broke it (%s)", dname[last_event]);
    mc_check(q.type == (bw_ct ? 1u : 0u) && q.det == bw_det, "request of type %u code 0.%02u", q.type, q.det);
    mc_check(q.nop >= 1 && q.op[0].num == 11 && q.op[0].len == 3 && !memcmp(q.op[0].val, "abc", 3), "the request lost the application's option");
    mc_check(q.nop >= 2 && q.op[1].num == 15 && q.op[1].len == 2 && !memcmp(q.op[1].val, "q1", 2), "the request lost the application's second option");
    cblk(&q, 27, &b1); cblk(&q, 23, &b2);
    mc_check(!b1.bad && !b2.bad, "malformed block option in the request");
    memset(&r, 0, sizeof(r));
    if (bw_devs) dev = mc_dev(D_N, "server deviates");
    if (dev) mc_log("server: %s", dname[dev]);
    last_event = dev;
    r.cls = 2; n = 0;
    mc_log("request: block1 %d %u/%u/%u, block2 %d %u/%u/%u, %zu bytes", b1.have, b1.num, b1.more, b1.size, b2.have, b2.num, b2.more, b2.size, q.pll);
    if (stage == ST_DONE) mc_fail("another request although the transfer was complete");
    if (stage == ST_UP) {
        mc_check(b1.have, "upload without a Block1 option");
        mc_check(b1.size <= cur1, "upload block of size %u although %u was agreed", b1.size, cur1);
        off = (size_t)b1.num * b1.size;
        if (up_next == 0 || bw_loose) cur1 = b1.size;
        mc_check(off == up_next, "upload block at offset %zu, expected %zu", off, up_next);
        n = bw_uplen - off < b1.size ? bw_uplen - off : b1.size;
        mc_check(q.pll == n && (n == 0 || !memcmp(q.pl, bw_up + off, n)), "upload block at offset %zu has the wrong content (%zu bytes, expected %zu)", off, q.pll, n);
        mc_check(b1.more == (off + n < bw_uplen), "more flag %u on the block at offset %zu of %zu", b1.more, off, bw_uplen);
        up_next = off + n;
        num = b1.num; sz = b1.size; more = b1.more;
        if (b1.num == 0 && bw_s1 < sz) { sz = bw_s1; }
        cur1 = sz; n = 0;
        r.det = b1.more ? 31 : bw_final;
        if (!b1.more) {
            stage = bw_downlen ? ST_DOWN : ST_DONE; down_next = 0; bw_code = bw_final;
            cur2 = b2.have ? b2.size : bw_c2;
            mc_check(b2.have || !bw_downlen, "the last upload request does not tell the server the block size for its response");
            if (b2.have) mc_check(b2.num == 0 && !b2.more && b2.size == bw_c2, "Block2 %u/%u/%u in the last upload request, the application asked for blocks of %u bytes", b2.num, b2.more, b2.size, bw_c2);
        }
        switch (dev) {
        case D_NUM1: num++; bw_expect_end = 1; break;
        case D_NUM0: if (num == 0) mc_prune(); num = 0; bw_expect_end = 1; break;
        case D_NOBLOCK: case D_SZX7: case D_LEN4: bw_expect_end = 1; break;
        case D_BIGGER: sz *= 2; if (sz > 1024) mc_prune(); bw_loose = 1; cur1 = b1.size; break;
        case D_SMALLER: if (sz == 16) mc_prune(); sz /= 2; if (num) { bw_loose = 1; cur1 = sz; } else cur1 = sz; break;
        case D_SHORT: r.det = 4; break;              /* final-looking code in the middle */
        case D_LONG: r.det = 31; break;              /* 2.31 at the end */
        case D_EMPTY: mc_prune();
        }
        if (dev != D_NOBLOCK) { r.op[r.nop].num = 27; r.op[r.nop].len = put_blk(v1, num, more, sz, dev); r.op[r.nop++].val = v1; }
        if (dev && dev != D_BIGGER && dev != D_SMALLER && dev != D_SHORT && dev != D_LONG) goto tail;
        if (stage != ST_DOWN) goto tail;
        off = 0; sz = cur2;
    } else {
        mc_check(b2.have || (bw_nreq == 1 && bw_cap == (size_t)-1), "follow-up request without a Block2 option");
        mc_check(!b1.have && !q.pll, "download request carries a payload or Block1 option");
        sz = b2.have ? b2.size : 1024; if (b2.have) mc_check(sz <= cur2, "block of size %u requested although %u was agreed", sz, cur2);
        off = b2.have ? (size_t)b2.num * b2.size : 0;
        mc_check(!b2.more, "more flag set in a Block2 request");
        if (b2.have && bw_nreq == 1 && stage == ST_DOWN) mc_check(b2.size == bw_c2 || bw_cap == (size_t)-1, "blocks of %u bytes requested, the application asked for %u", b2.size, bw_c2);
        mc_check(off == down_next, "block at offset %zu requested, expected %zu", off, down_next);
        r.det = bw_code;
    }
    /* the block of the response at offset off */
    if (off == 0 && bw_s2 < sz) sz = bw_s2;
    cur2 = sz; num = off / sz;
    n = bw_downlen - off < sz ? bw_downlen - off : sz;
    more = off + n < bw_downlen;
    memcpy(pl, bw_down + off, n);
    down_next = off + n;
    switch (dev) {
    case D_NUM1: num++; bw_expect_end = 1; break;
    case D_NUM0: if (num == 0) mc_prune(); num = 0; bw_expect_end = 1; break;
    case D_NOBLOCK: if (off == 0 && !more) { bw_nob2 = 1; break; } /* the whole body without a block option: may be taken or refused */ bw_expect_end = 1; break;
    case D_SZX7: case D_LEN4: bw_expect_end = 1; break;
    case D_BIGGER: sz *= 2; if (sz > 1024) mc_prune(); bw_loose = 1; break;
    case D_SMALLER: if (sz == 16 || num || stage == ST_UP) mc_prune(); sz /= 2; cur2 = sz; n = bw_downlen < sz ? bw_downlen : sz; more = n < bw_downlen; down_next = n; break;
    case D_SHORT: if (b1.have) break; if (!more) mc_prune(); n -= 1; bw_expect_end = 1; break;
    case D_LONG: if (b1.have) break; pl[n] = 'X'; if (n < sz) mc_prune(); n = sz + 1; bw_expect_end = 1; break;
    case D_EMPTY: if (!more) mc_prune(); n = 0; bw_expect_end = 1; break;
    }
    if (!more) stage = ST_DONE;
    if (dev != D_NOBLOCK) {
        unsigned j = r.nop; r.nop++;
        if (j) { r.op[1] = r.op[0]; j = 0; }
        r.op[j].num = 23; r.op[j].len = put_blk(v2, num, more, sz, b1.have ? 0 : dev); r.op[j].val = v2;
    }
    r.pl = pl; r.pll = n;
tail:
    if (dev == D_ERR408 || dev == D_ERR500 || dev >= D_ERR404) {
        static const unsigned char ec[] = {4 * 32 + 4, 4 * 32 + 5, 5 * 32 + 1}; unsigned code = dev == D_ERR408 ? 4 * 32 + 8 : dev == D_ERR500 ? 5 * 32 : ec[dev - D_ERR404];
        r.cls = code >> 5; r.det = code & 31; bw_expect_end = 2; r.pl = (const unsigned char *)"diag"; r.pll = 4; }
    if (dev == D_ODDCODE) { r.det = 2; bw_expect_end = 3; }
    if (dev == D_BADOPT) { unsigned j; for (j = r.nop; j > 0; j--) r.op[j] = r.op[j - 1]; r.op[0].num = 9; r.op[0].len = 0; r.op[0].val = v1; r.nop++; bw_expect_end = 1; }
    bw_sent_code = r.cls << 5 | r.det;
    r.tkl = q.tkl; memcpy(r.tok, q.tok, 8);
    r.type = bw_ct ? 1 : bw_resp_style == 0 ? 2 : bw_resp_style == 1 ? 0 : 1;
    r.mid = r.type == 2 ? q.mid : ++bw_smid;
    if (dev == D_RST) { memset(&r, 0, sizeof(r)); r.type = 3; r.mid = q.mid; bw_expect_end = 1; }
    inbox.n = ref_encode(&r, inbox.b); inbox_full = 1;
    mc_count(dev ? dname[dev] : "block");
    {   uint64_t h = mc_hash_u(9, stage * 32 + dev); h = mc_hash_u(h, up_next); h = mc_hash_u(h, down_next); h = mc_hash_u(h, cur1 * 4096 + cur2); mc_state(h); }
}
static const unsigned bsz[] = {16, 32, 64, 128, 256, 512, 1024};
static void bw_execute(void)
{
    static const size_t L[] = {1, 15, 16, 17, 32, 33, 48, 64, 65, 80};
    static unsigned char pat[70000]; static int init;
    coap_msg_t req, resp; ssize_t ret; size_t k; char *buf; int have = 0, r, capk = 0, faults = !strcmp(mc_part, "bw-faults");
    if (!init) { for (k = 0; k < sizeof(pat); k++) pat[k] = (unsigned char)(k * 7 + (k >> 8) * 31 + (k >> 4)); init = 1; }
    bw_mode = 1; bw_devs = 0; bw_ct = 0; bw_resp_style = 0; bw_final = 4; bw_smid = 0x4000; bw_loose = 0; bw_nob2 = 0; bw_expect_end = 0; bw_nreq = 0; bw_code = 5; bw_sent_code = 0; have_prev = 0;
    mc_set_dev_budget(mc_tier ? 2 : 1);
    bw_c1 = bw_c2 = bw_s1 = bw_s2 = 1024; bw_uplen = bw_downlen = 0;
    bw_up = pat; bw_down = pat + 1000;
    if (!strcmp(mc_part, "bw-up")) {
        bw_det = 2 + mc_choose(2, "method"); bw_c1 = bsz[mc_choose(3, "block1 size of the client")]; bw_s1 = bsz[mc_choose(3, "block1 size of the server")];
        bw_uplen = L[mc_choose(10, "body length")]; bw_resp_style = mc_choose(4, "response style"); if (bw_resp_style == 3) { bw_ct = 1; }
        bw_final = (int[]){4, 1, 31}[mc_choose(3, "final code")]; bw_devs = 1; if (bw_det == 3) mc_set_dev_budget(1);
    } else if (!strcmp(mc_part, "bw-down")) {
        bw_det = 1; bw_c2 = bsz[mc_choose(3, "block2 size of the client")]; bw_s2 = bsz[mc_choose(3, "block2 size of the server")];
        bw_downlen = L[mc_choose(10, "body length")]; bw_resp_style = mc_choose(4, "response style"); if (bw_resp_style == 3) bw_ct = 1;
        capk = mc_choose(4, "buffer"); have = mc_choose(2, "first response already received"); bw_devs = 1;
    } else if (!strcmp(mc_part, "bw-updown")) {
        bw_det = 2 + mc_choose(2, "method"); bw_c1 = bsz[mc_choose(2, "block1 size of the client")]; bw_s1 = bsz[mc_choose(2, "block1 size of the server")]; bw_c2 = bsz[mc_choose(3, "block2 size of the client")]; bw_s2 = bsz[mc_choose(3, "block2 size of the server")];
        bw_uplen = L[3 + mc_choose(7, "body length")]; bw_downlen = L[mc_choose(10, "response length")]; bw_final = (int[]){4, 1}[mc_choose(2, "final code")]; bw_devs = 1;
    } else if (!strcmp(mc_part, "bw-large")) {
        static const size_t LL[] = {16 * 16, 16 * 17 + 3, 1023, 1024, 1025, 2048, 3000};
        bw_det = 1 + mc_choose(3, "method");
        bw_c1 = bsz[mc_choose(7, "block1 size of the client")]; bw_s1 = bsz[mc_choose(7, "block1 size of the server")]; bw_c2 = bsz[mc_choose(7, "block2 size of the client")]; bw_s2 = bsz[mc_choose(7, "block2 size of the server")];
        if (bw_det != 1) { k = mc_choose(8, "body length"); bw_uplen = k < 7 ? LL[k] : mc_tier ? 66000 : 4100; }
        k = mc_choose(8, "response length"); bw_downlen = k < 7 ? LL[k] : mc_tier ? 66000 : 4100;
        if (bw_det != 1 && k != 2) { if (bw_c2 != 1024 || bw_s2 != 256) mc_prune(); }
    } else if (faults) {
        bw_det = 1 + mc_choose(2, "method"); bw_c1 = 32; bw_c2 = 16; bw_s1 = bsz[mc_choose(2, "block1 size of the server")];
        if (bw_det == 2) bw_uplen = 40; bw_downlen = 35; bw_resp_style = mc_choose(2, "response style");
    }
    bw_cap = bw_det == 1 ? (capk == 0 ? bw_downlen : capk == 1 ? bw_downlen - 1 : capk == 2 ? bw_downlen + 7 : 8) : bw_uplen;
    buf = malloc(bw_cap ? bw_cap : 1); memset(buf, 0xee, bw_cap);
    if (bw_det != 1) memcpy(buf, bw_up, bw_uplen);
    stage = bw_det == 1 ? ST_DOWN : ST_UP; up_next = down_next = 0; cur1 = bw_c1; cur2 = bw_c2;
    memset(&client, 0x55, sizeof(client));
    r = coap_client_create(&client, "h", "5683" CLIENT_ARGS);
    mc_check(r == 0, "coap_client_create fails: %d", r);
    sock_fd = fos_find(FOS_SOCK); timer_fd = fos_find(FOS_TIMER);
    coap_msg_create(&req); coap_msg_create(&resp);
    coap_msg_set_type(&req, bw_ct ? COAP_MSG_NON : COAP_MSG_CON); coap_msg_set_code(&req, 0, bw_det);
    coap_msg_add_op(&req, COAP_MSG_URI_PATH, 3, "abc"); coap_msg_add_op(&req, COAP_MSG_URI_QUERY, 2, "q1");
    in_exchange = 1;
    if (have) {                                   /* the application sent a plain GET and got the first block */
        size_t c = bw_cap; bw_cap = (size_t)-1;
        ret = coap_client_exchange(&client, &req, &resp);
        bw_cap = c;
        if (ret != 0) {
            mc_check(last_event == D_RST || last_event == D_BADOPT, "exchange fails: %zd", ret);
            goto out;
        }
        if (cur2 > bw_c2) { cur2 = bw_c2; bw_loose = 1; }   /* the first block was larger than what is asked for here: may be refused */
    }
    faults_on = faults; faulted = 0;
    ret = coap_client_exchange_blockwise(&client, &req, &resp, bw_c1, bw_c2, buf, bw_cap, have);
    faults_on = 0;
    mc_log("blockwise exchange returns %zd after %d requests", ret, bw_nreq);
    if (ret < 0) {
        mc_check(bw_expect_end == 1 || bw_expect_end == 3 || bw_loose || bw_nob2 || faulted || bw_cap < bw_downlen, "transfer fails with %zd although the server behaved", ret);
        if (!faulted && bw_cap < bw_downlen && !bw_expect_end && !bw_loose && !bw_nob2) { mc_check(ret == -ENOSPC, "body too long for the buffer reported as %zd", ret); mc_count("no space"); }
        mc_count("error");
    } else {
        mc_check(bw_expect_end != 1 || faulted, "transfer reports success (%zd) although the server's answers were unusable (%s)", ret, dname[last_event]);
        mc_check((int)(coap_msg_get_code_class(&resp) << 5 | coap_msg_get_code_detail(&resp)) == bw_sent_code, "response code %u.%02u returned, %d.%02d received", coap_msg_get_code_class(&resp), coap_msg_get_code_detail(&resp), bw_sent_code >> 5, bw_sent_code & 31);
        if (bw_expect_end == 2) { mc_check(ret == 0 && coap_msg_get_payload_len(&resp) == 4 && !memcmp(coap_msg_get_payload(&resp), "diag", 4), "error response not passed on"); mc_count("error response"); }
        else if (bw_expect_end == 3) mc_count("odd code");
        else {
            mc_check(bw_det == 1 || up_next == bw_uplen, "success after %zu of %zu bytes were uploaded", up_next, bw_uplen);
            mc_check(stage == ST_DONE, "success although the response body is incomplete");
            mc_check((size_t)ret == bw_downlen, "%zd bytes reported, the body has %zu", ret, bw_downlen);
            mc_check(!memcmp(buf, bw_down, bw_downlen), "the body received is not the body sent");
            mc_count("complete");
        }
    }
out:
    in_exchange = 0;
    coap_msg_destroy(&req); coap_msg_destroy(&resp);
    pool_expect(0, 0, 0, "after the block-wise exchange");
    coap_client_destroy(&client);
    mc_check(fos_open_count() == 0, "descriptors left open");
    pool_expect(0, 0, 0, "after the client was destroyed");
    free(buf);
}
