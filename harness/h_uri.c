/* The URI parser and generator of the proxy. */
#define _GNU_SOURCE
#include "mc.h"
#include "nofault.h"
#include "uri.h"
#include <stdio.h>
#include <errno.h>
#include <ctype.h>
#define L(n) void __wrap_coap_log_##n(const char *m, ...) { }
L(error) L(warn) L(notice) L(info) L(debug)

enum { SCHEME, USERINFO, HOST, PORT, PATH, QUERY, FRAGMENT, NF };
static const char *fname[NF] = {"scheme", "user-info", "host", "port", "path", "query", "fragment"};
typedef struct { int set; char v[128]; } field_t;
typedef struct { int verdict; field_t f[NF]; } ref_t;          /* verdict: 0 must be accepted, 1 must be refused, 2 either */
static char *get(uri_t *u, int i) { switch (i) { case SCHEME: return uri_get_scheme(u); case USERINFO: return uri_get_userinfo(u); case HOST: return uri_get_host(u); case PORT: return uri_get_port(u); case PATH: return uri_get_path(u); case QUERY: return uri_get_query(u); default: return uri_get_fragment(u); } }
static int set(uri_t *u, int i, const char *s) { switch (i) { case SCHEME: return uri_set_scheme(u, s); case USERINFO: return uri_set_userinfo(u, s); case HOST: return uri_set_host(u, s); case PORT: return uri_set_port(u, s); case PATH: return uri_set_path(u, s); case QUERY: return uri_set_query(u, s); default: return uri_set_fragment(u, s); } }
static int hexv(int c) { return isdigit(c) ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1; }
/* percent-decoding; worst verdict */
static int dec(field_t *f, const char *s, size_t n, const char *allowed)
{
    size_t i, k = 0; int v = 0;
    f->set = 1;
    for (i = 0; i < n; i++) {
        unsigned char c = s[i];
        if (c == '%') {
            int a = i + 1 < n ? hexv((unsigned char)s[i + 1]) : -1, b = i + 2 < n ? hexv((unsigned char)s[i + 2]) : -1;
            if (a < 0 || b < 0 || a * 16 + b == 0) return 1;
            f->v[k++] = (char)(a * 16 + b); i += 2;
        } else {
            if (c >= 128 || !(isalnum(c) || strchr("-._~!$&'()*+,;=", c) || strchr(allowed, c))) v = 2;
            f->v[k++] = (char)c;
        }
    }
    f->v[k] = 0;
    return v;
}
static void worse(ref_t *r, int v) { if (r->verdict == 1 || v == 0) return; if (v == 1 || r->verdict == 0) r->verdict = v; }
/* RFC 3986 appendix B, then section 3.2 */
static void ref_parse(ref_t *r, const char *s)
{
    const char *e, *a, *b, *h;
    memset(r, 0, sizeof(*r));
    e = s + strcspn(s, ":/?#");
    if (*e == ':') { if (e == s) worse(r, 2); else worse(r, dec(&r->f[SCHEME], s, e - s, "")); s = e + 1; }
    if (s[0] == '/' && s[1] == '/') {
        s += 2; e = s + strcspn(s, "/?#");
        a = memchr(s, '@', e - s);
        if (a) { worse(r, dec(&r->f[USERINFO], s, a - s, ":")); s = a + 1; if (memchr(s, '@', e - s)) worse(r, 2); }
        if (*s == '[' && s < e) {
            b = memchr(s, ']', e - s);
            if (!b) worse(r, 2);
            else { if (b > s + 1) worse(r, dec(&r->f[HOST], s + 1, b - s - 1, ":")); h = b + 1; if (h < e && *h != ':') worse(r, 2); else if (h < e) worse(r, dec(&r->f[PORT], h + 1, e - h - 1, "")); }
        } else {
            b = memchr(s, ':', e - s); h = b ? b : e;
            if (h > s) worse(r, dec(&r->f[HOST], s, h - s, ""));
            if (b) worse(r, dec(&r->f[PORT], b + 1, e - b - 1, ""));
        }
        s = e;
    }
    e = s + strcspn(s, "?#");
    if (e > s) worse(r, dec(&r->f[PATH], s, e - s, "/:@"));
    s = e;
    if (*s == '?') { e = s + strcspn(s, "#"); worse(r, dec(&r->f[QUERY], s + 1, e - s - 1, "/:@?")); s = e; }
    if (*s == '#') worse(r, dec(&r->f[FRAGMENT], s + 1, strlen(s + 1), "/:@?"));
}
static const char *nn(const char *s) { return s ? s : "(none)"; }
static int same(const char *a, const char *b) { return a == b || (a && b && !strcmp(a, b)); }
static int parse(uri_t *u, const char *s) { char *e = exact(s, strlen(s) + 1); int r = uri_parse(u, e); free(e); return r; }

static void generate_all(uri_t *u, const char *s, int sizes)
{
    char full[512]; size_t n, len, k; uri_t v; int i, r;
    memset(full, 0x5a, sizeof(full));
    n = uri_generate(u, full, sizeof(full));
    mc_check(n < sizeof(full) && strlen(full) == n, "generating a URI returns %zu for '%s'", n, full);
    for (k = 0; k < n; k++) mc_check((unsigned char)full[k] > 32 && (unsigned char)full[k] < 127, "a generated URI contains the byte 0x%02x", (unsigned char)full[k]);
    uri_create(&v);
    r = parse(&v, full);
    mc_check(r == 0, "the generated URI '%s' is not accepted (%d)", full, r);
    for (i = 0; i < NF; i++) mc_check(same(get(u, i), get(&v, i)), "'%s' has the %s '%s', but the generated URI '%s' has '%s'", s, fname[i], nn(get(u, i)), full, nn(get(&v, i)));
    uri_destroy(&v);
    {   /* an IPv6 address must stand in brackets for other readers too */
        const char *h = get(u, HOST); if (h && strchr(h, ':') && h[strspn(h, "0123456789abcdefABCDEF:.")] == 0) { char b[300]; snprintf(b, sizeof(b), "[%s]", h); mc_check(strstr(full, b) != NULL, "the IPv6 address '%s' becomes '%s'", h, full); }
    }
    if (!sizes) return;
    for (len = 0; len <= n + 1; len++) {
        char *out = __real_malloc(len ? len : 1); size_t q; memset(out, 0x5a, len ? len : 1);
        q = uri_generate(u, len ? out : out + 1, len);
        mc_check(q == n, "%zu returned for a buffer of %zu bytes, the URI has %zu", q, len, n);
        if (len) { mc_check(memchr(out, 0, len) != NULL, "no terminating null character in a buffer of %zu bytes", len); mc_check(!strncmp(out, full, strlen(out)), "the beginning of a URI that does not fit is wrong: '%s'", out); if (len > n) mc_check(!strcmp(out, full), "'%s' generated in a buffer of %zu bytes, '%s' in a larger one", out, len, full); }
        free(out);
    }
}
static void check_string(const char *s, int sizes)
{
    ref_t ref; uri_t u; int r, i;
    ref_parse(&ref, s);
    heap_mark();
    uri_create(&u);
    r = parse(&u, s);
    if (ref.verdict == 0) {
        mc_check(r == 0, "the URI '%s' is refused (%d)", s, r);
        for (i = 0; i < NF; i++) mc_check(same(get(&u, i), ref.f[i].set ? ref.f[i].v : NULL), "the %s of '%s' is '%s', not '%s'", fname[i], s, nn(get(&u, i)), ref.f[i].set ? ref.f[i].v : "(none)");
        mc_count("accepted");
    } else if (ref.verdict == 1) { mc_check(r < 0, "the malformed URI '%s' is accepted", s); mc_count("refused"); }
    else mc_count(r ? "unusual, refused" : "unusual, accepted");
    if (r == 0) generate_all(&u, s, sizes);
    if (r == 0 && sizes) {
        uri_t c; int other;
        uri_create(&c);
        if ((other = mc_choose(2, "copy over another URI"))) mc_check(parse(&c, "x://u@y:1/z?q#f") == 0, "parse");
        mc_check(uri_copy(&c, &u) == 0, "copying fails");
        uri_destroy(&u);
        for (i = 0; i < NF; i++) mc_check(ref.verdict || same(get(&c, i), ref.f[i].set ? ref.f[i].v : NULL), "the %s of a copy of '%s' is '%s'", fname[i], s, nn(get(&c, i)));
        uri_destroy(&c);
    }
    if (sizes) { mc_check(parse(&u, "x://u@y:1/z?q#f") == 0 && same(get(&u, HOST), "y"), "the structure cannot be used again"); }
    uri_destroy(&u);
    heap_same("after destroying the URI");
}
static void part_strings(void)
{
    static const char *pre[] = {"", "s:", "//", "s://", "s://h", "s://h/p"}, *tok[] = {"a", "5", ":", "/", "?", "#", "@", "[", "]", "%41", "%2F", "%3a", "%00", "%4", "%", " ", "\xe9", "&"};
    char s[128]; int n, i, max = mc_tier ? 6 : 5;
    strcpy(s, pre[mc_choose(6, "prefix")]);
    n = max - mc_choose(max + 1, "number of pieces");
    for (i = 0; i < n; i++) strcat(s, tok[mc_choose(18, "piece")]);
    check_string(s, 0);
}
static void part_grammar(void)
{
    static const char *sc[] = {"", "coap:", "COAPS:", "a%20b:"}, *ui[] = {"", "u@", "u:%40@", "@"}, *ho[] = {"", "h.org", "[::1]", "1.2.3.4", "%5Bh%3A"}, *po[] = {"", ":", ":5683", ":%38"},
        *pa[] = {"", "/", "/a/b", "//x", "/:@%2F%25%3F", "/a:b@c/"}, *qu[] = {"", "?", "?a=b&c", "?/?:@%23"}, *fr[] = {"", "#", "#f?/:@"};
    char s[160]; int au = mc_choose(2, "authority");
    strcpy(s, sc[mc_choose(4, "scheme")]);
    if (au) { strcat(s, "//"); strcat(s, ui[mc_choose(4, "user-info")]); strcat(s, ho[mc_choose(5, "host")]); strcat(s, po[mc_choose(4, "port")]); }
    strcat(s, pa[mc_choose(6, "path")]); strcat(s, qu[mc_choose(4, "query")]); strcat(s, fr[mc_choose(3, "fragment")]);
    check_string(s, 1);
    mc_state(mc_hash(3, s, strlen(s)));
}
/* histories of setters against a record of fields */
static void part_set(void)
{
    static const char *val[] = {"x", "%41b", "a/b?c#d@e:f", "", "bad%4", "%00"}; ref_t m; uri_t u; int i, n = mc_tier ? 5 : 4, k, j, r; char s[16] = "(setters)";
    memset(&m, 0, sizeof(m));
    heap_mark();
    uri_create(&u);
    for (i = 0; i < n; i++) {
        int w;
        k = mc_choose(NF + 1, "field"); if (k == NF) break;
        w = mc_choose(6, "value");
        r = set(&u, k, val[w]);
        if (w < 4) { field_t f; mc_check(r == 0, "setting the %s to '%s' fails (%d)", fname[k], val[w], r); memset(&f, 0, sizeof(f)); dec(&f, val[w], strlen(val[w]), ""); m.f[k].set = 1; sprintf(m.f[k].v, "%s%s", k == PATH && val[w][0] != '/' ? "/" : "", f.v); }
        else { mc_check(r < 0, "setting the %s to the malformed '%s' succeeds", fname[k], val[w]); m.f[k].set = 2; }
        for (j = 0; j < NF; j++) {
            if (m.f[j].set == 2) { m.f[j].set = 0; if (get(&u, j)) { m.f[j].set = 1; mc_check(strlen(get(&u, j)) < sizeof(m.f[j].v), "%s", fname[j]); strcpy(m.f[j].v, get(&u, j)); } continue; }
            mc_check(same(get(&u, j), m.f[j].set ? m.f[j].v : NULL), "after setting the %s the %s is '%s', not '%s'", fname[k], fname[j], nn(get(&u, j)), m.f[j].set ? m.f[j].v : "(none)");
        }
    }
    if ((!get(&u, HOST) || *get(&u, HOST)) && (!get(&u, SCHEME) || *get(&u, SCHEME))) generate_all(&u, s, 1);
    uri_destroy(&u);
    heap_same("after destroying the URI");
    mc_count("history");
}
/* every pair of bytes after a percent sign, in every component */
static void part_percent(void)
{
    static const char *fmt[] = {"s://%s@h/p", "s://h%s/p", "s://h/p%s", "s://h/p?q%s", "s://h/p#f%s", "s://h:5%s/p", "/%s"}; char e[8], s[64]; int k = mc_choose(7, "component"), a = 1 + mc_choose(255, "first byte"), b;
    for (b = 1; b < 256; b++) { e[0] = '%'; e[1] = (char)a; e[2] = (char)b; e[3] = 'z'; e[4] = 0; sprintf(s, fmt[k], e); check_string(s, 0); }
}
/* every byte at every place */
static void part_bytes(void)
{
    static const char *base[] = {"coap://u:v@h.org:56/a/b?c=d&e#f", "//[::1]:5/x", "a?b#c", "s:p/q"}; char s[64]; const char *t = base[mc_choose(4, "URI")]; int i = mc_choose((int)strlen(t) + 1, "place"), ins = mc_choose(2, "insert"), c;
    for (c = 1; c < 256; c++) { memcpy(s, t, i); s[i] = (char)c; if (t[i] || ins) strcpy(s + i + 1, t + i + (ins ? 0 : 1)); else s[i + 1] = 0; check_string(s, 0); }
}
static void part_nomem(void)
{
    static const char *s = "a%20b://u:1@h.org:5683/p/q?x=1&y#f"; uri_t u, c; int r, what = mc_choose(3, "operation"), i;
    mc_set_dev_budget(mc_tier ? 2 : 1);
    heap_mark();
    uri_create(&u); uri_create(&c);
    if (what == 0) {
        char *e = exact(s, strlen(s) + 1);
        if (mc_choose(2, "used before")) mc_check(parse(&u, "x://u@y:1/z?q#f") == 0, "parse");
        nf_on = 1; nf_hit = 0; r = uri_parse(&u, e); nf_on = 0; free(e);
        mc_check(nf_hit ? r == -ENOMEM : r == 0, "parsing returns %d %s", r, nf_hit ? "although memory ran out" : "");
    } else if (what == 1) {
        int full = mc_choose(2, "complete URI");
        mc_check(parse(&u, full ? s : "//h:1/p") == 0, "parse");
        if (mc_choose(2, "used before")) mc_check(parse(&c, "x://u@y:1/z?q#f") == 0, "parse");
        nf_on = 1; nf_hit = 0; r = uri_copy(&c, &u); nf_on = 0;
        mc_check(nf_hit ? r == -ENOMEM : r == 0, "copying returns %d %s", r, nf_hit ? "although memory ran out" : "");
        if (r == 0) for (i = 0; i < NF; i++) mc_check(same(get(&u, i), get(&c, i)), "the copied %s differs", fname[i]);
    } else {
        int k = mc_choose(NF, "field");
        mc_check(parse(&u, s) == 0, "parse");
        nf_on = 1; nf_hit = 0; r = set(&u, k, "/new"); nf_on = 0;
        mc_check(nf_hit ? r == -ENOMEM : r == 0, "setting a field returns %d", r);
        if (r == 0) mc_check(same(get(&u, k), "/new"), "the field was not set");
    }
    mc_count(nf_hit ? "failed" : "ok");
    uri_destroy(&u); uri_destroy(&c);
    heap_same("after destroying the URIs");
}
void mc_setup(void) { mc_shard_depth(4); heap_mark(); }
void mc_execute(void)
{
    nf_on = 0;
    if (!strcmp(mc_part, "strings")) part_strings();
    else if (!strcmp(mc_part, "grammar")) part_grammar();
    else if (!strcmp(mc_part, "set")) part_set();
    else if (!strcmp(mc_part, "percent")) part_percent();
    else if (!strcmp(mc_part, "bytes")) part_bytes();
    else if (!strcmp(mc_part, "nomem")) part_nomem();
    else mc_internal("unknown part %s", mc_part);
}
