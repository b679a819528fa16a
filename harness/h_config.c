/* Configuration parser and proxy parameters. */
#define _GNU_SOURCE
#include "mc.h"
#include "nofault.h"
#include "config.h"
#include "param.h"
#include <stdio.h>
#include <ctype.h>
#include <unistd.h>
#include <fcntl.h>
typedef struct { char sec[80], name[80], val[200]; } ent_t;
static ent_t E[64]; static int ne;
static void eset(const char *s, const char *n, const char *v) { int i; for (i = 0; i < ne; i++) if (!strcmp(E[i].sec, s) && !strcmp(E[i].name, n)) break; if (i == ne) ne++; strcpy(E[i].sec, s); strcpy(E[i].name, n); strcpy(E[i].val, v); }
/* reference: 0 ok, otherwise an error; *line is the line of the offending token; *odd: behaviour that is not specified */
enum { T_EOF, T_EOL, T_EQ, T_LB, T_RB, T_ID, T_NUM, T_STR, T_BAD };
static const char *rp; static int rline, tline, todd; static char ttext[200];
static int tok(void)
{
    int n = 0;
    while (*rp && *rp != '\n' && isspace((unsigned char)*rp)) rp++;
    tline = rline;
    if (*rp == ';') while (*rp && *rp != '\n') rp++;
    if (!*rp) return T_EOF;
    if (*rp == '\n') { rp++; rline++; return T_EOL; }
    if (*rp == '=') { rp++; return T_EQ; } if (*rp == '[') { rp++; return T_LB; } if (*rp == ']') { rp++; return T_RB; }
    if ((*rp >= 'a' && *rp <= 'z') || (*rp >= 'A' && *rp <= 'Z')) { while ((*rp >= 'a' && *rp <= 'z') || (*rp >= 'A' && *rp <= 'Z') || (*rp >= '0' && *rp <= '9') || *rp == '_') ttext[n++] = *rp++; ttext[n] = 0; return T_ID; }
    if (*rp >= '0' && *rp <= '9') { while (*rp >= '0' && *rp <= '9') ttext[n++] = *rp++; ttext[n] = 0; return T_NUM; }
    if (*rp == '"') {
        rp++;
        while (1) {
            if (!*rp) return T_BAD;
            if (*rp == '\\') { ttext[n++] = *rp++; if (!*rp) return T_BAD; if (*rp == '\\') todd = 1; if (*rp == '\n') rline++; ttext[n++] = *rp++; continue; }
            if (*rp == '\n') return T_BAD;
            if (*rp == '"') { rp++; break; }
            ttext[n++] = *rp++;
        }
        ttext[n] = 0; return T_STR;
    }
    return T_BAD;
}
static int ref(const char *s, int *line, int *odd)
{
    int t; char sec[80] = "", name[80];
    rp = s; rline = 1; todd = 0; ne = 0;
    while (1) {
        t = tok();
        if (t == T_EOF) { *odd = todd; return 0; }
        if (t == T_EOL) continue;
        if (t == T_ID) { strcpy(name, ttext); t = tok(); if (t != T_EQ) break; t = tok(); if (t != T_ID && t != T_NUM && t != T_STR) break; { char v[200]; strcpy(v, ttext); t = tok(); if (t != T_EOL && t != T_EOF) break; eset(sec, name, v); } }
        else if (t == T_LB) { t = tok(); if (t != T_ID) break; strcpy(name, ttext); t = tok(); if (t != T_RB) break; strcpy(sec, name); t = tok(); if (t != T_EOL && t != T_EOF) break; }
        else break;
        if (t == T_EOF) { *odd = todd; return 0; }
    }
    *line = tline; *odd = todd; return -1;
}
static void compare(config_t *c, const char *s)
{
    config_section_t *sc; config_entry_t *en; int i, n = 0;
    for (i = 0; i < ne; i++) { const char *v = config_get(c, E[i].sec, E[i].name); mc_check(v && !strcmp(v, E[i].val), "'%s': [%s] %s is '%s', not '%s'", s, E[i].sec, E[i].name, v ? v : "(none)", E[i].val); }
    for (sc = c->first; sc; sc = sc->next) for (en = sc->first; en; en = en->next) n++;
    mc_check(n == ne, "'%s': %d entries instead of %d", s, n, ne);
    mc_check(!config_get(c, "no", "no") && !config_get(c, "", "zz"), "an entry that does not exist");
}
static void parse_one(const char *s)
{
    config_t c; unsigned line = 99, col = 99; int r, rr, rl = 0, odd; char *x;
    mc_log("'%s'", s);
    heap_mark();
    x = exact(s, strlen(s) + 1);
    config_create(&c);
    nf_hit = 0; nf_on = !strcmp(mc_part, "nomem");
    r = config_parse(&c, x, &line, &col);
    nf_on = 0;
    rr = ref(s, &rl, &odd);
    if (nf_hit) mc_check(r == CONFIG_ENOMEM || (rr && r < 0), "memory runs out, but the result is %d", r);
    else if (!odd) {
        mc_check((r == 0) == (rr == 0), "'%s' is %s", s, r ? "refused" : "accepted");
        if (rr) mc_check((int)line == rl, "'%s': error reported in line %u instead of %d", s, line, rl);
        if (rr) mc_check(r == CONFIG_ELEXICAL || r == CONFIG_ESYNTAX, "error %d", r);
        if (!rr) compare(&c, s);
    }
    config_destroy(&c); free(x);
    heap_same("after destroying the configuration");
    mc_count(nf_hit ? "no memory" : odd ? "unspecified" : r ? "refused" : "accepted");
}
static void part_strings(void)
{
    static const char *p[] = {"a", "=", "\n", "[", "]", "\"", ";", " ", "7", "b_2", "\\", "\xe9", "\t", "-"}; char s[64] = ""; int i, n, max = mc_tier ? 7 : 6;
    n = max - mc_choose(max + 1, "number of pieces");
    for (i = 0; i < n; i++) strcat(s, p[mc_choose(n > 5 ? 11 : 14, "piece")]);
    parse_one(s);
}
static const char *stm[] = {"a=b", "a = 12 ; c", "[s1]", "[s2] ;x", "bb=\"q ;[=]\"", "a=\"\"", "", "; only", "c=\"x\\\"y\"", "a=xyz_9", "  [s1]\t", "\ta=1", "a=b c", "[s1", "=", "a=\"q", "1=2", "d=\"p\\\nq\"", "e=-1", "ab=2", "[s]", "[s12]"};
static void part_lines(void)
{
    char s[300] = ""; int i, n = mc_tier ? 4 : 3;
    for (i = 0; i < n; i++) { strcat(s, stm[mc_choose(22, "line")]); if (i < n - 1) strcat(s, "\n"); }
    if (mc_choose(2, "final newline")) strcat(s, "\n");
    parse_one(s);
}
static void part_bytes(void)
{   /* every byte in every place */
    static const char *f[] = {"a%sb=1", "a=%s", "[s%s]", "[%s]", "a=\"%s\"", "a=1%s\nb=2", "%sa=1", "%s", "a=b%s", "a%s=1\n", "a=\"x\\%sy\"", ";%s\na=1", "a=1;%s\n[s]", "[s]%s\na=1"}; char c[2] = "", s[64]; int k = mc_choose(14, "place"), i;
    for (i = 1; i < 256; i++) { c[0] = (char)i; sprintf(s, f[k], c); parse_one(s); }
}
static void part_names(void)
{   /* two entries whose sections or names are related; one of them set twice */
    static const char *w[] = {"a", "ab", "abc", "b", "A", "a_", "a1"}; char s[128]; int sa = mc_choose(8, "section of the first"), sb = mc_choose(8, "section of the second"), na = mc_choose(7, "name of the first"), nb = mc_choose(7, "name of the second"), tw = mc_choose(2, "twice"); *s = 0;
    if (sa < 7) sprintf(s, "[%s]\n", w[sa]); else if (sb == 7) ; else if (sb < 7) sa = 7;
    sprintf(s + strlen(s), "%s=1\n", w[na]); if (sb < 7) sprintf(s + strlen(s), "[%s]\n", w[sb]); sprintf(s + strlen(s), "%s=2\n", w[nb]);
    if (tw) { if (sa < 7) sprintf(s + strlen(s), "[%s]\n", w[sa]); sprintf(s + strlen(s), "%s=3", w[na]); }
    parse_one(s);
}
static void part_long(void)
{   /* names and values around the sizes at which the parser's strings grow */
    int n = 60 + mc_choose(16, "length") + (mc_choose(2, "second step") ? 64 : 0), k = mc_choose(4, "where"); char s[600], b[200];
    memset(b, 'x', n); b[n] = 0; if (n > 79 && (k == 0 || k == 1)) { mc_count("skipped"); return; }
    sprintf(s, k == 0 ? "[%s]\na=1" : k == 1 ? "%s=1\n" : k == 2 ? "a=\"%s\"" : "a=%s\n[t]\nu=v", b);
    parse_one(s);
}
static void part_nomem(void)
{
    char s[300] = ""; int i;
    mc_set_dev_budget(mc_tier ? 2 : 1);
    for (i = 0; i < 3; i++) { strcat(s, stm[mc_choose(12, "line")]); strcat(s, "\n"); }
    parse_one(s);
}
static void part_set(void)
{
    config_t c; int i, n = mc_tier ? 5 : 4; static const char *sv[] = {"", "s", "st"}, *nv[] = {"n", "nm"}, *vv[] = {"", "v", "a longer value"};
    heap_mark(); config_create(&c); ne = 0;
    mc_set_dev_budget(1);
    for (i = 0; i < n; i++) {
        const char *s = sv[mc_choose(3, "section")], *nm = nv[mc_choose(2, "name")], *v; int k = mc_choose(4, "value"), r;
        if (k == 3) { v = config_get(&c, s, nm); if (!v) v = "own"; } else v = vv[k];
        { char keep[64]; strcpy(keep, v); nf_hit = 0; nf_on = 1; r = config_set(&c, s, nm, v); nf_on = 0; if (nf_hit) mc_check(r == CONFIG_ENOMEM, "out of memory, but %d", r); else { mc_check(r == 0, "config_set returns %d", r); eset(s, nm, keep); } }
        compare(&c, "set");
    }
    config_destroy(&c); heap_same("after destroying the configuration"); mc_count("set");
}
static char fname[64];
static void part_param(void)
{   /* the proxy's parameters from a file */
    static const struct { const char *sec, *key, *def; } ks[] = {{"", "port", "4430"}, {"http_server", "key_file", "http_server_privkey.pem"}, {"http_server", "cert_file", "http_server_cert.pem"}, {"http_server", "trust_file", "http_server_trust.pem"}, {"coap_client", "key_file", "coap_client_privkey.pem"}, {"coap_client", "cert_file", "coap_client_cert.pem"}, {"coap_client", "trust_file", "coap_client_trust.pem"}};
    static const char *lv[] = {NULL, "error", "warning", "notice", "info", "debug", "bogus"}; static const int lx[] = {COAP_LOG_INFO, COAP_LOG_ERROR, COAP_LOG_WARN, COAP_LOG_NOTICE, COAP_LOG_INFO, COAP_LOG_DEBUG, -1};
    char s[800] = "", t[100]; int set[7], i, l, bad, fd, r; param_t p; char **f[] = {&p.port, &p.http_server_key_file_name, &p.http_server_cert_file_name, &p.http_server_trust_file_name, &p.coap_client_key_file_name, &p.coap_client_cert_file_name, &p.coap_client_trust_file_name};
    mc_set_dev_budget(1);
    for (i = 0; i < 7; i++) set[i] = mc_choose(2, "%s", ks[i].key);
    l = mc_choose(7, "log level"); bad = mc_choose(3, "file (0 good, 1 syntax error, 2 missing)");
    if (set[0]) strcat(s, "port = \"v0\"\n"); if (lv[l]) { sprintf(t, "log_level = \"%s\"\n", lv[l]); strcat(s, t); }
    strcat(s, "[http_server]\n"); for (i = 1; i < 4; i++) if (set[i]) { sprintf(t, "%s = \"v%d\"\n", ks[i].key, i); strcat(s, t); }
    strcat(s, "[coap_client]\n"); for (i = 4; i < 7; i++) if (set[i]) { sprintf(t, "%s = \"v%d\"", ks[i].key, i); strcat(s, t); if (i < 6 || bad) strcat(s, "\n"); }
    if (bad == 1) strcat(s, "= =\n");
    if (bad == 2) unlink(fname); else { fd = open(fname, O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0 || write(fd, s, strlen(s)) != (ssize_t)strlen(s)) mc_internal("cannot write %s", fname); close(fd); }
    heap_mark();
    nf_hit = 0; nf_on = 1; r = param_create(&p, fname); nf_on = 0;
    if (nf_hit || bad || lx[l] < 0) { mc_check(r < 0, "parameters are accepted from a bad file"); for (i = 0; i < 7; i++) mc_check(*f[i] == NULL, "a parameter is set although reading failed"); }
    else { mc_check(r == 0, "parameters are refused (%d)", r); for (i = 0; i < 7; i++) { sprintf(t, "v%d", i); mc_check(*f[i] && !strcmp(*f[i], set[i] ? t : ks[i].def), "%s.%s is '%s'", ks[i].sec, ks[i].key, *f[i] ? *f[i] : "NULL"); } mc_check((int)p.max_log_level == lx[l], "log level %d", p.max_log_level); param_destroy(&p); }
    heap_same("after reading the parameters");
    unlink(fname);
    mc_count(nf_hit ? "no memory" : r ? "refused" : "accepted");
}
void mc_setup(void) { sprintf(fname, "/dev/shm/h_config-%d", (int)getpid()); mc_shard_depth(!strcmp(mc_part, "param") ? 5 : 3); }
void mc_execute(void)
{
    nf_on = 0; nf_hit = 0; mc_set_dev_budget(0);
    if (!strcmp(mc_part, "strings")) part_strings();
    else if (!strcmp(mc_part, "lines")) part_lines();
    else if (!strcmp(mc_part, "bytes")) part_bytes();
    else if (!strcmp(mc_part, "names")) part_names();
    else if (!strcmp(mc_part, "long")) part_long();
    else if (!strcmp(mc_part, "nomem")) part_nomem();
    else if (!strcmp(mc_part, "set")) part_set();
    else if (!strcmp(mc_part, "param")) part_param();
    else mc_internal("unknown part %s", mc_part);
}
