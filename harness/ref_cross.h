/* which HTTP statuses a CoAP response code may become (RFC 8075) */
#ifndef REF_CROSS_H
#define REF_CROSS_H
static int http_status_ok(unsigned cls, unsigned det, int st)
{
    static const struct { unsigned c, d; int a, b, e; } t[] = {{2, 1, 201, 200, 204}, {2, 2, 200, 204, 200}, {2, 3, 304, 200, 304}, {2, 4, 200, 204, 200}, {2, 5, 200, 200, 200},
        {4, 0, 400, 400, 400}, {4, 1, 401, 403, 400}, {4, 2, 400, 500, 501}, {4, 3, 403, 403, 403}, {4, 4, 404, 404, 404}, {4, 5, 405, 400, 405}, {4, 6, 406, 406, 406}, {4, 12, 412, 412, 412}, {4, 13, 413, 413, 413}, {4, 15, 415, 415, 415},
        {5, 0, 500, 500, 500}, {5, 1, 501, 501, 501}, {5, 2, 502, 502, 502}, {5, 3, 503, 503, 503}, {5, 4, 504, 504, 504}, {5, 5, 501, 502, 501}};
    unsigned i;
    for (i = 0; i < sizeof(t) / sizeof(t[0]); i++) if (t[i].c == cls && t[i].d == det) return st == t[i].a || st == t[i].b || st == t[i].e;
    return st >= 100 && (unsigned)st / 100 == cls;          /* an unknown code may be mapped to its class */
}
static int known_code(unsigned c, unsigned d) { return (c == 2 && d >= 1 && d <= 5) || (c == 4 && (d <= 6 || d == 12 || d == 13 || d == 15)) || (c == 5 && d <= 5); }
#endif
