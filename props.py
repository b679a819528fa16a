"""What each property's check builds and explores."""
LIBINC = ["lib/include"]
PROXYINC = ["lib/include", "proxy/common/include", "proxy/http_coap/include"]
VARIANTS = {
    "none": dict(include=[], sources=[], defs=[]),
    # CoAP library without DTLS
    "lib4": dict(include=LIBINC, sources=["lib/src/*.c"], defs=[]),
    "lib6": dict(include=LIBINC, sources=["lib/src/*.c"], defs=["-DCOAP_IP6"]),
}
# the whole proxy; the linker takes from the archive what a harness needs
PXY = ["lib/src/*.c", "proxy/common/src/*.c", "proxy/http_coap/src/*.c"]
VARIANTS["pxy"] = VARIANTS["con"] = VARIANTS["cfg"] = dict(include=PROXYINC, sources=PXY, exclude=["proxy.c"], defs=["-DCOAP_DTLS_EN", "-DCOAP_PROXY", "-DTLS_CLIENT_AUTH"], libs=["-lgnutls"])
VARIANTS["tls"] = dict(VARIANTS["pxy"])
VARIANTS["tlsna"] = dict(VARIANTS["pxy"], defs=["-DCOAP_DTLS_EN", "-DCOAP_PROXY", "-DSOCK_IP6"])
VARIANTS["mem"] = dict(include=LIBINC, sources=["lib/src/coap_mem.c"], defs=[])
VARIANTS["tlsc"] = dict(include=PROXYINC, sources=["lib/src/coap_mem.c", "proxy/common/src/tls.c", "proxy/common/src/util.c"], defs=["-DWITH_TLS"], libs=["-lgnutls"])
COMMON_WRAPS = ["coap_log_error", "coap_log_warn", "coap_log_notice", "coap_log_info", "coap_log_debug"]


def msg(part, quick, thorough=None, **kw):
    return dict(harness="h_msg.c", extra=["pool.c"], variant="lib4", part=part, bounds={"quick": quick, "thorough": thorough or quick}, **kw)


FOS_WRAPS = ["socket", "setsockopt", "bind", "connect", "fcntl", "close", "getaddrinfo", "freeaddrinfo", "timerfd_create", "timerfd_settime", "read",
             "time", "srand", "rand", "select", "sendto", "send", "recvfrom", "recv"]
ALLOC_WRAPS = ["coap_mem_small_alloc", "coap_mem_medium_alloc", "coap_mem_large_alloc"]


DTLS_WRAPS = ["gnutls_" + w for w in (
    "certificate_verify_peers2", "certificate_verify_peers3", "certificate_type_get", "x509_crt_init", "x509_crt_deinit", "certificate_get_peers", "x509_crt_import", "x509_crt_get_expiration_time", "x509_crt_get_activation_time", "x509_crt_check_hostname",
    "global_init", "global_deinit", "certificate_allocate_credentials", "certificate_free_credentials", "certificate_set_x509_trust_file", "certificate_set_x509_crl_file", "certificate_set_x509_key_file", "dh_params_init", "dh_params_generate2", "dh_params_deinit",
    "certificate_set_dh_params", "priority_init", "priority_deinit", "init", "deinit", "credentials_set", "priority_set", "certificate_server_set_request", "transport_set_ptr", "transport_set_pull_function", "transport_set_pull_timeout_function",
    "transport_set_push_function", "dtls_set_mtu", "dtls_set_timeouts", "dtls_get_timeout", "handshake", "record_recv", "record_check_pending", "record_send", "bye", "alert_get", "alert_get_name", "strerror_name", "kx_get", "cipher_get", "mac_get", "cipher_suite_get_name")]
VARIANTS["dtls4"] = dict(include=LIBINC, sources=["lib/src/*.c"], defs=["-DCOAP_DTLS_EN", "-DCOAP_CLIENT_AUTH"], libs=["-lgnutls"])
VARIANTS["dtls6"] = dict(VARIANTS["dtls4"], defs=["-DCOAP_DTLS_EN", "-DCOAP_IP6"])


def fd(variant):
    return (["fakedtls.c"], DTLS_WRAPS) if variant.startswith("dtls") else ([], [])


def srv(part, quick, thorough=None, variant="lib4", **kw):
    return dict(harness="h_server.c", extra=["pool.c", "fakeos.c"] + fd(variant)[0], variant=variant, part=part, wraps=FOS_WRAPS + ALLOC_WRAPS + fd(variant)[1],
                bounds={"quick": quick, "thorough": thorough or quick}, **kw)


def cli(part, quick, thorough=None, variant="lib4", **kw):
    return dict(harness="h_client.c", extra=["pool.c", "fakeos.c"] + fd(variant)[0], variant=variant, part=part, wraps=FOS_WRAPS + ALLOC_WRAPS + fd(variant)[1],
                bounds={"quick": quick, "thorough": thorough or quick}, **kw)


HEAP_WRAPS = ["malloc", "calloc", "realloc", "strdup"]


def pxy(harness, part, quick, thorough=None, **kw):
    return dict(harness=harness, extra=kw.pop("extra", []), variant="pxy", part=part, wraps=HEAP_WRAPS + kw.pop("more_wraps", []), bounds={"quick": quick, "thorough": thorough or quick}, **kw)


def crs(part, quick, thorough=None, **kw):
    return pxy("h_cross.c", part, quick, thorough, extra=["pool.c"], more_wraps=ALLOC_WRAPS, **kw)


CON_WRAPS = HEAP_WRAPS + ALLOC_WRAPS[:2] + ["select", "close", "sleep", "pthread_sigmask", "gnutls_record_recv", "gnutls_record_send", "gnutls_record_check_pending", "gnutls_bye", "gnutls_deinit",
             "coap_client_create", "coap_client_destroy", "coap_client_exchange", "coap_client_exchange_blockwise"]


def con(part, quick, thorough=None, **kw):
    return dict(harness="h_conn.c", extra=["pool.c"], variant="con", part=part, wraps=CON_WRAPS, bounds={"quick": quick, "thorough": thorough or quick}, **kw)


def cfg(part, quick, thorough=None, **kw):
    return dict(harness="h_config.c", extra=["pool.c"], variant="cfg", part=part, wraps=HEAP_WRAPS, bounds={"quick": quick, "thorough": thorough or quick}, **kw)


TSAN = ["-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memcmp", "-fno-builtin-strcmp"]
CONC_WRAPS = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "memcpy", "memset", "memcmp", "strcmp"]
GCRED_WRAPS = ["gnutls_" + w for w in ("certificate_allocate_credentials", "certificate_free_credentials", "certificate_set_x509_trust_file", "certificate_set_x509_key_file", "dh_params_init", "dh_params_generate2", "dh_params_deinit", "certificate_set_dh_params")]


def conc(part, quick, thorough=None, variant="mem", more_wraps=(), **kw):
    return dict(harness="h_conc.c", extra=["conc.c"], variant=variant, part=part, san=[], repo_san=TSAN, wraps=CONC_WRAPS + list(more_wraps), bounds={"quick": quick, "thorough": thorough or quick}, **kw)


TLS_WRAPS = HEAP_WRAPS + GCRED_WRAPS + ["time", "getaddrinfo", "freeaddrinfo", "socket", "connect", "fcntl", "setsockopt", "bind", "listen", "close", "sleep", "select", "accept", "pthread_mutex_init"] + ["gnutls_" + w for w in (
    "certificate_verify_peers2", "certificate_verify_peers3", "certificate_type_get", "x509_crt_init", "x509_crt_deinit", "certificate_get_peers", "x509_crt_import", "x509_crt_get_expiration_time", "x509_crt_get_activation_time", "x509_crt_check_hostname",
    "global_init", "global_deinit", "priority_init", "priority_deinit", "init", "deinit", "priority_set", "set_default_priority", "credentials_set", "certificate_server_set_request", "db_set_ptr", "db_set_store_function", "db_set_retrieve_function", "db_set_remove_function",
    "session_set_data", "transport_set_ptr", "transport_set_int2", "handshake", "rehandshake", "alert_get", "session_get_data2", "bye", "record_recv", "record_send")]


def tls(part, quick, thorough=None, variant="tls", **kw):
    return dict(harness="h_tls.c", extra=["pool.c"], variant=variant, part=part, wraps=TLS_WRAPS, bounds={"quick": quick, "thorough": thorough or quick}, **kw)


DTLS = "the same over DTLS, one event fewer"


def dtls(part, quick, thorough=None, variant="dtls4", **kw):
    return dict(harness="h_dtls.c", extra=["pool.c", "fakeos.c", "fakedtls.c"], variant=variant, part=part, wraps=FOS_WRAPS + DTLS_WRAPS, bounds={"quick": quick, "thorough": thorough or quick}, **kw)


def lst(part, quick, thorough=None, **kw):
    return dict(harness="h_listener.c", extra=["pool.c"], variant="pxy", part=part, wraps=HEAP_WRAPS + ["pthread_create", "pthread_sigmask", "sleep", "usleep", "tls_ssock_open", "tls_ssock_accept", "tls_ssock_close", "tls_sock_close", "tls_sock_read", "tls_sock_write_full", "gnutls_record_check_pending"],
                bounds={"quick": quick, "thorough": thorough or quick}, **kw)


def mem(part, quick, thorough=None, **kw):
    return dict(harness="h_mem.c", extra=[], variant="lib4", part=part, wraps=HEAP_WRAPS + ["pthread_mutex_init"], bounds={"quick": quick, "thorough": thorough or quick}, **kw)


SAMPLES = ["reg_server", "time_server", "transfer_server", "reg_client", "time_client", "transfer_client"]
VARIANTS["smp"] = dict(include=LIBINC + ["sample/" + d for d in SAMPLES], sources=["lib/src/*.c"] + ["sample/%s/*.c" % d for d in SAMPLES], exclude=["main.c"], defs=[])


def smp(part, quick, thorough=None, **kw):
    return dict(harness="h_sample.c", extra=["pool.c", "fakeos.c"], variant="smp", part=part, wraps=FOS_WRAPS + HEAP_WRAPS + ["fopen", "coap_client_create", "coap_client_destroy", "coap_client_exchange", "coap_client_exchange_blockwise"],
                bounds={"quick": quick, "thorough": thorough or quick}, **kw)


def e2e(part, quick, thorough=None, variant="lib4", **kw):
    return dict(harness="h_e2e.c", extra=["pool.c", "fakeos.c"], variant=variant, part=part, san=[], repo_san=[], wraps=FOS_WRAPS, bounds={"quick": quick, "thorough": thorough or quick}, **kw)


MC = "model_checking"
SEQ = ["sequential code: one thread; inputs outside the stated alphabet/length bounds are not covered",
       "gcc 13 -O1 with AddressSanitizer; log output suppressed"]
CONCA = ["sequentially consistent memory; switching between threads at every access to shared memory made by the compiled code, at mutex operations and in the middle of memcpy/memset",
         "schedules with more preemptions than the bound are not covered"]

PROPS = {
    "M01": dict(level=MC, assumptions=SEQ, parts=[
        msg("decode-free", "every byte string of length 0..3 after a fixed header (all 256 byte values)", "length 0..4, 4th byte from 11 representatives"),
        msg("decode-header", "all 256x256 first/code bytes x 6 message IDs x every truncation of header and token x 6 tails"),
        msg("decode-grammar", "all strings of length 0..6 over 14 structurally significant bytes", "length 0..7"),
        msg("decode-ext", "1-2 options, extended deltas/lengths around every encoding boundary, truncation by 0..3 bytes"),
        msg("decode-mutate", "two messages in which every pair of bytes takes every pair of values (the second message: pairs beginning in its first 12 bytes), complete or one byte short", "all pairs"),
        msg("decode-len", "one option, 21 numbers x every length 0..1200, complete or one byte short", shards=8),
    ]),
    "M02": dict(level=MC, assumptions=SEQ, parts=[
        msg("encode-header", "all types, codes of the defined classes, token lengths 0..8, with/without option and payload, every buffer size 0..exact+3"),
        msg("encode-ops", "0..2 options from 21 numbers x 16 lengths in every insertion order, 10 buffer sizes around the exact one", "0..3 options"),
        msg("encode-range", "one option: numbers 0..599 x lengths 0..39, 7 numbers x lengths 0..1200"),
        msg("encode-payload", "payload lengths 0..1200", shards=8),
        msg("setters", "field setters over and beyond their ranges", shards=1),
    ]),
    "M03": dict(level=MC, assumptions=SEQ, parts=[msg("oplist", "every sequence of up to 6 insertions over 4 option numbers, copy, source destroyed or mutated, payload/reset operations", "up to 7 insertions over 5 numbers"),
        msg("copy", "copies of all types x codes x 6 IDs x token lengths 0..8 x 6 option lengths; 0..2 options (5 numbers x 6 lengths) x 4 payload lengths, fresh or reused destination", "0..3 options")]),
    "M04": dict(level=MC, assumptions=SEQ, parts=[
        msg("classify-one", "every option number 0..65791"), msg("classify-list", "every list of up to 4 options from 15 numbers", "up to 5 options")]),
    "M05": dict(level=MC, assumptions=SEQ, parts=[
        msg("block-parse", "every 0/1/2-byte value, 256x10x256 3-byte values, 4/5-byte values", "every 3-byte value"),
        msg("block-format", "value lengths 0..4 x 16 sizes x block numbers around every limit"),
        msg("block-op", "every list of up to 3 options from 5 numbers x 6 values")]),
    "M08": dict(level=MC, assumptions=SEQ, parts=[msg("exhaust", "every combination of 7x7 amounts of free pool memory x operations")]),
    "M09": dict(level=MC, assumptions=SEQ, parts=[msg("uripath", "every list of up to 3 options (4 kinds x 3 lengths) x buffer lengths 0..19", "up to 4 options")]),
    "S01": dict(level=MC, assumptions=SEQ, parts=[srv("dedup", "1 client + a second one: 16 events (requests with IDs 0, 1, 65535 and others, piggybacked/separate/NON/bad option, matching and bogus ACK/RST, ping, malformed), all sequences of length 5", "length 6"),
        srv("values", "every message ID (piggybacked and separate), every code x type, option numbers 0..2239 x 3 lengths, tokens of every length and byte, every datagram length up to 1164, responses of every code and of 100 shapes up to the largest that fits, two requests with every byte set to every value or truncated; then the same again, another request or an acknowledgement", "option numbers 0..65535, two following events"),
        srv("dedup", DTLS, variant="dtls4")]),
    "S02": dict(level=MC, assumptions=SEQ, parts=[srv("reply", "21 request kinds from 4 clients, response IDs near 0 and near the wrap, all sequences of length 4", "length 5"),
        srv("values", "every message ID (piggybacked and separate), every code x type, option numbers 0..2239 x 3 lengths, tokens of every length and byte, every datagram length up to 1164, responses of every code and of 100 shapes up to the largest that fits, two requests with every byte set to every value or truncated; then the same again, another request or an acknowledgement", "option numbers 0..65535, two following events"),
        srv("reply", DTLS, variant="dtls4")]),
    "S03": dict(level=MC, assumptions=SEQ, parts=[srv("retransmit", "separate responses, ACK/RST/stale ACK/stray response, timer expiries, datagram and timer together; all schedules of length 7 x 3 random-number modes", "length 8"), srv("retransmit2", "three clients with pending responses, stray messages, timers expiring singly or together; length 6", "length 7"), srv("retransmit-long", "full back-off to giving up and beyond; length 11", "length 13"),
        srv("retransmit", DTLS, variant="dtls4"), srv("retransmit2", DTLS, variant="dtls4"), srv("retransmit-long", DTLS, variant="dtls4")]),
    "S04": dict(level=MC, assumptions=SEQ, parts=[srv("reject", "25 valid and invalid messages, all sequences of length 4", "length 5"),
        srv("values", "every message ID (piggybacked and separate), every code x type, option numbers 0..2239 x 3 lengths, tokens of every length and byte, every datagram length up to 1164, responses of every code and of 100 shapes up to the largest that fits, two requests with every byte set to every value or truncated; then the same again, another request or an acknowledgement", "option numbers 0..65535, two following events"),
        srv("reject", DTLS, variant="dtls4")]),
    "S05": dict(level=MC, assumptions=SEQ, parts=[srv("isolate", "4 clients differing in port/address, 14 events + timers, length 5", "length 6"), srv("lru", "table of 8 clients full, then all sequences of 4 events from 14 over 11 clients", "5 events"),
        srv("neighbours", "3 clients whose addresses differ in one byte only, each byte of address and port (and the scope) in turn, 8 events + timers, length 3"), srv("neighbours", "same, IPv6", variant="lib6"), srv("isolate", DTLS, variant="dtls4"), srv("lru", DTLS, variant="dtls4")]),
    "S08": dict(level=MC, assumptions=SEQ, parts=[srv("faults", "11 events, length 4, one failure at every kernel/allocator call", "two failures"), srv("faults-bw", "block-wise uploads with one failure at every kernel/allocator call, length 4", "two failures"),
        srv("faults", DTLS, variant="dtls4"), srv("faults-bw", DTLS, variant="dtls4")]),
    "S06": dict(level=MC, assumptions=SEQ, parts=[srv("bw-up", "block sizes 16..64 on both sides, 5 application results, 4 requests, one deviation of 14 kinds at any place", "5 requests, two deviations"), srv("bw-updown", "uploads answered with bodies of 1..80 bytes, 8 requests, all block sizes"), srv("bw-multi", "two clients interleaved, 5 requests, one deviation", "6 requests, two deviations"),
        srv("bw-large", "whole uploads, downloads and both, all block sizes 16..1024 on both sides, 13 lengths up to 4130 (two-byte block numbers)", "bodies of up to 66000 bytes (three-byte block numbers), all block sizes for both directions"),
        srv("bw-up", DTLS, variant="dtls4"), srv("bw-multi", DTLS, variant="dtls4")]),
    "S07": dict(level=MC, assumptions=SEQ, parts=[srv("bw-down", "11 body lengths, all block sizes, 7 requests, two deviations of 10 kinds", "8 requests, three deviations"), srv("bw-updown", "uploads answered with bodies of 1..80 bytes, 8 requests, all block sizes"), srv("bw-multi", "two clients interleaved, 5 requests, one deviation", "6 requests, two deviations"),
        srv("bw-large", "whole uploads, downloads and both, all block sizes 16..1024 on both sides, 13 lengths up to 4130 (two-byte block numbers)", "bodies of up to 66000 bytes (three-byte block numbers), all block sizes for both directions"),
        srv("bw-fetch", "uploads answered with bodies of 4 lengths, both methods, 7 requests, one deviation of 11 kinds anywhere", "9 requests, two deviations"),
        srv("bw-down", DTLS, variant="dtls4"), srv("bw-updown", DTLS, variant="dtls4")]),
    "K01": dict(level=MC, assumptions=SEQ, parts=[cli("match", "30 kinds of message/timer event, all sequences of length 4, CON and NON requests", "length 5"), cli("sequence", "three consecutive exchanges, 10 kinds of event, all sequences of total length 5", "length 6"),
        cli("values", "every message ID x type, every code x type, option numbers 0..2239 x type, every token length and every change of one token byte, every datagram length up to 1164, two responses with every byte set to every value or truncated; for CON and NON requests, before and after an empty ACK, followed by a good response", "option numbers 0..65535"),
        cli("match", DTLS, variant="dtls4"), cli("sequence", DTLS, variant="dtls4")]),
    "K02": dict(level=MC, assumptions=SEQ, parts=[cli("retransmit", "two exchanges, 6 kinds of event incl. simultaneous timer+datagram, all sequences of total length 9", "length 10"), cli("backoff", "512 random seeds x all timer/ACK sequences of length 7", "4096 seeds"),
        cli("retransmit", DTLS, variant="dtls4")]),
    "K03": dict(level=MC, assumptions=SEQ, parts=[cli("answer", "two exchanges, 26 kinds of event, all sequences of total length 4", "length 5"),
        cli("values", "every message ID x type, every code x type, option numbers 0..2239 x type, every token length and every change of one token byte, every datagram length up to 1164, two responses with every byte set to every value or truncated; for CON and NON requests, before and after an empty ACK, followed by a good response", "option numbers 0..65535"),
        cli("answer", DTLS, variant="dtls4")]),
    "K04": dict(level=MC, assumptions=SEQ, parts=[cli("bw-up", "2 methods x 3x3 block sizes x 10 lengths x 4 response styles x 3 final codes, one deviation of 18 kinds at any block", "two deviations"), cli("bw-down", "3x3 block sizes x 10 lengths x 4 buffer sizes x 4 response styles, first block already received or not, one deviation", "two deviations"), cli("bw-updown", "uploads answered with a body: all block sizes x 7x10 lengths, one deviation", "two deviations"), cli("bw-large", "all block sizes 16..1024 on both sides, lengths up to 4100", "lengths up to 66000 (3-byte block numbers)"), cli("bw-faults", "one failing call anywhere in block-wise exchanges", "two failures"),
        cli("bw-up", DTLS, variant="dtls4"), cli("bw-down", DTLS, variant="dtls4"), cli("bw-updown", DTLS, variant="dtls4")]),
    "H01": dict(level=MC, assumptions=SEQ, parts=[
        pxy("h_http.c", "parse", "4 start lines, 0..2 extra headers of 8 kinds, no/Content-Length/chunked body (5 contents, 0..2 chunks, 6 size forms, 3 last-chunk forms, trailer), 7 kinds of following bytes, every proper prefix (messages of up to 3 headers)", "all start lines with all headers, every prefix and following byte"),
        pxy("h_http.c", "invalid", "34 malformed messages, every prefix, with and without following bytes", shards=1),
        pxy("h_http.c", "values", "every body and chunk length up to 300 and number of chunks up to 120; every byte in bodies, header names and values, start lines, chunk sizes, extensions and terminators, Content-Length; bodies of 4 and 32 KB and 64 KB more or less; 9 other transfer codings; 11 kinds of white space"),
        pxy("h_http.c", "soup", "5 prefixes followed by every string of up to 5 of 14 pieces", "up to 6 pieces"),
        pxy("h_http.c", "nomem", "every single allocation failure while parsing or building", "every pair of allocation failures", shards=1)]),
    "H02": dict(level=MC, assumptions=SEQ, parts=[
        pxy("h_http.c", "generate", "3 start lines x lists of 0..3 headers x 4 bodies, every buffer size 0..length+3, parsed back"),
        pxy("h_http.c", "chunks", "10 chunk lengths, last chunk, trailer, blank line x every buffer size; 1..3 chunks parsed back", shards=1),
        pxy("h_http.c", "gen-values", "every length of target, header name and value up to 1200, body up to 3000 and around 65536, chunk and trailer up to 1100; replacing parts with every single allocation failure")]),
    "B01": dict(level=MC, assumptions=SEQ, parts=[pxy("h_http.c", "buf", "3 initial x 4 maximum sizes, every sequence of 7 operations (receive 1/3/all, consume 0/1/2/all, expand), at most one allocation failure", "8 operations")]),
    "U01": dict(level=MC, assumptions=SEQ, parts=[
        pxy("h_uri.c", "strings", "6 prefixes followed by every string of up to 5 of 18 pieces (delimiters, brackets, valid/invalid percent-encodings, space, non-ASCII)", "up to 6 pieces"),
        pxy("h_uri.c", "grammar", "every combination of 4 schemes, 4 user-infos, 5 hosts, 4 ports, 6 paths, 4 queries, 3 fragments; every buffer size; copies"),
        pxy("h_uri.c", "percent", "a percent sign followed by every pair of bytes, in 7 components"),
        pxy("h_uri.c", "bytes", "4 URIs with every byte inserted or put in at every place"),
        pxy("h_uri.c", "set", "every sequence of up to 4 setter calls (7 fields x 6 values), then every buffer size", "up to 5 calls"),
        pxy("h_uri.c", "nomem", "every single allocation failure while parsing, copying or setting", "every pair", shards=1)]),
    "X01": dict(level=MC, assumptions=SEQ, parts=[
        crs("request", "8 methods x 25 URIs x 9 body lengths x every pair of 8 headers"),
        crs("req-values", "every entity-tag length and character, every age below 70000 and around the powers of two, 45 other header names, every method one edit away from a known one, every port, every character in path and query (plain, %xx, %XX), every length of host, segment and parameter up to 290, every body length, 15 Accept values"),
        crs("uri", "every URI of up to 5 of 13 pieces, and back", "up to 6 pieces"),
        crs("uri-back", "option sets (5 hosts, 2 ports, 0..2 of 7 path and query values, unrepresentable values), every buffer size"),
        crs("nomem", "every single allocation failure in both directions", "every pair", shards=1)]),
    "X02": dict(level=MC, assumptions=SEQ, parts=[
        crs("response", "every code of classes 2, 4, 5 x 10 entity-tags x 6 Max-Age values x 5 further options x payload and block-wise body lengths", "all lengths everywhere"),
        crs("resp-values", "every byte in entity-tags, every length; every option number below 300; every Max-Age below 65536 and around the powers of two as integer and as digits; every payload and body length up to 8192 and around 65536"),
        crs("nomem", "every single allocation failure in both directions", "every pair", shards=1)]),
    "P01": dict(level=MC, assumptions=SEQ, parts=[
        con("sequence", "every pair of 14 kinds of request x 3 ways to send them x every CoAP server behaviour (15 outcomes, block-wise continuation and retry), one deviation (partial or failing TLS I/O, unreachable server)", "every triple, two deviations"),
        con("splits", "every pair of 6 requests cut into two records at every position, byte by byte, in blocks, truncated at every position; one deviation", "three records"),
        con("targets", "every pair of 168 targets (4 spellings of the scheme, 7 hosts, 6 ports)", "and every pair of deviations"),
        con("bodies", "every pair of 4 methods x 7 body lengths around the limits x plain or chunked, one deviation"),
        con("large", "requests around every growth step and the limit of the receive buffer"),
        con("respsize", "responses of every length around the growth steps of the send buffer"),
        con("nomem", "every single allocation failure while serving two requests", "every pair")]),
    "P02": dict(level=MC, assumptions=SEQ, parts=[
        lst("accept", "4 accepts with 5 outcomes, connection threads running at once, later or last, one failing allocation or thread start anywhere; then a further connection and the stop", "5 accepts, two failures")]),
    "G01": dict(level=MC, assumptions=SEQ, parts=[
        cfg("strings", "every string of up to 6 of 11 pieces (5 of 14)", "up to 7 pieces"),
        cfg("lines", "every file of 3 of 22 lines, with and without final newline", "4 lines"),
        cfg("bytes", "14 kinds of line with every byte", shards=1),
        cfg("names", "two entries, 8 sections x 7 names each (prefixes of one another), one set twice"),
        cfg("long", "names and values around the growth steps of the parser's strings", shards=1),
        cfg("nomem", "every single allocation failure in files of 3 of 12 lines", "every pair"),
        cfg("set", "every sequence of 4 assignments, with at most one allocation failure", "5 assignments"),
        cfg("param", "every combination of the 7 proxy parameters, 7 log levels, good/bad/missing file, at most one allocation failure")]),
    "M06": dict(level=MC, assumptions=SEQ, parts=[
        mem("states", "every set of buffers in use of a pool of 8 (every kind of pool, 3 lengths) and of 16, reached by releasing in 3 orders; then allocation up to exhaustion", "the same for every kind and length with 16 buffers"),
        mem("sequences", "7 operations (allocate, allocate nothing, allocate too much, release the oldest, newest, middle one) from three fill levels", "9 operations"),
        mem("three", "6 operations on the three global pools", "8 operations"),
        mem("creating", "10 numbers x 9 lengths, alone or as one of three, one failure of malloc or mutex initialisation", "two failures")]),
    "M07": dict(level=MC, assumptions=CONCA, parts=[
        conc("pool", "2 threads, 4 pools, 6x6 scripts of up to 4 operations, 0..2 free buffers; all schedules with at most 3 preemptions", "at most 4 preemptions"),
        conc("pool3", "3 threads, 3 scripts each; at most 2 preemptions", "at most 3 preemptions, all pools")]),
    "T02": dict(level=MC, assumptions=CONCA, parts=[
        conc("servercache", "2 threads, 6x6 scripts of store, look-up and delete; all schedules with at most 2 preemptions", "at most 3 preemptions", variant="tlsc", more_wraps=GCRED_WRAPS),
        tls("cacheseq", "both caches: every sequence of 4 stores (4 lengths), look-ups, deletions of 3 keys and groups of other keys, one allocation failure", "5 operations"),
        conc("clientcache", "2 threads, 6x6 scripts of store and look-up; all schedules with at most 2 preemptions", "at most 3 preemptions", variant="tlsc", more_wraps=GCRED_WRAPS)]),
    "T01": dict(level=MC, assumptions=SEQ, parts=[
        tls("create", "every single failing call while credentials are created", "every pair", shards=1),
        tls("open", "0..2 addresses, with and without a cached session, client and server; up to 5 failing, interrupted or repeated calls", "up to 6"),
        tls("open", "the same for IPv6 and without client authentication", "up to 6", variant="tlsna"),
        tls("io", "5 operations x 3 lengths; up to 6 partial, repeated, interrupted or failing calls", "up to 7")]),
    "D01": dict(level=MC, assumptions=SEQ, parts=[
        tls("verify", "TLS client and server: with and without a cached session; every combination of 10 verification results and 8 properties of the peer's certificate", "with one failing call anywhere"),
        dtls("auth-server", "DTLS server: the same for its clients' certificates; then a request of this and of another client", "with one failing call anywhere"),
        dtls("auth-client", "DTLS client: the same for the server's certificate, with and without an expected name", "with one failing call anywhere"),
        tls("verify", "the same for IPv6 and without client authentication", "with one failing call anywhere", variant="tlsna")]),
    "D02": dict(level=MC, assumptions=SEQ, parts=[
        dtls("sessions", "2 clients, 7 kinds of datagram, 6 courses of a handshake, 5 kinds of event while the server waits for one; all sequences of 3 events, then a new client", "4 events"),
        dtls("sessions", "the same for IPv6", "4 events", variant="dtls6"),
        dtls("create", "every pair of failing calls while a server is created and destroyed", "every triple")]),
    "A01": dict(level=MC, assumptions=SEQ, parts=[
        smp("registrar", "every sequence of 5 registrations and removals of 4 clients with 2 addresses each, one allocation failing anywhere", "6 operations, 5 clients"),
        smp("reg-server", "every sequence of 4 of 17 requests of 2 clients, one allocation failing anywhere", "5 requests, two failures"),
        smp("time-server", "every sequence of 4 of 9 requests, 4 times", "5 requests"),
        smp("transfer-server", "every sequence of 6 requests (next block of 2 clients' files of 5 lengths each, 4 requests that cannot be served, retransmission), storing the file may fail once", "7 requests, two failures"),
        smp("clients", "3 clients x 4 outcomes x 5 response codes x 4 paths x 7 payloads x 3 buffers, 6 file lengths; file or memory unavailable")]),
    "E01": dict(level=MC, assumptions=SEQ, parts=[
        e2e("exchanges", "two exchanges of 4 kinds each with a pause of 3 kinds after each, up to 2 datagrams lost, doubled or late (arriving at any later step), then a clean exchange", "up to 3"),
        e2e("loss", "two confirmable exchanges, up to 11 datagrams lost", "up to 14"),
        e2e("one", "one confirmable exchange, up to 4 datagrams lost, doubled or late", "up to 5"),
        e2e("blockwise", "block-wise downloads, uploads, uploads with a block-wise response, 4 lengths; up to 2 datagrams lost, doubled or late", "up to 3")]),
    "K05": dict(level=MC, assumptions=SEQ, parts=[cli("faults", "8 kinds of event, length 5, one failing call anywhere, then a clean exchange", "two failures"),
        cli("bw-faults", "a block-wise download and an upload with a block-wise response, one failing call anywhere", "two failures"),
        cli("faults", DTLS, variant="dtls4")]),
}
