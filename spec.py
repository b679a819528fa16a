"""Texts of the properties; gen.py writes properties.jsonl and MANIFEST.json from this file and props.py."""
S = {}


def P(pid, title, statement, over, qtext, why, files, mech, note, state=(), observe=()):
    assert len(title) <= 80, (pid, len(title))
    S[pid] = dict(rec=dict(id=pid, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(qtext.split())),
                           why_tests_cant=" ".join(why.split()),
                           anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)),
                  note=" ".join(note.split()))


MSG = ["lib/src/coap_msg.c", "lib/include/coap_msg.h"]
SRV = ["lib/src/coap_server.c", "lib/include/coap_server.h"]
CLI = ["lib/src/coap_client.c", "lib/include/coap_client.h"]

P("M01", "Decoding a datagram is exact: well-formed in, faithfully; anything else out",
  """Parsing accepts exactly the byte strings that are well-formed CoAP messages (RFC 7252 section 3) and yields exactly the version, type, code, message ID,
  token, options in order and payload they encode. Every other byte string is refused with an error, without reading outside the datagram, crashing,
  hanging or leaking memory, and a refused message can still be classified (type and message ID) for a reset whenever its header was readable.""",
  ["inputs"], "every byte string: headers, tokens, extended option deltas and lengths, truncations at every byte",
  "the tests parse about thirty hand-written messages; extended encodings, truncations and bytes >= 0x80 are barely sampled",
  MSG, [("coap_msg_parse", "lib/src/coap_msg.c"), ("coap_msg_parse_type_msg_id", "lib/src/coap_msg.c")],
  "Complete enumeration of datagrams over stated alphabets and lengths, each decoded by the implementation and by an independent RFC 7252 decoder; memory safety observed by AddressSanitizer.")
P("M02", "Encoding a message is exact, round-trips and never overruns the buffer",
  """Formatting any message writes exactly the RFC 7252 encoding of its fields (canonical option deltas and lengths, options in ascending order) and parsing those bytes
  gives the same message back. If the buffer is too small or the message cannot be represented, an error is returned and not one byte outside the buffer is written;
  setters refuse out-of-range field values and leave the message unchanged.""",
  ["inputs"], "every message: header fields, token lengths, option numbers and lengths around every encoding boundary, every buffer size",
  "the tests format a handful of messages into large buffers",
  MSG, [("coap_msg_format", "lib/src/coap_msg.c"), ("coap_msg_add_op", "lib/src/coap_msg.c")],
  "Enumeration of messages and buffer sizes; output compared byte for byte with an independent encoder, red zones around the buffer.")
P("M03", "A message's options keep order and duplicates; copies are deep and complete",
  """Whatever the order in which options are added, iterating a message gives them in ascending option number and, for equal numbers, in insertion order, with nothing lost,
  duplicated or altered. Copying a message yields an equal message that shares no storage with its source, so changing or destroying either leaves the other intact,
  and resetting or destroying a message returns every buffer it used.""",
  ["histories", "inputs"], "every sequence of add/copy/reset/payload operations up to the bound",
  "tests add options in one or two orders and copy one message",
  MSG, [("coap_msg_op_list_add", "lib/src/coap_msg.c"), ("coap_msg_copy", "lib/src/coap_msg.c")],
  "All operation sequences within the bound, compared with a list model after every step; pool occupancy checked.")
P("M04", "Critical, unsafe, no-cache-key and recognised options are classified per RFC",
  """For every option number, whether an option is critical, unsafe to forward or not part of the cache key is exactly what RFC 7252 section 5.4.6 derives from the number,
  and the set of recognised options is exactly the registered set the library documents. Checking a message for critical (or unsafe) options
  reports an option number that is critical (unsafe) and unrecognised if and only if the message contains one.""",
  ["inputs"], "every option number; every option list up to the bound",
  "tests sample a few numbers",
  MSG, [("coap_msg_check_critical_ops", "lib/src/coap_msg.c"), ("coap_msg_check_unsafe_ops", "lib/src/coap_msg.c"), ("coap_msg_op_num_is_recognized", "lib/src/coap_msg.c")],
  "Every option number is classified; every option list within the bound is checked against the definition.")
P("M05", "Block option values encode and decode exactly per RFC 7959",
  """Decoding a Block1/Block2 value of 0 to 3 bytes gives exactly the block number, more flag and block size it encodes, and any other length or the reserved size is refused.
  Encoding a number, more flag and size into a value of 1, 2 or 3 bytes gives exactly the value that decodes to the same triple; numbers that do not fit into that many bytes,
  sizes that are not a block size and other lengths are refused, and nothing is written outside the value.""",
  ["inputs"], "every block value and every (number, more, size, buffer length) around every limit",
  "tests sample a dozen values",
  MSG, [("coap_msg_op_parse_block_val", "lib/src/coap_msg.c"), ("coap_msg_op_format_block_val", "lib/src/coap_msg.c"), ("coap_msg_parse_block_op", "lib/src/coap_msg.c")],
  "All 0-, 1- and 2-byte values and a product of 3-byte values (all of them in the thorough tier).")
P("M08", "Running out of memory leaves messages consistent and leaks nothing",
  """When the buffer pools run out at any point while a message is parsed, built, copied or given a payload, the operation reports an error (never success with missing
  content, never a crash), the message can still be destroyed or reset, and afterwards every buffer of every pool is available again.""",
  ["fault_sequences"], "every amount of free memory in the small and medium pools, for every message operation",
  "no test exhausts the pools inside a message operation",
  MSG + ["lib/src/coap_mem.c"], [("coap_msg_op_new", "lib/src/coap_msg.c"), ("coap_msg_copy", "lib/src/coap_msg.c")],
  "Every combination of remaining pool capacities is tried for every operation; pool occupancy is compared before and after.")
P("M09", "The URI path of a request is reassembled faithfully within the caller's buffer",
  """The URI path text produced for a message is '/'-joined Uri-Path segments in order ('/' when there are none), never includes other options, and is always terminated inside
  the buffer; for buffers of two bytes or more the reported length is the full length, so truncation can be detected. No byte beyond the given buffer length is written for any buffer length.""",
  ["inputs"], "every list of options up to the bound and every buffer length",
  "tests use two paths and ample buffers",
  MSG, [("coap_msg_uri_path_to_str", "lib/src/coap_msg.c")],
  "Option lists and buffer lengths enumerated; result compared with a reference string builder.")

P("S01", "A request is handed to the application at most once",
  """However often, and interleaved with whatever other traffic, a client's most recent request is received again with the same message ID, the server calls the application's
  handler once for it. Duplicates of a confirmable request are answered again - with the identical response datagram, or for a separate response with an acknowledgement - and duplicates of a non-confirmable
  request are ignored; a request with a new message ID is never mistaken for a duplicate. Handlers see exactly the request that was received.""".replace("Handlers see exactly the request that was received.", ""),
  ["histories", "schedules"], "every sequence of requests, duplicates, acknowledgements, resets, malformed messages and two clients up to the bound, all message IDs including 0 and 65535",
  "the server tests exchange a fixed script with the companion client; nothing is ever duplicated or reordered",
  SRV, [("coap_server_trans_match_req / coap_server_exchange", "lib/src/coap_server.c")],
  "The real server loop on a simulated kernel; every event sequence up to the bound is delivered and every output compared with a reference model of the message layer.")
P("S02", "Every accepted request gets exactly one response of the right kind and identity",
  """A confirmable request is answered either by one acknowledgement carrying the response and the request's message ID, or - for resources registered for separate responses - by an empty
  acknowledgement followed by one confirmable response with a fresh message ID; a non-confirmable request is answered by one non-confirmable response with a fresh message ID. The response carries the
  request's token and exactly the code, options and payload the application produced for this request, and goes to the address the request came from.""",
  ["histories", "inputs"], "every sequence of requests of every type, path, token length and message ID up to the bound, including message-ID wrap-around",
  "tests run a fixed script over one client and never compare wire bytes",
  SRV, [("coap_server_exchange", "lib/src/coap_server.c"), ("coap_server_get_next_msg_id", "lib/src/coap_server.c")],
  "Every datagram the server sends in every execution is decoded by an independent decoder and compared with the model's expectation.")
P("S03", "Separate responses are retransmitted with back-off until settled or given up",
  """An unacknowledged confirmable response is resent, byte for byte, each time its timeout expires, at most four times; the first timeout lies between 2 and 3 seconds and each following one is
  twice the previous. Retransmission stops when a matching acknowledgement or reset arrives, when a new request from that client replaces it, or after the last timeout - and for no other
  reason: unrelated, malformed or foreign messages neither stop nor disturb it.""",
  ["schedules", "histories"], "every interleaving of timer expiries with acknowledgements, resets, new requests and unrelated messages up to the bound, for several clients",
  "tests never lose an acknowledgement, and real time makes the back-off sequence take over a minute",
  SRV, [("coap_server_trans_start_ack_timer_init / _resend / handle_ack_timeout", "lib/src/coap_server.c")],
  "Virtual time: each timer armed by the server is part of the schedule that is enumerated.")
P("S04", "Unprocessable messages are reset, refused or ignored as RFC 7252 says",
  """A confirmable message that is malformed, empty or not a request is answered with a reset carrying its message ID and nothing else; non-confirmable ones, unknown acknowledgements and resets and messages of another
  protocol version are silently ignored. A request with an unrecognised critical option is answered with 4.02 without reaching the application, unrecognised elective options are
  tolerated, and none of these messages changes the outcome of any exchange in progress.""",
  ["inputs", "histories"], "every sequence of valid and invalid messages up to the bound",
  "tests send three kinds of invalid message in isolation",
  SRV, [("coap_server_exchange / coap_server_trans_reject", "lib/src/coap_server.c")],
  "Event sequences over valid and invalid messages enumerated; outputs compared with the model.")
P("S05", "Clients are independent; only the least recently used one is ever forgotten",
  """What the server remembers for a client (its last request, response, pending retransmission) is keyed by the full peer address and port, and traffic from other clients never alters it, answers it or
  cancels it. Only when more clients are active than the server can track is one forgotten, and it is always the one heard from least recently.""",
  ["histories"], "every interleaving of requests, acknowledgements, errors and timer expiries of several clients up to the bound, including full transaction tables",
  "tests use one client at a time",
  SRV, [("coap_server_find_trans / coap_server_find_oldest_trans", "lib/src/coap_server.c")],
  "Four clients differing only in port or address, and a full table with replacement, explored exhaustively within the bound.")
P("S06", "A block-wise upload is delivered to the application once, complete and in order",
  """For a request body sent in blocks, the application receives the body exactly once, after the last block, equal to the concatenation of the blocks in order; each earlier block is acknowledged with 2.31 and the
  agreed block size, and a smaller block size chosen by either side is respected. A block that is missing, repeated out of order, inconsistent with the transfer or too large for the buffer is refused with a
  4.xx response (4.08 incomplete, 4.13 too large, 4.00 otherwise) and never reaches the application; duplicated datagrams are answered again without effect.""",
  ["histories", "inputs"], "every sequence of in-order, skipped, repeated, resized, truncated and mismatching blocks up to the bound for every pair of block sizes 16..64",
  "tests upload two bodies in perfect order",
  SRV, [("coap_server_trans_handle_blockwise / blockwise1", "lib/src/coap_server.c")],
  "All block sequences with a bounded number of deviations from the protocol, for all block-size pairs, one and two clients.")
P("S07", "A block-wise download returns exactly the body, block by block",
  """The payloads of the blocks a server serves for a response body, concatenated, are exactly that body; every block states its number, size and whether more follow, and the size never exceeds what the client or the server asked for.
  Requests for a wrong block or with an inconsistent option are refused with 4.00 or 4.08, and the body served to one client is never mixed with another's.""",
  ["histories", "inputs"], "every body length around block boundaries, every pair of block sizes, every request sequence with a bounded number of deviations",
  "tests download one body with one block size",
  SRV, [("coap_server_trans_handle_blockwise / blockwise2", "lib/src/coap_server.c")],
  "As S06, for downloads and for uploads that are answered with a body.")
P("S08", "The server survives local failures and serves the next client",
  """If sending, receiving, arming a timer, creating a descriptor or allocating memory fails at any point, the server keeps running, leaks neither descriptors nor buffers and answers the next client's request correctly.
  Only the exchange that met the failure may be affected.""",
  ["fault_sequences"], "every single failure (pairs in the thorough tier) at every call in every event sequence up to the bound",
  "no test injects a failure",
  SRV, [("coap_server_listen / coap_server_run error paths", "lib/src/coap_server.c")],
  "Every call into the kernel or the allocator is a fault point; after each faulty history a fresh client is served under the full oracle.")
P("K01", "A client exchange returns only the response to its own request",
  """A successful exchange returns exactly the message received (code, options, payload) whose token equals the token of the request just sent: in an acknowledgement carrying the request's message ID, or as a separate
  confirmable or non-confirmable response with any message ID. Responses with another token, acknowledgements for another message, requests, duplicates of earlier responses, malformed or
  truncated messages and messages with unrecognised critical options are never returned as the response, in this exchange or a later one.""",
  ["inputs", "histories"], "every sequence of up to 4 (5) messages of 30 kinds during an exchange, and every history of three exchanges with late and duplicated messages",
  "tests use one well-behaved server; late, foreign or duplicated messages hardly occur",
  CLI, [("coap_client_exchange / coap_client_exchange_con / _sep / _non", "lib/src/coap_client.c"), ("coap_client_match_token", "lib/src/coap_client.c")],
  "The server side is enumerated; what the client returns is compared with a reference model of RFC 7252 matching rules.")
P("K02", "A client request is retransmitted with back-off, then times out; it never hangs",
  """A confirmable request is sent at once and, until it is acknowledged, answered or reset, sent again byte for byte each time its timeout expires: first after 2 to 3 seconds, then after doubled intervals, four times in all; the fifth
  expiry ends the exchange with a timeout error. After an empty acknowledgement it is not sent again and the response is awaited for 30 seconds; a non-confirmable request is sent once. A reset ends the exchange with a connection-reset error.
  While waiting, the client always has a timer running, whatever stray messages arrive.""",
  ["schedules", "histories"], "every sequence of timer expiries, acknowledgements, responses and stray messages (alone and simultaneous) up to depth 9 (10), for every initial random timeout explored",
  "tests drop a few messages with a simulated server and never observe the whole schedule",
  CLI, [("coap_client_listen_ack / coap_client_listen_resp", "lib/src/coap_client.c"), ("coap_client_update_ack_timer", "lib/src/coap_client.c")],
  "Timers and datagrams are delivered by the harness in every order; the timer values programmed and the datagrams sent are checked.")
P("K03", "A client acknowledges its confirmable response and resets what it cannot use",
  """Each confirmable response that is accepted is acknowledged once with an empty acknowledgement carrying its message ID. A confirmable message that is malformed, unexpected, carries another token, is not a response or has an unrecognised critical
  option is answered with a reset carrying its message ID; acknowledgements, resets and non-confirmable messages are never answered. Nothing else is sent.""",
  ["inputs", "histories"], "every sequence of up to 4 (5) messages of 26 kinds over two consecutive exchanges",
  "tests look at a few messages in isolation",
  CLI, [("coap_client_handle_sep_response / coap_client_reject / coap_client_send_ack", "lib/src/coap_client.c")],
  "Same exploration as K01 with the client's output compared datagram by datagram.")
P("K04", "A client block-wise exchange transfers both bodies exactly or reports an error",
  """An upload sends the body as consecutive blocks, each with the right number, size, more flag and content, honouring a smaller block size the server asks for, and succeeds only when the server accepted all of it. A download
  (or a response body to an upload) is requested block by block, in the block size the caller chose unless the server asks for less, and returned complete and in order with its exact length. Answers with a wrong, missing or unusable block option, a wrong payload length, or more data than the
  buffer holds end the transfer with an error without touching memory outside the buffer; error responses are handed to the application.""",
  ["inputs", "histories", "fault_sequences"], "all block-size pairs, body lengths around block boundaries, response styles and one (two) deviations of 15 kinds by the server at any block; every allocation or socket failure",
  "tests transfer a few bodies with a well-behaved server",
  CLI, [("coap_client_exchange_blockwise", "lib/src/coap_client.c")],
  "The harness is an RFC 7959 server that may deviate at any block; requests, body, return value, response and memory are checked.")
P("K05", "A client survives local failures without leaks and can be used again",
  """If creating a descriptor, connecting, sending, receiving, arming a timer or allocating memory fails at any point of creating a client or of an exchange, the call returns an error (or a correctly received response), never reports success without one,
  never waits without a timeout, leaks no descriptor or buffer, and the client completes the next exchange normally.""",
  ["fault_sequences"], "every single failure (pairs in the thorough tier) at every call in every event sequence of length 4 (5)",
  "no test injects a failure",
  CLI, [("coap_client_create / coap_client_exchange error paths", "lib/src/coap_client.c")],
  "Every kernel and allocator call is a fault point.")

PX = "proxy/common/src/"
P("H01", "HTTP messages are parsed exactly, at any split, and malformed ones refused",
  """Given the bytes received so far, parsing an HTTP message yields exactly its three start-line fields, its headers in order with white space normalised, and its body (by
  Content-Length or chunked, any byte values, extensions and trailers included) and consumes exactly that message, whatever bytes follow. Any proper prefix of a message asks for
  more input and nothing else. Malformed start lines, headers, lengths and chunks are refused, and no input reads or writes out of bounds, hangs or leaks; running out of memory is
  reported as such.""",
  ["inputs", "faults"], "every message over the stated grammar, every prefix of it, every byte string over the stated alphabet, every allocation failure",
  "the tests parse two dozen complete text messages; splits, NUL bytes, malformed lengths and following bytes are not sampled",
  [PX + "http_msg.c", "proxy/common/include/http_msg.h"], [("http_msg_parse", PX + "http_msg.c"), ("http_msg_parse_body", PX + "http_msg.c")],
  "Complete enumeration of a message grammar, all prefixes, and all short strings over significant pieces; oracle is the construction itself. Heap checked for leaks.")
P("H02", "HTTP messages are formatted exactly into any buffer, and parse back",
  """Formatting an HTTP message, chunk, last chunk, trailer or blank line into a buffer of any size never writes outside it, null-terminates it, returns the full length needed, and what
  fits is exactly the beginning of the message text, including binary bodies. The formatted text parses back to the same start line, headers and body. Setting the start line or
  body again replaces the old value without leaking it.""",
  ["inputs"], "every message over the stated grammar and every buffer size",
  "the tests format into large buffers or sample a few sizes",
  [PX + "http_msg.c", PX + "util.c"], [("http_msg_generate", PX + "http_msg.c"), ("http_msg_generate_chunk", PX + "http_msg.c"), ("util_strncat", PX + "util.c")],
  "Every message of a small grammar into every buffer size up to the needed one and beyond, compared byte for byte.")
P("B01", "The proxy's data buffer is an exact byte queue within its size limits",
  """For every sequence of receiving, consuming and expanding, a data buffer holds exactly the bytes received and not yet consumed, in order, reports count and space accordingly, accepts
  and consumes no more than there is room for or data available, never grows beyond its maximum, keeps a terminating null character after the buffer and returns its memory.""",
  ["histories"], "every sequence of operations up to the bound over several initial and maximum sizes",
  "the tests run one or two fixed sequences",
  [PX + "data_buf.c", "proxy/common/include/data_buf.h"], [("data_buf_expand", PX + "data_buf.c"), ("data_buf_consume", PX + "data_buf.c"), ("data_buf_add", PX + "data_buf.c")],
  "All operation sequences within the bound against a byte-queue model.")
P("U01", "URIs are split, decoded, copied and regenerated exactly, or refused",
  """Parsing a URI reference yields exactly the scheme, user-info, host, port, path, query and fragment that RFC 3986 assigns to its characters, percent-decoded, with absent and empty components told apart as the
  accessors document; malformed percent-encodings (and encoded null characters) are refused. A copy equals its source. A generated URI parses back to the same components, fits any
  buffer it is given (never writing outside it) and reports the length needed. Running out of memory is reported, and no input crashes, hangs or leaks.""",
  ["inputs", "faults"], "every string over significant pieces up to the bound, every combination of components, every setter sequence, every buffer size, every allocation failure",
  "the tests parse a few dozen well-formed URIs",
  [PX + "uri.c", "proxy/common/include/uri.h"], [("uri_parse", PX + "uri.c"), ("uri_generate", PX + "uri.c"), ("uri_copy", PX + "uri.c")],
  "All strings over an alphabet of significant pieces compared with an independent RFC 3986 splitter; generated URIs parsed back; every buffer size and allocation failure.")
P("X01", "HTTP requests become the equivalent CoAP request or the right error status",
  """For every HTTP request with method GET, POST, PUT or DELETE and a coap/coaps URI, the proxy builds a confirmable CoAP request with the same method, Uri-Host, Uri-Port, Uri-Path and Uri-Query options equal to the decoded URI,
  the options that correspond to its ETag, Cache-Control and Accept headers, no other options, and the body unaltered (as payload or, when longer than a payload, as block-wise body). Requests that
  cannot be translated are refused with 501, 400, 406 or 502/413 as appropriate. Options convert back to a URI that denotes the same options, or an error; buffers are never overrun and no memory leaks.""",
  ["inputs", "faults"], "every combination of methods, URI shapes, header pairs and body lengths; every URI over the stated pieces; every buffer size; every allocation failure",
  "the tests convert a handful of requests",
  [PX + "cross.c", "proxy/common/include/cross.h"], [("cross_req_http_to_coap", PX + "cross.c"), ("cross_uri_http_to_coap / cross_uri_coap_to_http", PX + "cross.c")],
  "Enumeration of requests over the stated grammar; the resulting CoAP message is compared option by option with an independent translation. Recorded findings: integer options sent as decimal text, encoded delimiters.")
P("X02", "CoAP responses become exactly one well-formed HTTP response of equal meaning",
  """Every CoAP response that the proxy understands becomes an HTTP response with the corresponding status (success never becomes an error nor the reverse), the same body byte for byte with its exact length (an absent body is
  announced as such), and headers derived only from its options: no option value can add or split HTTP headers. A response that is not understood yields a 5xx status. The generated
  text parses back as exactly one HTTP message. Running out of memory is reported with a 5xx status and nothing leaks.""",
  ["inputs", "faults"], "all 96 response codes x entity-tags (control characters included) x ages x other options x body lengths; every allocation failure",
  "the tests convert a handful of responses",
  [PX + "cross.c", PX + "http_msg.c"], [("cross_resp_coap_to_http", PX + "cross.c"), ("cross_status_coap_to_http", PX + "cross.c"), ("cross_headers_coap_to_http", PX + "cross.c")],
  "Enumeration of responses; the HTTP message is formatted, parsed back and compared with RFC 8075 mappings. Recorded finding: Max-Age read as decimal text.")
P("P01", "Each HTTP request on a proxy connection is forwarded once and answered once",
  """On every TLS connection the proxy serves the HTTP requests in order, however they are split into records or pipelined: each complete, well-formed request with a supported method and a coap/coaps URI is
  forwarded exactly once, to the host and port (default 5683/5684) of its own URI with its method, path, query and body, and answered with exactly one HTTP response carrying the CoAP server's status and body (large
  bodies block-wise in both directions). Requests that cannot be forwarded, an unreachable or silent CoAP server (504/502) and unusable CoAP responses are answered with a 4xx/5xx response that
  leaves the connection usable. The proxy never waits for input while a complete request is unanswered, and however the connection ends, sessions, descriptors, CoAP clients and memory are released.""",
  ["inputs", "histories", "fault_sequences"], "every sequence of 2 or 3 requests of 14 kinds, every split, every CoAP outcome, up to two deviations (TLS I/O, server, allocation)",
  "the proxy tests send one request per record to a cooperative server",
  ["proxy/http_coap/src/connection.c", PX + "tls_sock.c", PX + "cross.c"], [("connection_exchange / connection_recv / connection_send", "proxy/http_coap/src/connection.c"), ("connection_process / connection_coap_exchange", "proxy/http_coap/src/connection.c"), ("tls_sock_read / tls_sock_write_full / tls_sock_close", PX + "tls_sock.c")],
  "The real connection thread runs between an enumerated TLS peer (records, partial I/O, EOF, timeouts) and an enumerated CoAP server; forwarded requests and HTTP responses are compared with the requests sent.")
P("G01", "Configuration text is read exactly; errors are found, located and harmless",
  """Reading a configuration yields exactly the entries it assigns (section, name, value; the last assignment wins; comments, white space, quoted values and a missing final newline handled) and refuses everything else, reporting the
  line of the error. Setting an entry replaces it or, on failure, leaves the old value. The proxy's parameters are those of the file, or the documented default for each one that is absent; an unreadable or wrong file or an unknown
  log level is refused with nothing set. No input reads out of bounds, hangs or leaks memory; running out of memory is reported.""",
  ["inputs", "faults"], "every text over the stated pieces and lines, every subset of parameters, every allocation failure",
  "the tests read two dozen texts, all ending in a newline",
  [PX + "config.c", "proxy/http_coap/src/param.c", PX + "util.c"], [("config_parse", PX + "config.c"), ("config_set", PX + "config.c"), ("param_create", "proxy/http_coap/src/param.c")],
  "All texts over an alphabet of tokens compared with an independent parser; allocation failures injected; heap accounted for.")
P("M06", "A buffer pool hands out exactly its buffers: distinct, whole and reusable",
  """A pool created with n buffers of l bytes can have exactly n allocations outstanding, in any order of allocating and releasing: each allocation of up to l bytes gives a whole buffer that overlaps
  no other buffer in use, a longer one or one from an exhausted pool gives NULL, and a released buffer is available again while all others keep their content. The pools are independent of each other.
  Impossible sizes are refused, and a failed creation (also of one of the three pools together) leaks nothing and can be repeated.""",
  ["inputs", "fault_sequences"], "every set of buffers in use, every short sequence of operations and every argument around the limits, with every allocation failing",
  "tests allocate all buffers once and free them once",
  ["lib/src/coap_mem.c"], [("coap_mem_create", "lib/src/coap_mem.c"), ("coap_mem_alloc", "lib/src/coap_mem.c"), ("coap_mem_free", "lib/src/coap_mem.c"), ("coap_mem_all_create", "lib/src/coap_mem.c")],
  "Content marks in every held buffer detect overlap; the pools are used through their public functions only.")
P("M07", "The memory pools are safe for any number of threads",
  """However the threads of a process interleave their allocations and releases, a pool never hands a buffer that is in use to another thread, never loses or duplicates one, reports exhaustion only when
  every buffer is in use at some moment of the call, and never deadlocks; its count of buffers in use is exact whenever no call is in progress.""",
  ["schedules"], "every schedule of 2 and 3 threads within the preemption bound, switching at every access to shared memory",
  "the tests use one thread; the proxy runs one thread per connection on the same pools",
  ["lib/src/coap_mem.c", "lib/include/coap_mem.h"], [("coap_mem_alloc / coap_mem_free", "lib/src/coap_mem.c"), ("coap_mem_small_alloc ... coap_mem_large_free", "lib/src/coap_mem.c")],
  "The compiled allocator runs on coroutines that can be switched at every instrumented memory access and mutex operation; all schedules within the preemption bound.")
P("P02", "The proxy's listener serves or closes each connection and outlives failures",
  """Every connection that the proxy's listener accepts is handed to exactly one thread of its own, or, if memory or threads run out, closed at once; none is forgotten or leaked. Whatever fails while
  accepting, allocating or starting a thread, the listener goes on to accept and serve the next connection until the proxy is stopped; then it closes its socket and returns its memory. Creating or starting
  a listener that fails leaves nothing behind.""",
  ["fault_sequences", "schedules"], "every sequence of accept outcomes with every allocation and thread start failing, and connection threads running early or late",
  "the listener has no tests, and running out of threads or memory cannot be provoked in one",
  ["proxy/http_coap/src/listener.c", "proxy/common/src/thread.c"], [("listener_thread_func", "proxy/http_coap/src/listener.c"), ("listener_new", "proxy/http_coap/src/listener.c"), ("thread_init", "proxy/common/src/thread.c")],
  "The real listener and connection code; TLS sockets and pthread_create are stand-ins.")
P("T01", "TLS connections carry bytes exactly and release everything, whatever fails",
  """Opening, accepting, reading, writing, closing and re-handshaking a TLS connection succeeds exactly when every call it needs succeeds (trying all addresses of the host in turn and retrying interrupted or would-block calls until the
  timeout), and otherwise reports an error and releases every session, descriptor, address list and byte of memory it acquired, exactly once. Bytes written and read in full are exactly the bytes
  transferred, in order and once each, however the transport splits, interrupts or delays them.""",
  ["fault_sequences"], "every combination of up to 3-5 failing, partial, interrupted or repeated calls at any place",
  "the tests connect over loop-back, where nothing fails or is split",
  [PX + "tls_sock.c", PX + "tls.c", PX + "sock.c"], [("tls_sock_open / tls_sock_open_from_sockaddr_in", PX + "tls_sock.c"), ("tls_ssock_accept", PX + "tls_sock.c"), ("tls_sock_read_full / tls_sock_write_full", PX + "tls_sock.c"), ("tls_client_create / tls_server_create", PX + "tls.c")],
  "The real socket code runs on interposed kernel and GnuTLS calls whose every outcome is enumerated; descriptors, sessions and heap accounted for.")
P("T02", "A session cache returns exactly the last complete data stored for a key",
  """Looking a session up in the server's or the client's TLS session cache returns exactly the data most recently stored for that session ID or address, complete and unmixed, or nothing: never data of another key, partly overwritten, deleted or
  freed data, whatever sequence of stores, look-ups, deletions and evictions precedes it and however threads interleave. A recently stored entry is still found; data too long for an entry is
  not stored truncated; running out of memory is reported as not found.""",
  ["histories", "schedules"], "every sequence of cache operations up to the bound, every schedule of 2 threads within the preemption bound",
  "the tests resume one session at a time from one thread",
  [PX + "tls.c", "proxy/common/include/tls.h"], [("tls_server_db_store / tls_server_db_retrieve / tls_server_db_remove", PX + "tls.c"), ("tls_client_set_session / tls_client_session_get_data", PX + "tls.c")],
  "Operation sequences against a map model with the real cache; schedules as in M07 with accesses to the cache as switching points.")
P("D01", "A peer is accepted only if its certificate passes every check",
  """A TLS or DTLS connection is established only if the peer presented an X.509 certificate that the trust store verifies, that is within its period of validity, and (for a client) that names the host it connected to; a server that requires client
  certificates applies the same rules to its clients. In every other case, including any failure while checking, the connection is refused, nothing is exchanged over it, and certificate and
  session are released. A good certificate is accepted.""",
  ["inputs", "faults"], "every combination of verification results and certificate properties, with and without one failing call",
  "the tests use only good certificates",
  [PX + "tls_sock.c", PX + "tls.c", "lib/src/coap_server.c", "lib/src/coap_client.c"], [("tls_sock_verify_peer_cert", PX + "tls_sock.c"), ("coap_server_trans_dtls_verify_peer_cert", "lib/src/coap_server.c"), ("coap_client_dtls_verify_peer_cert", "lib/src/coap_client.c")],
  "The real verification code runs on interposed GnuTLS verification calls; all combinations of outcomes enumerated, acceptance compared with the rule.")
P("D02", "DTLS sessions of the CoAP server are separate, bounded in time and released",
  """With DTLS enabled, the application sees a request exactly when it was received in the established session of the client that sent it, and the answer goes to that client in that session; unprotected,
  undecipherable or session-less datagrams never reach it. A client's handshake (complete, failed, abandoned or disturbed), alert, closing or garbage never ends another client's session, never
  stops the server for longer than the handshake time-out and never blocks the socket. Sessions, credentials and descriptors are released exactly once, also when creating the server fails.""",
  ["histories", "fault_sequences"], "every sequence of 3 or 4 events (7 kinds of datagram of 2 clients, 6 courses of a handshake, 5 disturbances while the server waits for one), then new clients",
  "the tests run one well-behaved DTLS client over loop-back",
  ["lib/src/coap_server.c"], [("coap_server_trans_dtls_create / coap_server_trans_dtls_handshake", "lib/src/coap_server.c"), ("coap_server_trans_dtls_pull_func", "lib/src/coap_server.c"), ("coap_server_trans_recv", "lib/src/coap_server.c"), ("coap_server_dtls_create", "lib/src/coap_server.c")],
  "The real server runs on a stand-in for GnuTLS (sessions, records, alerts; behaviour taken from GnuTLS 3.8.3) whose handshakes are enumerated.")
P("E01", "Over a lossy network an exchange succeeds and yields its own answer",
  """With a client and a server of this library talking over a network that loses, duplicates, delays and reorders datagrams: an exchange reported successful returned what the handler answered to that very
  request; a request that was retransmitted or duplicated is handled once (unless an old copy arrives after a later request of that client); a confirmable exchange succeeds whenever the losses leave the retransmissions of both sides
  a chance (at most 3 datagrams lost or late, 4 when the response is piggybacked), a non-confirmable one whenever nothing is lost; a block-wise body arrives complete and exact in either direction, and is given to the application once, whenever
  the transfer is reported successful. Once the network is sound again a further exchange succeeds (an interrupted block-wise transfer may cost one request), and nothing is leaked on either side.""",
  ["schedules", "histories", "fault_sequences"], "every way of losing, duplicating or delaying up to the stated number of datagrams of up to three exchanges, plain and block-wise",
  "the tests run client and server over loop-back, which never loses, duplicates or reorders anything",
  ["lib/src/coap_client.c", "lib/src/coap_server.c", "lib/src/coap_msg.c"],
  [("coap_client_exchange / coap_client_exchange_blockwise", "lib/src/coap_client.c"), ("coap_server_run / coap_server_trans_handle_timeout", "lib/src/coap_server.c"), ("coap_server_trans_handle_blockwise", "lib/src/coap_server.c")],
  "Both real programs run against each other (the server as a coroutine of the client's thread) on one simulated clock; every fate of every datagram is enumerated up to the budget.")
P("A01", "The sample applications store, register and report what they were sent",
  """The registration server's registry lists every registered client exactly once with its latest address, whatever the order of registrations and removals; a registration is answered Created for a new and
  Changed for a known client, exactly when it took effect. The time server tells the current time; the transfer server stores exactly the file that was sent, also when several clients send at once, and answers success only if it was stored. Requests
  with another path or method, or without a usable identifier, are refused without effect. The sample clients send what they were asked to send and report success exactly when the exchange succeeded with a proper answer,
  which they return unchanged and terminated; none of them leaks memory or writes outside the caller's buffer.""",
  ["histories", "inputs", "fault_sequences"], "every sequence of requests, registrations and removals up to the stated length; every kind of answer; a failing allocation, file or exchange",
  "the sample applications have no tests",
  ["sample/reg_server/registrar.c", "sample/reg_server/reg_server.c", "sample/time_server/time_server.c", "sample/transfer_server/transfer_server.c", "sample/reg_client/reg_client.c", "sample/time_client/time_client.c", "sample/transfer_client/transfer_client.c"],
  [("registrar_add / registrar_del / registrar_find", "sample/reg_server/registrar.c"), ("reg_server_handle", "sample/reg_server/reg_server.c"), ("transfer_server_handle", "sample/transfer_server/transfer_server.c"), ("transfer_client_execute", "sample/transfer_client/transfer_client.c")],
  "The real servers run on the real CoAP server over a simulated network and file; the real clients get every answer from a stand-in for the CoAP client.")
