def P(id, title, statement, over, qtext, why, files, mech, observe, technique, level_note):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=observe, hook_needed=None),
                technique=technique, level_note=level_note)

COMMON_TESTS = ("The repository's tests replay about a hundred fixed captures with one or two fixed segmentations; "
                "the guarantee is over all segmentations, interleavings and fault points, of which they sample a handful.")
LN = ("Seeded search over simulated histories: a clean batch is evidence, not proof. The whole htp crate runs for real; both endpoints, "
      "the network, the clock and the application are simulated. Trusts the reference model in sim/src/wire.rs and the recorder in sim/src/rec.rs. ")

PROPS = [
 P("C01", "Metadata is reported exactly, whatever the segmentation and interleaving",
   "For every well-formed sequence of HTTP/1.x exchanges on a connection, however the two byte streams are cut into data chunks and however the chunks of the two directions interleave, the parser reports exactly one transaction per exchange, in order, carrying exactly the request line, URI parts, host and port, credentials, headers, trailers, body framing, status line and response headers that were sent. None is lost, invented, altered or mixed with another message, empty lines in front of a message are skipped and counted, a request is marked as having a head in several chunks exactly when it had, and no anomaly is flagged on clean traffic.",
   ["inputs", "schedules", "configurations"],
   "all well-formed request/response sequences, all segmentations of both streams, all causally possible interleavings (pipelining depth, early responses, interim responses), all server personalities and settings that do not change meaning",
   COMMON_TESTS,
   ["src/request.rs", "src/response.rs", "src/headers.rs", "src/connection_parser.rs", "src/transaction.rs", "src/parsers.rs", "src/uri.rs"],
   [("line and header buffering across data chunks", "src/request.rs, src/response.rs"), ("incremental header parser", "src/headers.rs"), ("transaction list", "src/transactions.rs")],
   ["lifecycle callbacks", "Transaction fields", "ConnectionParser::tx, tx_size"],
   "seeded schedules of segmentation and two-direction interleaving against a reference model of the conversation",
   LN),
 P("C02", "Bodies are delivered byte-exact and complete, with exact lengths",
   "For every message body, with a declared length, chunked or ended by connection close, plain or content-coded (gzip, deflate, zlib-wrapped deflate, LZMA, stacked codings), the concatenation of the body-data callbacks of its transaction is exactly the body the sender encoded, once, in order, with no gap reported, however it was segmented. Message and entity lengths equal the bytes on the wire and the bytes delivered, and a request body's end is signalled after all of its data.",
   ["inputs", "schedules", "configurations"],
   "all bodies, framings, content codings and coding stacks, all segmentations and interleavings, decompression on or off per direction",
   COMMON_TESTS,
   ["src/request.rs", "src/response.rs", "src/decompressors.rs"],
   [("identity, chunked and close-delimited body states", "src/request.rs, src/response.rs"), ("decompressor chain", "src/decompressors.rs")],
   ["request_body_data / response_body_data callbacks", "message and entity length fields"],
   "seeded schedules against the sender's plain text",
   LN + "Known finding: an LZMA layer that decodes to more than 8192 bytes is lost (known-findings.txt)."),
 P("C04", "Each transaction's callbacks fire in protocol order, exactly once",
   "For every complete exchange, each stage callback (request start, URI normalisation, line, headers, trailer for chunked bodies, complete; response start, line per interim and final response, headers, trailer for chunked bodies, complete; transaction complete) fires exactly once per transaction, in that order in its direction, with transaction complete last. Body data only arrives between the headers and the completion of its message, transactions start in order, and the progress visible inside a callback matches the stage announced.",
   ["inputs", "schedules", "configurations"],
   "all well-formed conversations, segmentations and interleavings",
   COMMON_TESTS,
   ["src/connection_parser.rs", "src/request.rs", "src/response.rs", "src/hook.rs"],
   [("state transition functions that run the hooks", "src/connection_parser.rs")],
   ["all registered callbacks"],
   "seeded schedules; order and multiplicity automaton over the recorded callback history",
   LN),
 P("C03", "Responses are paired with the requests they answer",
   "Whatever the pipelining depth, interleaving and segmentation, the n-th response on a connection is reported in the transaction of the n-th request. This includes requests with a Content-Length whose body is never sent because of a final 4xx response to Expect: 100-continue (in any case), refused CONNECTs, interim responses, responses that overtake the end of their request, and responses nobody asked for (which get a transaction of their own). The pipelining flag of the connection is set exactly when a request completed before the response to the previous one.",
   ["inputs", "schedules"],
   "all sequences of such exchanges, all interleavings and segmentations",
   COMMON_TESTS,
   ["src/connection_parser.rs", "src/transactions.rs", "src/request.rs", "src/response.rs"],
   [("request and response indices of the transaction list", "src/transactions.rs"), ("CONNECT and 100-continue handling", "src/request.rs, src/response.rs")],
   ["Transaction fields of both sides", "ConnectionParser::conn.flags"],
   "seeded schedules with deep pipelines against a reference model of the conversation",
   LN + "CONNECT data beyond the request is only sent before the answer in C06 and C10."),
 P("C05", "A callback's verdict controls its own direction, and nothing else",
   "A callback that answers DECLINED changes nothing. A callback that answers STOP or ERROR (other than the request_start, raw header-data and end-of-body callbacks, whose verdict is ignored by design) makes the current call and all later data calls of that direction answer STOP or ERROR, with no further callback from that direction; inside a coded body either verdict is answered with ERROR, unless the call completes the message. Everything reported before is as if nothing had happened, and the other direction goes on reporting the same things.",
   ["fault_sequences", "schedules", "inputs"],
   "every callback of every history, every verdict, all segmentations and interleavings",
   "Tests register at most one failing callback on one capture; the guarantee is over every callback position.",
   ["src/hook.rs", "src/connection_parser.rs", "src/request.rs", "src/response.rs"],
   [("hook runners", "src/hook.rs"), ("status of each direction", "src/request.rs request_data, src/response.rs response_data")],
   ["return value of request_data/response_data", "callbacks"],
   "seeded callback faults, differential against the same schedule without the fault",
   LN + "Verdicts that reach the stream through a decompressor, or that answer the end-of-body signal, are only checked for the prefix."),
 P("C06", "Flow control is honest: every byte is consumed once or asked for again",
   "A data call answered DATA has consumed the whole chunk. One answered DATA_OTHER, which only happens where a CONNECT waits for its answer or the answer has ended (or once more, at the end of the next answer), has consumed exactly the reported part: when the rest is handed over again after the other direction has moved, the conversation is reported exactly as if it had never been deferred, and the parser always makes progress until everything is consumed. The connection's byte counters equal the bytes handed over in each direction, and its addresses and its opening and closing times are those the application gave.",
   ["schedules", "inputs"],
   "all conversations with CONNECT requests accepted or refused, pipelined data behind them, all segmentations and re-offer orders",
   COMMON_TESTS,
   ["src/connection_parser.rs", "src/request.rs", "src/response.rs", "src/connection.rs"],
   [("DATA_OTHER handshake between the two parsers", "src/connection_parser.rs request_parser_check_waiting, src/request.rs request_connect_wait_response")],
   ["return value of request_data/response_data", "request_data_consumed/response_data_consumed", "ConnectionParser::conn counters"],
   "seeded schedules of deferred and re-offered chunks against a reference model",
   LN),
 P("C07", "Field limits bound memory and never clip a message that respects them",
   "Every start line, header field and trailer field not longer than the configured field limit is accepted and reported exactly, however it is cut. A peer that sends an endless line, field or folded header is refused (ERROR) or treated as body data, and whatever is sent, for however long, the memory the parser holds stays within a small multiple of the limit. Bodies of any length stream through without being accumulated.",
   ["inputs", "schedules", "configurations"],
   "all limits, all positions of the long element in either direction, all segmentations down to single bytes, streams of any length",
   "Memory growth and off-by-one refusals depend on the limit, the cut points and what is buffered at that moment; tests use one limit and one cut.",
   ["src/connection_parser.rs", "src/request.rs", "src/response.rs"],
   [("buffering against the limit", "src/connection_parser.rs check_request_buffer_limit, check_response_buffer_limit"), ("line and header buffering", "src/request.rs, src/response.rs")],
   ["return values", "callbacks", "bytes live in the allocator after each call"],
   "seeded schedules with oversized elements; reference model for what must be accepted, simulated allocator accounting for the memory bound",
   LN),
 P("C08", "Long-lived connections use bounded memory and bounded transactions",
   "On a connection that carries any number of exchanges, with automatic destruction of completed transactions or with the application removing them, the number of live transactions never exceeds those in flight and the memory held between exchanges does not grow with the number of exchanges. With a limit on transactions set, that many may be outstanding, and one more is refused with ERROR, never accepted.",
   ["histories", "schedules", "configurations"],
   "all sequences of exchanges, pipelining depths, segmentations and transaction limits",
   "A leak per transaction needs long histories, and depends on how the transaction ended and who released it.",
   ["src/transactions.rs", "src/connection_parser.rs", "src/transaction.rs", "src/request.rs", "src/response.rs"],
   [("release of completed transactions", "src/transactions.rs, src/transaction.rs finalize"), ("transaction limit", "src/config.rs max_tx")],
   ["bytes live in the allocator", "ConnectionParser::tx_size", "return values"],
   "seeded long histories with allocator accounting; outstanding transactions from the reference model",
   LN),
 P("C10", "Tunnels are recognised at once and their bytes are never parsed",
   "After a 101 response without body, or after an accepted CONNECT once the client's first bytes are not an HTTP request, both directions answer TUNNEL from the first tunnel byte on, no callback fires for tunnel bytes, and the exchange that opened the tunnel and all before it are reported exactly. If the bytes inside an accepted CONNECT are HTTP requests, they are parsed as further transactions of the connection.",
   ["inputs", "schedules"],
   "all tunnel contents (including bytes that look like HTTP), all segmentations and interleavings, clients that wait for the answer and clients that do not",
   COMMON_TESTS,
   ["src/request.rs", "src/response.rs"],
   [("CONNECT probe and wait states", "src/request.rs"), ("101 handling", "src/response.rs response_body_determine")],
   ["return value of request_data/response_data", "callbacks"],
   "seeded schedules against a reference model of when the tunnel opens",
   LN + "A server that speaks first inside a CONNECT tunnel is outside the claim: its bytes are taken for more of the response until the client speaks, by design."),
 P("C11", "Bytes lost inside a body are reported as a gap of that size, in place",
   "When the network loses bytes inside a body of known length or ended by close, the body callbacks report gaps that add up to exactly the lost length at exactly that position, the rest of the body and everything else on the connection is reported exactly, the message length counts the lost bytes, and the transaction is flagged as missing bytes in that direction and only then. A loss that runs past the end of a message is reported in its body only up to that end. A loss inside a start line, header block or chunked body is never answered DATA and never reported as body. The connection's byte counters include lost bytes.",
   ["fault_sequences", "inputs", "schedules"],
   "all positions and lengths of losses inside bodies, several per body, delivered in pieces, in both directions",
   "Tests feed three fixed gaps.",
   ["src/request.rs", "src/response.rs", "src/connection_parser.rs"],
   [("gap handling in body states", "src/request.rs request_body_identity, src/response.rs response_body_identity_*")],
   ["body data callbacks with gaps", "message length and flags of the transaction"],
   "seeded loss of byte ranges against a reference model",
   LN + "For content-coded bodies the gap is checked, not what the decompressor makes of the rest."),
 P("C12", "Connections that break off are reported as far as they got",
   "When the connection is closed (or the client half-closes and it is closed later) at any byte of either stream, every message and message part that had arrived is reported exactly: complete exchanges completely, complete start lines and header blocks, the fields that had arrived of an unfinished header block or trailer, and of an unfinished body exactly the bytes that arrived (for coded bodies a prefix of the plain text). A body ended by close completes at the close. Nothing is invented, callbacks keep their order, and with flushing of incomplete transactions enabled every started transaction completes exactly once, also when a callback had ended one direction before. Transactions stay available after the close unless they are destroyed automatically, in which case none that was flushed is left.",
   ["crash_points", "schedules", "inputs"],
   "all pairs of break-off points, all segmentations and interleavings",
   COMMON_TESTS,
   ["src/connection_parser.rs", "src/request.rs", "src/response.rs"],
   [("close and flush", "src/connection_parser.rs close, flush_incomplete_transactions")],
   ["callbacks", "ConnectionParser::tx_size"],
   "seeded truncation of both streams against a reference model of what had arrived",
   LN + "The beginning of a start line after a complete message may be reported as surplus data of that message."),
 P("C14", "Raw header and trailer callbacks carry exactly the bytes on the wire",
   "For every complete exchange, however segmented, the concatenation of the raw header-data callbacks of a message is exactly the bytes of its header block (after the start line, including the empty line that ends it, interim responses included), and likewise for the raw trailer-data callbacks. No byte is duplicated, skipped or taken from elsewhere in the stream.",
   ["inputs", "schedules"],
   "all well-formed conversations, segmentations and interleavings",
   COMMON_TESTS,
   ["src/connection_parser.rs", "src/request.rs", "src/response.rs"],
   [("data receiver hook and callback position in the current chunk", "src/connection_parser.rs ParserData, request/response_receiver_*")],
   ["request_header_data, request_trailer_data, response_header_data, response_trailer_data callbacks"],
   "seeded schedules; byte comparison with the wire",
   LN),
 P("C16", "Moving the parser in memory between calls changes nothing",
   "A connection parser is an ordinary value: the application may move it between any two calls (a table of connections grows, a queue is compacted). Every history with moves at any points is callback for callback, byte for byte and status for status the same as without them, also while content-coded bodies are being decoded, and never touches the memory the parser left.",
   ["schedules", "inputs", "fault_sequences"],
   "all conversations and segmentations, moves before any call, old memory overwritten after each move",
   "Tests keep one parser in one place; which moves hurt depends on what is half-received at that moment.",
   ["src/request.rs", "src/response.rs", "src/decompressors.rs", "src/connection_parser.rs"],
   [("decompressor callback into the parser", "src/request.rs request_prepend_decompressor, src/response.rs response_prepend_decompressor")],
   ["all callbacks", "memory safety"],
   "seeded relocation faults (old location poisoned), against the model and differential against the unmoved run",
   LN),
 P("C18", "No input and no fault sequence crashes, hangs or confuses the parser",
   "Whatever bytes arrive in either direction, however cut, lost, repeated or late, with whatever limits configured and whatever verdicts the callbacks return, every call returns without panic, overflow, crash or endless loop and never reports more bytes consumed than it was given, DATA only when it consumed everything, DATA_OTHER only when something is left. After a data call answered ERROR, STOP or TUNNEL that direction answers the same and calls nothing back until the connection is closed. Nothing is invented: without decoding, body and raw header bytes reported never exceed those received, and until the application stops the parser each transaction starts at most once per direction, in order.",
   ["inputs", "schedules", "fault_sequences", "configurations"],
   "mutated, spliced and random byte streams in both directions, all segmentations and interleavings, losses anywhere, empty chunks, half-closes, data after close, transactions destroyed by the application, callback verdicts, extreme limits, slow clocks",
   "Tests cannot enumerate hostile traffic; crashes hide in combinations of malformed input, cut points and faults.",
   ["src/request.rs", "src/response.rs", "src/headers.rs", "src/parsers.rs", "src/connection_parser.rs", "src/decompressors.rs", "src/uri.rs", "src/util.rs", "src/urlencoded.rs"],
   [("parser loops and their status handling", "src/request.rs request_data, src/response.rs response_data")],
   ["return values, consumed counters, callbacks, process survival"],
   "seeded adversarial streams and fault sequences, invariants checked over every history, built with overflow and debug assertions",
   LN + "Callback order within a transaction is only promised for well-formed traffic (C04)."),
 P("C09", "Decoding is bounded: layers, output and time stay within the limits set",
   "With limits on decompression layers, LZMA layers and memory, bomb size and ratio, and decoding time: exactly the permitted layers are removed and the remaining ones passed on untouched; output that respects the limits is delivered in full; once the decoded output exceeds both the size limit and the ratio the direction stops with ERROR, having delivered no more than the limit plus one output buffer; once decoding a body has taken longer than the time limit, later chunks of that body are passed through undecoded; an LZMA layer that needs more memory than its limit is not decoded, one that needs no more is. Too many layers and decoding given up are logged when and only when they occur. Time spent on one message, clock jumps and waiting never count against another message.",
   ["inputs", "configurations", "schedules", "fault_sequences"],
   "all coding stacks up to 12 layers, all limits including 0 and 1, highly compressible bodies, slow callbacks at any point, wall-clock jumps in both directions, all segmentations, both directions",
   "The limits act on sums over many calls, on elapsed time and on clock steps; tests use one small bomb and no clock.",
   ["src/decompressors.rs", "src/request.rs", "src/response.rs", "src/config.rs"],
   [("bomb and time limit", "src/connection_parser.rs and src/request.rs, src/response.rs decompressor callbacks"), ("layer limits", "src/request.rs request_initialize_decompressors, src/response.rs response_initialize_decompressors")],
   ["body data callbacks", "return values", "bytes live in the allocator"],
   "seeded coding stacks, bombs and slow decoders under a simulated clock, against an arithmetic model of the limits",
   LN + "Known finding: the time limit is only looked at between chunks (known-findings.txt)."),
 P("C13", "Connections do not influence each other",
   "What a connection reports (statuses, callbacks, their data, and the transactions as they appear inside the callbacks) depends only on its own configuration and the calls made on it. Any number of connections, sharing one configuration, carrying well-formed, malformed or lossy traffic, created, interleaved and dropped in any order, at any time of day, each report exactly what they report alone.",
   ["schedules", "histories", "inputs", "fault_sequences"],
   "all interleavings of calls on two to four connections, verdict faults on one of them, losses, clock jumps, early drop of connections",
   "Needs several connections interleaved at points where each is half-way through something; tests run one connection at a time.",
   ["src/connection_parser.rs", "src/connection.rs", "src/config.rs", "src/hook.rs", "src/transactions.rs"],
   [("per-connection state", "src/connection_parser.rs ConnectionParser"), ("configuration shared by reference", "src/config.rs")],
   ["all callbacks", "return values"],
   "seeded interleaving of several simulated connections, differential against each one alone",
   LN),
 P("C15", "Logging observes and never interferes, and the level filters exactly",
   "Whatever traffic and faults a connection sees, the chosen log level and how often the application reads the log change no status, no callback and no transaction. The messages available at a level are exactly those of that level or more severe among all messages, in order, each delivered once, carrying the addresses of their connection.",
   ["configurations", "inputs", "schedules"],
   "all log levels and reading patterns, well-formed and hostile traffic, all segmentations, verdict faults",
   "Tests look at single messages at one level.",
   ["src/log.rs", "src/connection.rs"],
   [("logger and its channel", "src/log.rs Logger, src/connection.rs get_logs")],
   ["Connection::get_logs", "all callbacks", "return values"],
   "seeded schedules, differential between log levels and reading patterns",
   LN + "Known finding: the callback registered with Config::register_log is never called (known-findings.txt)."),
 P("C17", "The C interface shows exactly what the Rust interface shows",
   "Driving a parser through the exported C functions (configuration, open, data, gap, close, destroy) gives the same statuses, consumed counts and callbacks, in the same order with the same data, as driving it through the Rust interface with the same settings. At every callback and after every call every C getter of a transaction, its headers, URI, connection and log returns what the Rust object holds, with the documented sentinel for absent values, and header look-ups by name find the same header. Every string it hands out is seen the same by the C string functions (pointer, length, size, copies, comparisons).",
   ["inputs", "schedules", "configurations", "fault_sequences"],
   "all traffic (well-formed, tunnels, hostile, lossy), all segmentations, all settings reachable from C, verdicts from C callbacks",
   "There are about 150 exported functions over all states of a transaction; tests call each of a few once.",
   ["src/c_api/connection_parser.rs", "src/c_api/transaction.rs", "src/c_api/config.rs", "src/c_api/header.rs", "src/c_api/uri.rs", "src/c_api/log.rs", "src/c_api/bstr.rs"],
   [("exported functions", "src/c_api/*.rs")],
   ["C getters", "C callbacks", "return values"],
   "seeded schedules, differential between the two interfaces with audits inside callbacks",
   LN + "Null arguments are outside the claim."),
 P("C23", "Anomalies are flagged on exactly the transaction concerned",
   "When one message of a conversation is malformed in a way the parser documents a flag for (ambiguous or conflicting length and host, repeated or folded headers, missing colons, invalid names, numbers, hosts, encodings, authorisation, protocol, status or content type), its transaction carries that flag, the damaged header its header flag, and the transaction the status that the configuration says a server answers to it, whatever the segmentation. No other transaction is flagged, the surrounding and following exchanges are reported as if nothing had happened, and values that are still readable are reported.",
   ["inputs", "schedules", "configurations"],
   "every catalogued anomaly in either direction at any place of a conversation, all segmentations and interleavings",
   "Tests show single anomalies in single messages delivered whole; evasion hides in anomaly, position and cut point combined.",
   ["src/request.rs", "src/response.rs", "src/headers.rs", "src/parsers.rs", "src/transaction.rs", "src/util.rs"],
   [("flags", "src/util.rs HtpFlags, src/transaction.rs process_request_headers, src/request.rs process_request_header, src/response.rs process_response_header"), ("header flags", "src/headers.rs HeaderFlags")],
   ["Transaction::flags", "Header::flags", "all callbacks"],
   "seeded anomalies placed in simulated conversations, against the reference model",
   LN),
 P("C19", "Form parameters do not depend on how the form was cut",
   "For every url-encoded form, well-formed or not, fed to the streaming parser in any pieces, the parameters are exactly the name/value pairs of the form in order, decoded as configured, each available as soon as the separator after it has arrived and the last one at the end; flags and expected server status are those the settings define, and what one field raised is not withdrawn by a later one. With parsing enabled, the query of each request yields exactly its parameters, once, while that request is being read, whatever the segmentation of the connection; a parameter processor that answers STOP or ERROR is heard: it gets no further parameter and the client's direction ends there.",
   ["inputs", "schedules", "configurations"],
   "all forms (well-formed and malformed), all cut points including between escape digits, empty pieces, separators and decoder settings, queries of all requests of a conversation, processors that refuse any one parameter",
   "Tests parse a few dozen strings, cut at one or two places.",
   ["src/urlencoded.rs", "src/transaction.rs", "src/request.rs"],
   [("streaming parser", "src/urlencoded.rs Parser::parse_partial, finalize"), ("query parameters", "src/transaction.rs add_param")],
   ["Parser::params, flags, response_status_expected_number", "Config::parameter_processor"],
   "seeded cut points and processor faults against a reference decoder, and differential against the uncut form",
   LN),
 P("C20", "Header and trailer blocks mean the same however malformed and however cut",
   "For every header or trailer block of a request or response, well-formed or not (line ends of any kind, folded values and names, lines without colon, empty names, white space around names, NUL, control and 8-bit bytes, repeated names), and wherever the network cuts it: the fields are exactly those the parser's lenient rules define, in order, with their values, folding and repetition; each malformed field is flagged with its kind on the field and on its transaction, warned about once per kind, and raises nothing on other transactions; the raw block is handed over byte for byte; no block stops the parsing of what follows it. A line without colon is a field with an empty name; a folded line of a response that begins with a name and a colon is a field of its own. Response lines with a bare CR inside the field name are outside this claim; a block that ends early (an empty line) ends there.",
   ["inputs", "schedules", "histories"],
   "all header and trailer blocks over an alphabet of structural bytes, all cut points, requests and responses with all framings, pipelining, what earlier blocks on the connection contained",
   "Tests parse some hundred blocks whole; the parser is a streaming one that must decide with what has arrived (is this line folded? is this end of line deformed? is this a name?), so every cut is a different path.",
   ["src/headers.rs", "src/request.rs", "src/response.rs"],
   [("grammar", "src/headers.rs Parser"), ("request fields", "src/request.rs request_headers, parse_request_headers, process_request_header"), ("response fields", "src/response.rs response_headers, parse_response_headers, process_response_header")],
   ["Transaction::request_headers, response_headers (name, value, flags), flags; logs; header and trailer data callbacks"],
   "seeded blocks and cut points against an executable reference reader",
   LN),
 P("C21", "A damaged coded body is contained",
   "When a content-coded body is damaged in transit, is garbage from some point on, or was never coded as labelled, neither direction fails and everything else is reported exactly: all other bodies, all headers and trailers, the pairing and the message length on the wire of the damaged one. The entity length equals the bytes delivered, the end of a request body is still signalled after its data, and a body that no decoder can take for its own is passed on exactly as sent.",
   ["fault_sequences", "inputs", "schedules"],
   "flipped bits at any place of any layer, garbage tails, mislabelled bodies, all codings and stacks, framings, segmentations and interleavings, in both directions",
   "Tests use one or two damaged captures in one segmentation; what a decoder holds when it fails depends on the cut.",
   ["src/decompressors.rs", "src/request.rs", "src/response.rs"],
   [("restart and pass-through of failing decoders", "src/decompressors.rs InnerDecompressor")],
   ["body data callbacks", "return values", "Transaction fields"],
   "seeded corruption of coded bodies against the reference model",
   LN + "What a damaged stream decodes to is not specified, except for bodies that no decoder accepts."),
 P("C22", "Chunked bodies mean the same however malformed and however cut",
   "For every chunked request or response body, well-formed or not, and wherever the network cuts it: sizes may have leading white space and zeros and anything behind them; a size line with an extension (a semicolon) is warned about, once per line; what stands between the data of a chunk and the end of its line is ignored; empty lines before a size are skipped (in a request only bare LF); the body is exactly the data of the chunks, up to the chunk of size zero, and its message and entity lengths are exact. A size that is none, or too large for a chunk, in a request is logged once and refused with an error in the chunk that shows it, with everything before it reported; in a response a size that is none is logged once and the line and everything behind it until the connection closes is body, byte for byte, while a line with a number over 2^31-1 is skipped. No such body affects other transactions.",
   ["inputs", "schedules"],
   "all chunked framings over an alphabet of structural bytes, all cut points, both directions, pipelining",
   "Tests feed a dozen malformed chunked bodies in one piece; what has been held back of a size line when it turns out to be none depends on the cut.",
   ["src/request.rs", "src/response.rs", "src/parsers.rs", "src/util.rs"],
   [("size lines", "src/parsers.rs parse_chunked_length; src/util.rs take_chunked_ctl_chars, is_chunked_ctl_char, hex_digits"), ("requests", "src/request.rs request_body_chunked_length, request_body_chunked_data, request_body_chunked_data_end"), ("responses", "src/response.rs response_body_chunked_length, response_body_chunked_data, response_body_chunked_data_end")],
   ["body data callbacks, return values, message and entity lengths, logs"],
   "seeded chunked framings and cut points against an executable reference model",
   LN),
 P("C24", "Every registered consumer hears every event, in order of registration",
   "With several callbacks registered for the same event, each event is passed to each of them exactly once, in the order of registration (those of the transaction before those of the configuration), with the same transaction and data, until one answers STOP or ERROR, after which the rest are not called for that event. A body callback registered on a transaction hears that transaction's body from then on and no other's. User data attached to a connection or a transaction is found unchanged in every later callback of it and nowhere else.",
   ["histories", "schedules", "fault_sequences", "configurations"],
   "one to three consumers with arbitrary subsets of the callbacks, registered through either hook style, callbacks added to transactions at any stage, verdicts at any callback, well-formed and hostile traffic, all segmentations",
   "Tests register one callback per event and attach user data in one place.",
   ["src/hook.rs", "src/config.rs", "src/transaction.rs", "src/request.rs", "src/response.rs", "src/connection_parser.rs"],
   [("hook lists", "src/hook.rs Hook::run_all"), ("transaction hooks", "src/transaction.rs register_request_body_data, register_response_body_data"), ("user data", "src/transaction.rs, src/connection_parser.rs set_user_data")],
   ["callbacks of all consumers", "user_data"],
   "seeded registrations and verdicts; the recorded history of all consumers is replayed against the registration order",
   LN + "After a consumer stopped a direction, closing the connection resumes parsing by design and may start a fresh transaction; user data is not checked there."),
 P("C25", "Request targets are split and normalised exactly as configured",
   "For every request target, every server personality and every decoder setting, however the request is cut and whatever surrounds it on the connection: the parts of the target (scheme, username, password, hostname, port and port number, path, query, fragment) are those of the grammar; the normalised path, and the complete and partial normalised URIs (with or without double decoding, or with an application's own normalisation in their place), are exactly those the settings define; the path, UTF-8, NUL, separator and host flags, the expected server status, and the double-encoding warnings are raised when and only when the target calls for them, on the transaction concerned; and the query yields exactly its decoded parameters. Targets that begin with a scheme but have no authority are outside this claim; with %u decoding off, %u sequences stay as they are and are not flagged; under Apache 2 a NUL ends the request line.",
   ["inputs", "configurations", "schedules"],
   "all byte strings as targets (escapes of every kind including malformed, overlong and double ones, dot segments, separators, UTF-8 good and bad, credentials, ports), all personalities and decoder settings, all segmentations, any application normalisation hook",
   "Tests fix a few dozen targets under a few settings, in one piece; the settings interact (case folding, separator conversion, best-fit mapping, UTF-8 conversion, double decoding, termination at NUL).",
   ["src/uri.rs", "src/parsers.rs", "src/utf8_decoder.rs", "src/unicode_bestfit_map.rs", "src/util.rs", "src/transaction.rs", "src/config.rs"],
   [("splitting", "src/parsers.rs parse_uri and its parts; src/transaction.rs parse_request_line, normalize_parsed_uri"), ("decoding", "src/uri.rs Uri::normalized_path, src/util.rs/src/urlencoded.rs decode; src/utf8_decoder.rs"), ("complete URI", "src/transaction.rs complete_normalized_uri, src/uri.rs generate_normalized_uri"), ("presets", "src/config.rs set_server_personality")],
   ["Transaction::request_uri, parsed_uri, parsed_uri_raw, complete_normalized_uri, partial_normalized_uri, flags, response_status_expected_number, logs"],
   "seeded targets, settings and schedules against an executable reference model of splitting and decoding",
   LN),
 P("C26", "HTTP/0.9 exchanges are one request line and everything until close",
   "A first request line without a protocol is an HTTP/0.9 request that is complete with its line, reported with its method and URI and protocol 0.9. The server's bytes, whatever they look like and however they are cut, are delivered exactly as the response body of that one transaction, without status line or headers, which completes when the connection is closed. Further client bytes invent no transaction and no body and are flagged on the connection, and only then. White space of up to 16 bytes in the segment that ends the line changes nothing and is handed over as surplus of that request; anything else there makes the line that of a request with headers, whose missing protocol is warned about once and whose header block is read as ever. Bytes of the answer the capture lost are reported as a gap in its place and counted in its message length.",
   ["inputs", "schedules"],
   "all such request lines, all response contents (including bytes that look like HTTP), surplus client data, half-closes, all segmentations and interleavings",
   COMMON_TESTS,
   ["src/request.rs", "src/response.rs"],
   [("protocol decision", "src/request.rs request_protocol, request_ignore_data_after_http_0_9"), ("close-delimited body", "src/response.rs response_body_identity_stream_close")],
   ["callbacks", "Transaction fields", "ConnectionParser::conn.flags"],
   "seeded schedules against the reference model",
   LN + "Surplus client data arrives in a chunk of its own: what shares a chunk with the request line takes part in the protocol decision, by design."),
 P("C27", "Start lines mean the same however malformed and however cut",
   "For every request line and status line, well-formed or not, under every server personality, and wherever the network cuts it: its parts (method, target, protocol; protocol, status, message) and their numbers (method class, protocol version, status code between 100 and 999) are exactly those of the parser's lenient rules (white space of any kind before, between and behind the parts; with spaces allowed in targets the last space ends the target, else the first; leading white space belongs to the method only when it is configured to be unwanted; a NUL ends the request line under Apache 2; protocols in any case, with white space and leading zeros), each deviation is warned about exactly once and flagged (an invalid protocol or status code on that transaction), leading white space gives the configured expected status, empty lines in front of a line are counted and skipped, and what follows the line is unaffected. Request lines without a protocol are C26's; unknown methods are claimed for the first request of a connection only, because behind another request they are taken for surplus body data; status lines are those that begin with http in any case.",
   ["inputs", "schedules", "configurations"],
   "all request and status lines over pieces of all kinds, all personalities and settings, all cut points, pipelining",
   "Tests fix some dozens of lines in one piece; a line can be cut anywhere, also inside its line end and inside the look-ahead of the previous message.",
   ["src/request.rs", "src/response.rs", "src/parsers.rs", "src/util.rs"],
   [("request lines", "src/request.rs request_line, request_line_complete, parse_request_line"), ("status lines", "src/response.rs response_line, response_line_complete, parse_response_line, response_finalize"), ("numbers", "src/parsers.rs parse_protocol, parse_status; src/request.rs HtpMethod::new")],
   ["Transaction::request_line, request_method, request_uri, request_protocol, response_line, response_status, response_message and their numbers, flags, logs"],
   "seeded start lines and cut points against an executable reference reader",
   LN),
 P("C28", "Framing, host, type and credentials follow from the fields as specified",
   "For every value of the header fields the parser itself acts on, and wherever the network cuts them: the transfer coding, content length, hostname and port, content type, credentials and content coding of a message are exactly those its fields give by the parser's rules. NULs in names and coding words do not count; a length is the first number in its field, rubbish around it is warned about, a repeated length counts once and is warned about when it differs; a coding containing chunked wins over a length; HEAD, 1xx, 204 and 304 responses have no body unless framed (HEAD: never), an unframed 101 starts a tunnel, and an unframed 100 (or one of length zero) is interim; without framing a response lasts until close. A request with an unusable length or coding and a response with an unusable length or an unframed multipart/byteranges body are refused with an error. Smuggling (length with coding, repeated or, in requests, folded length, chunked before HTTP/1.1), invalid framing, missing, invalid (not a host with an optional port) and ambiguous host, and invalid credentials are flagged when and only when the fields call for it, on the transaction concerned; bodies and all other transactions are unaffected.",
   ["inputs", "schedules", "configurations"],
   "all values over pieces of all kinds, repeated and folded, all methods, protocols and status codes that change the framing, absolute and relative targets, pipelining, all cut points",
   "Tests fix one value per rule in one piece; the rules interact (repetition, folding, coding and length, method and status, target and Host) and decide how all following bytes are read.",
   ["src/transaction.rs", "src/request.rs", "src/response.rs", "src/parsers.rs", "src/util.rs", "src/bstr.rs"],
   [("requests", "src/transaction.rs process_request_headers; src/request.rs process_request_header, request_body_determine"), ("responses", "src/response.rs response_body_determine, process_response_header, response_initialize_decompressors"), ("values", "src/parsers.rs parse_content_length, parse_content_type, parse_hostport, parse_authorization; src/util.rs validate_hostname, convert_port; src/bstr.rs nocase_nozero")],
   ["Transaction::request_transfer_coding, request_content_length, request_hostname, request_port_number, request_content_type, request_auth_*, response_*, flags, logs, return values"],
   "seeded fields and cut points against an executable reference model",
   LN + "CONNECT and Expect are C03's and C10's; what codings decode to is C02's."),
P("C29", "Bytes behind a message are its surplus or begin the next, never lost",
   "For every sequence of messages and lines, and wherever the network cuts them: the bytes that follow the end of a message in the same segment are given to the consumer as body data of that message, whole, in order and before its completion, as long as they cannot begin the next one (a request line whose first word is no known method or which is blank; a response line that does not begin with http in any case), and count in its lengths; the first line that can begin the next message does so, complete with what was buffered of it, so that all following exchanges are paired and read as if the surplus had not been there. An unterminated line is judged when the connection closes. Every message with an unexpected body is warned about, and no other.",
   ["inputs", "schedules", "configurations"],
   "all mixtures of blank lines, rubbish, almost methods and almost status lines behind messages of all framings, pipelining, all cut points but the exact end of a message",
   "Tests hold one surplus line in one piece; the decision is taken on buffered, cut and restored lines, and an error loses or doubles bytes or moves a request into the body of another (request smuggling).",
   ["src/request.rs", "src/response.rs", "src/util.rs"],
   [("requests", "src/request.rs request_finalize, handle_request_absent_lf"), ("responses", "src/response.rs response_finalize, handle_response_absent_lf; src/util.rs treat_response_line_as_body")],
   ["request_body_data, response_body_data, *_complete callbacks", "Transaction::request_message_len, request_entity_len, response_*", "logs"],
   "seeded surplus lines and cut points against an executable reference model",
   LN + "A segment that ends exactly where a message ends completes that message (C01); a bare LF right behind the empty line that ends a response head or trailer is read as part of it."),
 P("C30", "A decoding choice made in a headers callback holds for that message alone",
   "A consumer may decide, in the request or response headers callback, how the body of that message is processed, after looking at its fields and the content coding the parser found in them. If it chooses none, the body reaches the callbacks exactly as sent (unchunked); if it chooses the decoder the message names, the body is decoded, also where decoding is disabled by the configuration; if it chooses nothing the configuration decides. The choice takes effect for that message only, in that direction only, whatever the segmentation, the interleaving of the two directions and the transactions around it, and everything else that is reported (lengths, order, end of body, the following messages) is as without it.",
   ["inputs", "schedules", "configurations"],
   "all codings and framings in both directions, any choice on any message of a conversation, all segmentations and interleavings",
   "Tests never make the choice; it has to survive the set-up of the decoders that follows, and not leak into the next message, the other direction, or the next transaction.",
   ["src/connection_parser.rs", "src/request.rs", "src/response.rs", "src/transaction.rs"],
   [("fields", "src/transaction.rs request_content_encoding_processing, response_content_encoding_processing"), ("set-up", "src/request.rs request_initialize_decompressors; src/response.rs response_initialize_decompressors")],
   ["request_body_data, response_body_data callbacks", "Transaction::request_entity_len, response_entity_len", "Transaction::*_content_encoding"],
   "seeded choices in callbacks and schedules against the byte-exact reference model of the conversation",
   LN + "Stacks of several codings are not chosen by a single value and are outside the claim."),
 P("C31", "A callback can always tell how far into the chunk the parser is",
   "Inside every callback, the number of bytes consumed of the current chunk, which the parser tells on request (htp_connp_request_data_consumed and htp_connp_response_data_consumed), is the position of what is announced: the first byte of the message in its start callback, the end of the request line, of the header block or of the message in the callbacks that announce these, the end of the data in raw header and trailer callbacks, the beginning of the piece in the callbacks of an undecoded body, and the start of the chunk for what ended in an earlier one. For any other traffic, hostile or lossy, it lies inside the chunk. What is told of the other direction is what its last chunk left, however the chunks of the two interleave.",
   ["inputs", "schedules", "faults"],
   "all well-formed conversations, segmentations and interleavings exactly; hostile streams with losses within bounds",
   "Tests read the counter after a call, where it is the whole chunk; inside callbacks it depends on how look-ahead is given back, on what was buffered from earlier chunks, and on where the chunk was cut.",
   ["src/connection_parser.rs", "src/request.rs", "src/response.rs", "src/c_api/connection_parser.rs"],
   [("counter", "src/connection_parser.rs request_data_consume, request_data_unconsume, response_data_consume, response_data_unconsume"), ("look-ahead", "src/request.rs request_finalize; src/response.rs response_finalize")],
   ["htp_connp_request_data_consumed, htp_connp_response_data_consumed inside callbacks"],
   "seeded schedules; the counter asked inside every callback against the positions in the generated streams",
   LN + "Only callbacks registered through C receive the parser; inside decoded bodies only the bound is claimed."),
 P("C32", "Calls that mean nothing are refused and change nothing",
   "At any point of any history an empty chunk (or an empty loss) is refused with CLOSED, or with the STOP or ERROR its direction already answers, and logged; opening the connection again is logged and changes neither its addresses nor anything else; removing a transaction that does not exist or is gone does nothing; asking for one that does not exist gives none; and looking at the active transactions shows those and starts none. Everything else (statuses, consumed counts, callbacks and their data, transactions, flags, byte counters and the other log messages) is exactly as if these calls had not been made.",
   ["inputs", "schedules", "faults"],
   "clean and hostile streams, losses, verdicts and destroyed transactions, with such calls between any two others",
   "Tests make such a call on a fresh parser, if at all; what it could disturb is half-read messages, look-ahead, deferred chunks and the pairing.",
   ["src/connection_parser.rs", "src/request.rs", "src/response.rs", "src/transactions.rs", "src/connection.rs"],
   [("empty chunks", "src/request.rs request_data; src/response.rs response_data"), ("opening", "src/connection_parser.rs open"), ("transactions", "src/transactions.rs remove, get, request, response")],
   ["HtpStreamState of the calls", "all callbacks", "Connection flags, addresses, counters, logs"],
   "differential simulation: the same seeded history with and without meaningless calls",
   LN + "A second close of the connection is not claimed: with flushing it reports the incomplete transactions again."),
]
NA = []
SETUP_NOTES = "No hooks in /repo: the simulator uses the public API, and owns the clock by defining clock_gettime in its own executable."
