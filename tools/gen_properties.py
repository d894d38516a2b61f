#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source text of every property lives here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe_at=None, hook_needed=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe_at: a["observe_at"] = [observe_at]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CL = "lib/src/coap_client.c"; SV = "lib/src/coap_server.c"; MS = "lib/src/coap_msg.c"; ME = "lib/src/coap_mem.c"

prop("C01", "A client exchange only ever returns the answer to its own request",
 "Whenever a client exchange reports success, the response handed to the caller is (code, options and payload unchanged) a message that the addressed server sent in answer to that very request: it carries that request's token, and if it is an acknowledgement it also carries that request's message ID. Late, duplicated or reordered responses to earlier requests, empty acknowledgements, resets, and messages with a different token or from another sender are never returned as the response, nor do they make the exchange fail; and two requests of one client never share a message ID while the server could still take one for a repetition of the other.",
 ["schedules", "inputs", "fault_sequences"], "every loss, duplication, reordering and delay of datagrams, every stale or foreign message, every sequence of exchanges on one client",
 "the tests run one exchange at a time over loopback where nothing is lost, late, duplicated or foreign",
 [CL], [("exchange state machine", "coap_client_exchange_con / _sep / _non"), ("token match", "coap_client_match_token")], "coap_client_exchange return and response")
prop("C02", "Confirmable requests follow the back-off schedule and stop when answered",
 "A confirmable request that gets no reply is retransmitted byte-for-byte unchanged at most 4 times: the first time 2 to 3 s after it was sent, and each further interval is twice the previous one; after the last interval the exchange fails with a timeout error. As soon as an acknowledgement, a reset or the response to that request has been received the request is never sent again, and non-confirmable requests are never retransmitted.",
 ["schedules", "fault_sequences"], "every pattern of lost or late replies, unrelated traffic arriving meanwhile, and every draw of the random initial timeout",
 "the tests never wait for a timeout: over loopback the first transmission is always answered",
 [CL], [("ack timer", "coap_client_start_ack_timer, coap_client_update_ack_timer"), ("retransmission", "coap_client_handle_ack_timeout")], "datagrams the client sends and their times")
prop("C03", "Every client exchange ends within a bounded time with a truthful result",
 "Whatever the network and the peer do, a client exchange returns within the protocol's time limits: 93 s for the acknowledgement phase of a confirmable request plus 30 s for a separate response, 30 s for a non-confirmable request. It returns a timeout error only when those limits really passed with no usable reply, a connection-reset error only when a reset for that request arrived, and success when a proper response arrived in time.",
 ["schedules", "fault_sequences", "inputs"], "all delivery schedules, silent or rejecting servers, streams of foreign messages",
 "bounded termination concerns executions where replies never come or unrelated messages keep arriving",
 [CL], [("listen loops", "coap_client_listen_ack, coap_client_listen_resp"), ("result mapping", "coap_client_exchange")], "return code and elapsed simulated time")
prop("C04", "The client acknowledges what it accepts and resets what it cannot match",
 "During an exchange the client answers every confirmable response it accepts with exactly one empty acknowledgement bearing that message's ID, and every other confirmable message it receives with exactly one empty reset bearing that message's ID. It never replies to acknowledgements, resets or non-confirmable messages.",
 ["schedules", "inputs", "fault_sequences"], "all orders and multiplicities of incoming messages, including malformed and critical-option messages",
 "the tests exchange with a well behaved server that never sends unmatched, malformed or repeated messages",
 [CL], [("accept/reject", "coap_client_handle_sep_response, coap_client_reject, coap_client_handle_format_error")], "datagrams sent by the client")
prop("S01", "Every valid request gets exactly one correctly addressed response",
 "For every well-formed request a server accepts, the response produced by the application is sent to the requesting endpoint only, with the request's token and the application's code, options and payload: as an acknowledgement with the request's message ID for a confirmable request, or, for paths configured for separate responses, as an immediate empty acknowledgement followed by a confirmable response with a message ID of its own, and as a non-confirmable message for a non-confirmable request. Apart from retransmissions of an unacknowledged separate response, the server sends nothing else in reply.",
 ["schedules", "inputs", "histories"], "all interleavings of requests from several clients, request kinds, tokens, paths and sizes",
 "tests use a single client, fixed tokens and in-order delivery",
 [SV], [("request handling", "coap_server_exchange")], "datagrams sent by the server and handler invocations")
prop("S02", "A duplicated request is executed once and answered consistently",
 "If the most recent request of a client is delivered again (same endpoint, same message ID), the application is not invoked a second time: a duplicate confirmable request gets the same reply again (the identical piggybacked response, or another acknowledgement when the response is separate) and a duplicate non-confirmable request gets none. This holds however many duplicates arrive, whatever other clients (within the server's capacity) or stray acknowledgements and resets do in between, until the server gives up on a separate response that is never acknowledged.",
 ["schedules", "histories", "fault_sequences"], "all numbers, delays and interleavings of duplicates with other clients' traffic and stray messages, including allocation failures in between",
 "the tests never duplicate a datagram",
 [SV], [("deduplication", "coap_server_trans_match_req, coap_server_exchange"), ("transaction table", "coap_server_find_trans")], "handler invocations and reply datagrams")
prop("S03", "Separate responses are retransmitted until acknowledged, then stop",
 "An unacknowledged separate response is retransmitted unchanged at most 4 times, first after 2 to 3 s and then with each interval doubled, independently for every client. Retransmission stops for good once a matching acknowledgement or reset arrives, once the attempts are exhausted, or once a newer request of the same client replaces it; nothing but a pending separate response is ever sent unsolicited.",
 ["schedules", "fault_sequences", "histories"], "all loss and delay patterns of responses and acknowledgements, any number of clients and follow-up requests",
 "needs lost or late acknowledgements and tens of seconds of time",
 [SV], [("ack timer", "coap_server_trans_start_ack_timer, coap_server_trans_update_ack_timer, coap_server_listen"), ("retransmission", "coap_server_trans_handle_ack_timeout")], "datagrams sent by the server and their times")
prop("S04", "Clients are isolated and new clients are always served",
 "A server keeps the state of the 8 most recently active clients independently of each other: no request, duplicate, acknowledgement, reset, malformed datagram or transfer of one client changes the replies another of them receives. A new client is always served, at the expense of the least recently active one only (activity is compared to the second).",
 ["histories", "schedules", "inputs"], "all interleavings of any number of clients, including more clients than the server tracks and clients differing only in port",
 "tests use one client; table exhaustion and eviction order need many clients over time",
 [SV], [("transaction lookup/eviction", "coap_server_find_trans, coap_server_find_empty_trans, coap_server_find_oldest_trans")], "per-client reply streams compared with a per-client reference model")
prop("S05", "Nothing a peer or the kernel does stops the server from serving",
 "Whatever datagrams arrive (random, truncated, oversized, mutated, any type and code) and whichever transient system-call errors occur (failing sends and receives, failing timers, failing buffer allocations), a server neither crashes, corrupts memory, hangs nor returns from its main loop. Once the disturbance ends, a well-behaved client is answered at its next request.",
 ["inputs", "fault_sequences", "histories"], "all datagram contents and sequences; all points at which a system call or buffer allocation fails",
 "tests send only well-formed messages and never make a system call or allocation fail",
 [SV, MS, ME], [("main loop", "coap_server_run, coap_server_listen, coap_server_exchange"), ("parser", "coap_msg_parse")], "process liveness, sanitizer reports, answer to a probe request")
prop("S06", "Buffers and descriptors are conserved over any history",
 "However long a server or client runs and whatever happens (successful and failed exchanges, malformed or oversized messages, failed allocations, evictions, timeouts), message buffers and file descriptors in use stay bounded by the live state and return to their initial number when the endpoint is shut down; no buffer is released twice or to the wrong pool.",
 ["histories", "fault_sequences", "inputs"], "all histories of exchanges, rejections, evictions, allocation and system-call failures",
 "a leak of one buffer per rare event is invisible in a short test but stops a device that runs for months",
 [SV, CL, MS, ME], [("message lifetime", "coap_msg_destroy, coap_msg_copy, coap_msg_op_new"), ("transaction lifetime", "coap_server_trans_destroy")], "pool occupancy and descriptor table per endpoint")
prop("S07", "Malformed and unacceptable requests never reach the application",
 "A datagram that is not a well-formed message, or is longer than the largest message the library supports, is never passed to the application; if its header marks it confirmable it is answered with an empty reset bearing its message ID, otherwise with nothing. A well-formed request with an unrecognised critical option is answered with 4.02 carrying the request's token and never reaches the application, unrecognised elective options never prevent a request from being served, and acknowledgements, resets, response-coded and empty messages never reach the application (an empty confirmable message is answered with a reset).",
 ["inputs", "schedules"], "all byte strings as datagrams, at any point of any history",
 "tests sample a few option numbers and parse errors in isolation, not through a running endpoint",
 [SV, MS], [("parse errors", "coap_server_trans_handle_format_error, coap_msg_parse"), ("critical options", "coap_msg_check_critical_ops, coap_server_trans_handle_bad_option")], "handler invocations and reply datagrams against an independent RFC 7252 codec")
prop("S08", "A restarted server serves surviving clients",
 "If a server crashes at any point, losing all its state, and is started again, every exchange in progress on its clients ends within the usual time limits, truthfully (a response only if some incarnation of the server sent it for that request), and each client's next exchange with the new incarnation succeeds without recreating the client.",
 ["crash_points", "schedules", "fault_sequences"], "every crash instant in any exchange or block-wise transfer, any down time",
 "tests never kill a server",
 [SV, CL], [("client recovery", "coap_client_exchange"), ("state-free restart", "coap_server_create, coap_server_exchange")], "client results after restart")
prop("B01", "A block-wise upload delivers exactly the sent body or reports failure",
 "When a client's block-wise PUT or POST reports a successful response, the server application received, complete and in one piece, exactly the bytes the client sent, and exactly once for that transfer if datagrams are merely lost; the response code the client sees is the one the application gave; a transfer that cannot be completed is reported to the client as an error or an error response, and over a loss-free network every body that fits is transferred. The application is never handed a body that mixes, repeats, drops or truncates blocks, whatever the block sizes each side prefers, provided no datagram of an earlier transfer of that client is still under way.",
 ["schedules", "fault_sequences", "configurations", "inputs"], "all bodies, block-size preferences and buffer sizes; all loss, duplication, delay and reordering of blocks",
 "tests use fixed bodies and block sizes over a perfect network",
 [CL, SV], [("client upload", "coap_client_exchange_blockwise1"), ("server reassembly", "coap_server_trans_handle_next_block")], "bodies seen by the server application and results at the client")
prop("B02", "A block-wise download returns exactly the served body or reports failure",
 "When a client's block-wise GET, or the response phase of a block-wise PUT or POST, reports success, the bytes and length returned are exactly the body the server application provided for that request (a response without a body is reported as length 0 and leaves the caller's buffer alone), as long as the application's answer does not change while datagrams of the transfer overtake each other; otherwise an error is reported and nothing beyond the caller's buffer is written. Over a loss-free network every body that fits is returned. Blocks that are repeated, stale or out of sequence never end up in the returned body.",
 ["schedules", "fault_sequences", "configurations", "inputs"], "all bodies, block-size preferences and buffer sizes; all loss, duplication, delay and reordering of blocks",
 "tests use fixed bodies and block sizes over a perfect network",
 [CL, SV], [("client download", "coap_client_exchange_blockwise2"), ("server serving", "coap_server_trans_handle_next_block")], "body returned by coap_client_exchange_blockwise")
prop("B03", "The server enforces block sequencing and size limits per client",
 "A server in a block-wise transfer accepts only the block that starts exactly where the previous one ended (block number times the block size given with it) and belongs to the same client, method and path: any other block is answered with an error response and ends the transfer, a body that exceeds the server's transfer buffer is answered with 4.13, and no body is handed to the application unless every block arrived in order. Several clients' simultaneous transfers never mix, and after a failed or abandoned transfer the same client can start a new one, at the latest at its second attempt.",
 ["inputs", "histories", "schedules"], "all block number, size and more-flag sequences a client can send, interleaved with other clients",
 "tests only play a handful of wrong block numbers with one client",
 [SV], [("block checks", "coap_server_trans_handle_next_block, coap_server_trans_handle_blockwise")], "replies and bodies handed to the application against a reference transfer model")
prop("B04", "Block negotiation respects both sides' limits and terminates",
 "In a block-wise transfer no message carries a payload larger than the block size the sender announced, the announced size never exceeds what either side asked for, block numbers always address the byte offset actually transferred, exactly the last block is marked final, and the number of exchanges is the number of blocks (a final empty block is allowed), so every transfer over a loss-free network succeeds whenever the body fits.",
 ["configurations", "inputs", "schedules"], "all combinations of preferred block sizes on both sides (16 to 1024) and body lengths",
 "tests try four or five combinations",
 [CL, SV, MS], [("negotiation", "coap_client_exchange_blockwise1/2, coap_server_trans_handle_next_block"), ("block option codec", "coap_msg_op_parse_block_val, coap_msg_op_format_block_val")], "every block-wise datagram on the wire")
prop("B05", "A client's block-wise transfer is safe against any server",
 "Whatever block options, codes and payloads a server returns during a client's block-wise transfer (wrong numbers, changed or invalid sizes, missing or duplicate options, oversized or endless bodies), the client terminates, never writes outside the caller's buffer, and reports success only for a body whose blocks each start exactly where the previous one ended and that is complete.",
 ["inputs", "histories", "fault_sequences"], "all server replies at every step of a transfer",
 "tests only run against the library's own server",
 [CL, MS], [("response checks", "coap_client_exchange_blockwise1, coap_client_exchange_blockwise2")], "result, body buffer guard zones and number of exchanges")
prop("M01", "Messages arrive exactly as they were composed",
 "Any message an application can compose (token, code, any legal option numbers and lengths in any order of addition, payload of any bytes) that fits the maximum datagram arrives at the peer application with the same code, token, options (in option-number order, repeated options in order of addition) and payload, in both directions; what does not fit is refused with an error, never truncated or altered.",
 ["inputs", "configurations"], "all option number and length combinations (including the extended encodings), token lengths and payload sizes up to the limits",
 "unit tests sample a few dozen messages and compare the codec only with itself",
 [MS, CL, SV], [("format/parse", "coap_msg_format, coap_msg_parse, coap_msg_format_op, coap_msg_parse_op"), ("copy", "coap_msg_copy")], "request at the server handler, response at the client, bytes on the wire against an independent codec")
prop("M02", "The buffer pools never hand one buffer to two users",
 "Under every interleaving of threads, a buffer obtained from the small, medium or large pool belongs to exactly one holder until it is released, lies inside its pool, and no buffer is lost: with all buffers released, every pool can again hand out its full configured number, a request larger than the pool's buffers or beyond its capacity is refused, a configuration the pools cannot have or for which memory is lacking is refused without leaving anything allocated, and destroying the pools releases everything.",
 ["schedules", "histories", "configurations"], "all thread interleavings at basic-block granularity, all pool geometries",
 "tests are single-threaded; a lost update in the occupancy bitmap needs a preemption between two instructions",
 [ME, "proxy/http_coap/src/connection.c"], [("bitmap allocator", "coap_mem_alloc, coap_mem_free"), ("pools", "coap_mem_small_alloc, coap_mem_medium_alloc, coap_mem_large_alloc")], "ownership map maintained by the simulated threads")
prop("D01", "With DTLS only authenticated peers are heard",
 "With DTLS enabled, the server application is only ever invoked with requests that a client holding a certificate signed by the trusted root sent in an established session, and a client only reports success with responses from a server holding a trusted certificate for the expected name. Plaintext, forged, modified and replayed datagrams never reach the application, never change an exchange's result into a wrong success and never appear in clear on the wire.",
 ["fault_sequences", "inputs", "schedules"], "all injections, modifications and replays of datagrams during and after the handshake; all certificate combinations",
 "tests only connect properly certified peers over loopback",
 [SV, CL], [("peer verification", "coap_server_trans_dtls_verify_peer_cert, coap_client_dtls_verify_peer_cert"), ("session", "coap_server_trans_dtls_handshake, gnutls record layer")], "handler invocations, client results, wire bytes")
prop("D02", "DTLS sessions are set up despite loss and torn down cleanly",
 "With DTLS enabled, a handshake on a network that loses, duplicates or delays datagrams either completes or fails within a bounded time on both sides, and completes if nobody else interferes and the disturbance is over within a few seconds; sessions of several clients coexist, exchanges and block-wise transfers over an established session keep their guarantees, and after a client closes, disappears or fails its handshake the server goes on serving others.",
 ["schedules", "fault_sequences", "crash_points"], "all loss, duplication and delay patterns, client crashes at every point of handshake and session",
 "tests set sessions up over a perfect loopback one at a time",
 [SV, CL], [("handshake loop", "coap_server_trans_dtls_handshake, coap_client_dtls_handshake"), ("session release", "coap_server_trans_dtls_destroy")], "client results, server liveness")
prop("X01", "Every HTTP request through the proxy gets its own response, in order",
 "On each HTTP connection the proxy answers the requests it received, one response per request and in request order, with the status, and body that correspond to the CoAP server's response to that same request, however the TCP stream is split into segments, however slowly it arrives or drains, and however many requests follow each other on the connection.",
 ["schedules", "inputs", "fault_sequences"], "all segmentations and timings of the byte stream, partial reads and writes, sequences of requests",
 "tests send one small request per write over loopback",
 ["proxy/http_coap/src/connection.c", "proxy/common/src/http_msg.c", "proxy/common/src/cross.c", "proxy/common/src/tls_sock.c"], [("request loop", "connection_recv, connection_process, connection_send"), ("HTTP parser", "http_msg_parse")], "HTTP responses at the client, requests at the CoAP server")
prop("X02", "Concurrent proxy connections never affect each other's data",
 "With any number of simultaneous HTTP connections and any interleaving of the proxy's threads, every client receives exactly the response to its own request and the CoAP server receives exactly the requests the clients made; no header, option, body or buffer of one connection ever shows up in, or is released by, another.",
 ["schedules", "histories"], "all thread interleavings at basic-block granularity of concurrent connections",
 "tests run connections whose threads practically never overlap inside the shared buffer pools",
 ["proxy/http_coap/src/connection.c", "proxy/http_coap/src/listener.c", ME, CL], [("thread per connection", "listener_run, connection_thread_func"), ("shared pools", "coap_mem")], "per-connection responses, requests at the CoAP server, sanitizer reports")
prop("X03", "CoAP failures surface as the right HTTP error, not as silence or success",
 "If the CoAP server does not answer in time the HTTP client gets 504, if its answer is unusable 502, and requests the proxy cannot translate get an error status; CoAP error responses map to the corresponding HTTP error status and never to a 2xx status. In every such case the connection or at least the proxy stays usable for further requests.",
 ["fault_sequences", "inputs", "schedules"], "all CoAP-side loss, silence, resets and malformed answers at every step",
 "tests run the proxy against a healthy CoAP server",
 ["proxy/http_coap/src/connection.c", "proxy/common/src/cross.c"], [("error mapping", "connection_gen_error_resp, connection_coap_exchange, cross_resp_coap_to_http")], "HTTP status at the client")
prop("X04", "The proxy survives any client and releases everything it used",
 "Whatever bytes HTTP clients send, wherever in a handshake, request or response they stall, reset or disconnect, and whichever descriptor, thread or memory allocation fails, the proxy neither crashes nor stops accepting connections, and when a connection ends its descriptors, memory and message buffers are released.",
 ["inputs", "fault_sequences", "crash_points"], "all byte streams and disconnection points; failing accept, thread creation and allocation",
 "tests never disconnect early, send garbage or exhaust resources",
 ["proxy/http_coap/src/connection.c", "proxy/http_coap/src/listener.c", "proxy/common/src/http_msg.c", "proxy/common/src/data_buf.c", "proxy/common/src/tls_sock.c"], [("accept loop", "listener_run"), ("connection teardown", "connection_delete")], "proxy liveness, descriptor table, heap and pool occupancy, sanitizer reports")
prop("A01", "Registrations are recorded exactly once with the latest address",
 "When a registration client reports success, the registration server lists that identifier exactly once, with the address of the client that registered it last, and reports 'created' for the first registration of an identifier and 'changed' for later ones, whatever datagrams are lost, duplicated or delayed and however many clients register concurrently.",
 ["schedules", "fault_sequences", "histories"], "all delivery schedules and registration histories",
 "the sample applications have no tests under loss or concurrency",
 ["sample/reg_server/reg_server.c", "sample/reg_server/registrar.c", "sample/reg_client/reg_client.c"], [("registrar", "registrar_add"), ("request handling", "reg_server_handle")], "registrar contents after the run and client results")
prop("A02", "A file transfer reported as done has stored exactly that file",
 "When the file transfer client ends with success, the server has stored a file that holds exactly the bytes of the client's file; if reading, transferring or storing fails (including short or failing disk writes at any point, a full disk detected only when the file is closed, a server that crashes, or an unreachable server) the client ends with a failure. Without such failures every file of 1 to 8192 bytes is transferred.",
 ["fault_sequences", "crash_points", "inputs"], "all network faults, server crashes and disk errors at every open, read, write and close",
 "the sample applications have no tests and no disk ever fails in CI",
 ["sample/transfer_client/transfer_client.c", "sample/transfer_client/main.c", "sample/transfer_server/transfer_server.c", CL, SV], [("storing", "transfer_server_handle_rx"), ("client result", "transfer_client_execute")], "simulated file contents and client exit status")
prop("A03", "The time client reports the server's current time, never a stale one",
 "Every time the time client reports is one that the server's wall clock showed between the moment of asking and the moment of reporting, whatever datagrams are lost, duplicated, delayed or left over from earlier questions, however the clocks of client and server are skewed or jump, and whenever the server crashes and restarts; if no such answer arrives it reports a failure, and once nothing fails any more it gets the time.",
 ["schedules", "fault_sequences", "histories"], "all delivery schedules, clock jumps and restarts",
 "the sample applications have no tests, and clocks do not jump in CI",
 ["sample/time_client/time_client.c", "sample/time_server/time_server.c", CL, SV], [("answer", "time_server_handle_time"), ("question", "time_client_get_time")], "time string reported by the client against the server clock's history")
prop("N01", "Configuration files are parsed faithfully",
 "Every section, key and value of a syntactically valid configuration file is returned exactly as written and malformed files are rejected.",
 ["inputs"], "all configuration texts", "tests sample a few files",
 ["proxy/common/src/config.c"], [("parser", "config_parse")])
prop("N02", "URI parsing and generation are inverse",
 "Parsing a valid URI yields its components and generating from the components yields an equivalent URI; invalid URIs are rejected.",
 ["inputs"], "all URI strings", "tests sample a few dozen URIs",
 ["proxy/common/src/uri.c"], [("parser", "uri_parse, uri_generate")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
