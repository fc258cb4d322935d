#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and bin/checks.json from one table."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe, note, components=None, technique=None, state=None):
    P.append(dict(
        id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
        mechanism=mechanism, observe=observe, note=note, components=components or [{"harness": "puck"}],
        technique=technique or "explicit-state exploration of the real code under a controlled environment (choice-tree model checking)",
        state=state or [],
    ))


ENV = "Exhaustive within the stated alphabets and deviation bounds. Trusts the explorer (/verif/mc) and the reference model; the environment answers (short reads, failures) are the explorer's. "
HOST = ("Exhaustive within the stated alphabets, interleavings and deviation bounds. Trusts the explorer and the Lunatic host model (/verif/mc/src/host.rs, "
        "bound to the runtime by the conformance run); the puck code, the lunatic guest library and the handlers are the real ones. ")

prop("H01", "Requests are parsed faithfully however they arrive",
     "A well-formed HTTP/1.1 request yields exactly the method, target URL, headers and body bytes it carries, however the transport cuts it into reads; the values of a repeated header are combined in order, separated by commas. Bytes after the declared body length are never part of the body. A transport failure yields an error or the exact request, never a different one.",
     ["inputs", "fault_sequences"], "every well-formed request and every segmentation or failure of the reads that deliver it",
     "The repository's tests parse a handful of complete in-memory requests; none varies segmentation, and none places a failure.",
     ["puck/src/request/mod.rs", "puck/src/body/mod.rs"],
     [("incremental head parsing with httparse", "puck/src/request/mod.rs Request::parse"), ("body limited by Content-Length", "puck/src/body/mod.rs Body")],
     ["Request::parse", "Request::take_body", "Request accessors"], ENV + "At most three short reads per message (four in the thorough tier).")
prop("H02", "Malformed, truncated or ambiguous requests are never accepted",
     "Bytes that are not one complete, unambiguous HTTP/1.1 request head (bad syntax, a head cut short, no or several hosts, repeated or non-numeric body length) are refused with an error. Parsing never panics or loops, whatever the bytes, and the same bytes are always understood in the same way.",
     ["inputs"], "every byte sequence presented as a request, every truncation point, every corrupted byte",
     "Three regression inputs exist; the quantifier is over all byte strings and all truncation points.",
     ["puck/src/request/mod.rs"], [("head validation", "puck/src/request/mod.rs Request::parse"), ("error type", "puck/src/request/mod.rs ParseRequestError")],
     ["Request::parse"], ENV + "All strings of at most five symbols of a hostile alphabet, all truncations, all single byte corruptions of sample heads, and a catalogue of violations.")
prop("H03", "Bodies yield exactly their bytes, bounded and without prealloc",
     "Reading a message body, in any pattern of reads or converted to a string, yields exactly its bytes in order, never more than the declared length, and keeps reporting the end afterwards. Failures of the source surface as errors after exactly the bytes before them; a declared length never makes the library allocate memory for bytes that did not arrive. Taking or replacing the body hands over the old one intact, and leaves the message with the new one, its type as Content-Type, and everything else as it was.",
     ["inputs", "histories", "fault_sequences"], "every body, every history of reads, every failure point, every declared length",
     "No test reads a body in pieces, over a failing source, or with a declared length that differs from what arrives.",
     ["puck/src/body/mod.rs", "puck/src/request/mod.rs", "puck/src/response/mod.rs"], [("length bookkeeping in read", "puck/src/body/mod.rs Read for Body")],
     ["Body::from_reader", "Body::from_string", "Body::into_string", "Read/BufRead on Body", "take_body/replace_body"], ENV)
prop("H04", "Responses are encoded exactly",
     "Writing a response emits precisely one status line, each header once, a blank line and the body bytes, whatever partial writes the transport makes. If reading the body or writing to the transport fails, the failure is reported and what was written is a prefix of the message. Defaults and overwrites of the builder, the canned errors and the types of bodies as header values are what they say.",
     ["inputs", "fault_sequences"], "every response and every pattern of short, interrupted and failing reads and writes",
     "The tests encode no response over a transport that writes partially or fails.",
     ["puck/src/response/encoder.rs", "puck/src/response/builder.rs", "puck/src/lib.rs"], [("Encoder state machine", "puck/src/response/encoder.rs Encoder"), ("builder", "puck/src/response/builder.rs")],
     ["Encoder::write_tcp_stream", "write_response", "err_400/err_404"], ENV)
prop("H05", "Responses are parsed faithfully and round-trip",
     "Parsing the bytes of a well-formed response yields exactly its status, reason, headers and body (bounded by its declared length) under any segmentation. Malformed or truncated heads, and declared lengths that are no length, are refused without panicking. A response that was built, encoded and parsed again is the same response.",
     ["inputs", "fault_sequences"], "every response and every segmentation or truncation of it", "The tests hold one parsed response at most; segmentation, truncation and the round trip are not sampled.",
     ["puck/src/response/mod.rs", "puck/src/response/encoder.rs"], [("response head parsing", "puck/src/response/mod.rs Response::parse")], ["Response::parse"], ENV)
prop("H06", "Built requests survive writing and parsing",
     "A request built from a URL, method, headers and body and then written to a transport is one well-formed request whose method, path, query, host, headers and body are the ones it was built from; parsing it gives the same request back. Builders report unusable URLs and missing methods as errors.",
     ["inputs", "fault_sequences"], "every request that can be built and every pattern of partial or failing writes", "No test writes a request and reads it back with queries, bodies, ports or partial writes.",
     ["puck/src/request/mod.rs", "puck/src/request/builder.rs"], [("Request::write", "puck/src/request/mod.rs"), ("RequestBuilder", "puck/src/request/builder.rs")], ["Request::build", "Request::write", "Request::parse"], ENV)
prop("H07", "URL patterns match exactly the paths they describe",
     "A pattern of static, string and integer segments matches a URL if and only if the URL has exactly as many path segments and each satisfies its pattern segment, in order. Matching is a pure function: asking again or asking about another URL in between changes nothing.",
     ["inputs", "histories"], "every pattern and every URL path", "The tests match two or three hand-picked URLs.",
     ["puck/src/core/router/match_url.rs"], [("segment comparison", "puck/src/core/router/match_url.rs Match::does_match")], ["Match::does_match"], ENV + "Patterns and paths up to the enumerated depth over an alphabet of segments.")
prop("H08", "No header, reason or method can inject lines into a message",
     "Text supplied for a header name or value, a reason phrase or a method that contains a line break never reaches the wire as part of a message head: writing the message fails instead. Messages without line breaks are not refused.",
     ["inputs"], "every text in every position of a message head, with line breaks at every place", "No test writes a header with a line break.",
     ["puck/src/lib.rs", "puck/src/response/encoder.rs", "puck/src/request/mod.rs"], [("reject_line_breaks", "puck/src/lib.rs")], ["Encoder::write_tcp_stream", "Request::write"], ENV)

prop("S01", "Each request is handled once, by the first matching route",
     "Every request on every connection is handed to the handler of the first route that matches it, exactly once, on its own connection, whatever other connections do at the same time; nothing runs for a request that matches no route. This holds for every way of serving (router, run on a listener, one function for all) and does not change over time.",
     ["schedules", "inputs", "histories"], "every route table, every set of concurrent requests, every interleaving of their processes and packets",
     "No test starts a server; concurrency between connections is not exercised at all.",
     ["puck/src/core/mod.rs", "puck/src/core/router/mod.rs"], [("process per connection", "puck/src/core/mod.rs serve_router/for_each"), ("first match", "puck/src/core/router/mod.rs respond")],
     ["Core::serve_router", "Core::for_each", "Router::run"], HOST, technique="exhaustive interleaving exploration (source-set DPOR) of the real server on a model of the Lunatic host")
prop("S02", "One bad connection never disturbs the others",
     "Malformed input is answered by a single complete error response and reaches no handler. A handler that panics, a client that stalls, leaves or resets, or a failing accept, read or write affects its own connection only: the server keeps accepting and every other request is answered as if alone.",
     ["schedules", "fault_sequences", "inputs"], "every kind of misbehaviour at every point, in every interleaving with well-behaved connections",
     "No test starts a server or injects a fault.",
     ["puck/src/core/mod.rs", "puck/src/core/router/mod.rs"], [("process isolation", "puck/src/core/mod.rs Process::spawn per connection"), ("err_400 on parse failures", "puck/src/core/mod.rs")],
     ["Core::serve_router", "Core::for_each", "Router::run"], HOST, technique="exhaustive interleaving (source-set DPOR) and fault exploration of the real server on a model of the Lunatic host")
prop("S03", "Every handler receives the server's state unchanged",
     "Each handler invocation receives a value equal to the state the server was started with, for any serialisable state and on every connection.",
     ["inputs", "schedules"], "every state value and every number of connections", "No test runs a server with a state.",
     ["puck/src/core/mod.rs", "puck/src/core/router/mod.rs"], [("state sent to the connection's process", "puck/src/core/mod.rs Process::spawn")], ["handler argument"], HOST,
     technique="exhaustive interleaving exploration (source-set DPOR) of the real server on a model of the Lunatic host")

prop("W01", "Only valid WebSocket requests are upgraded, with the right accept key",
     "A request is upgraded exactly if it asks for `websocket` in Upgrade, has the upgrade token in Connection and carries a key, whatever the case or order of its headers; the answer is then a single 101 response with the accept value RFC 6455 derives from the key. Every other request gets one 400 response and no WebSocket.",
     ["inputs", "schedules"], "every combination of the upgrade headers, every key, every segmentation and interleaving", "One test computes one accept key; no test performs an upgrade.",
     ["puck/src/ws/upgrade.rs", "puck/src/core/mod.rs"], [("should_upgrade/perform_upgrade", "puck/src/ws/upgrade.rs"), ("Stream::upgrade", "puck/src/core/mod.rs")], ["Stream::upgrade"], HOST)
prop("W02", "WebSocket messages are received exactly as sent",
     "The messages delivered by a WebSocket are exactly those the client sent, in order, with their types and contents, whatever the payload lengths, masking keys, division into fragments and division of the byte stream into reads. Nothing is delivered that was not sent, and no byte of one message is taken for another.",
     ["inputs", "histories"], "every sequence of messages, every fragmentation, every mask, every segmentation", "One test parses two empty frames from memory.",
     ["puck/src/ws/frame.rs", "puck/src/ws/message.rs", "puck/src/ws/websocket.rs"], [("Frame::parse", "puck/src/ws/frame.rs"), ("fragment assembly", "puck/src/ws/message.rs Message::next")], ["Iterator of WebSocket"], HOST + "Control frames between fragments are a recorded finding.",
     state=[("fragment buffer", "payload of the unfinished message", "puck/src/ws/message.rs")])
prop("W03", "WebSocket protocol violations are refused and end the connection",
     "Frames the protocol forbids (unmasked data, reserved bits or op codes, fragmented or oversized control frames, misplaced continuations, text that is not UTF-8) never produce a message: they are reported once as a client error, and the connection is closed from then on.",
     ["inputs", "histories"], "every frame header, every violation in every context, every invalid UTF-8 text", "No test feeds an invalid frame.",
     ["puck/src/ws/frame.rs", "puck/src/ws/message.rs", "puck/src/ws/websocket.rs"], [("Frame::check", "puck/src/ws/frame.rs"), ("state after a violation", "puck/src/ws/websocket.rs next")], ["Iterator of WebSocket"], HOST)
prop("W04", "Sent WebSocket messages are encoded exactly",
     "Each message sent becomes one unmasked, unfragmented frame with the shortest length encoding and exactly its payload, in sending order, through every sending interface and whatever partial writes happen. Pings and pongs too long for a control frame are refused. A failing write is reported, and what the peer received is a prefix of what was sent.",
     ["inputs", "histories", "fault_sequences"], "every message, every sequence, every pattern of short and failing writes", "No test sends a message.",
     ["puck/src/ws/frame.rs", "puck/src/ws/send.rs", "puck/src/ws/websocket.rs"], [("Frame::format", "puck/src/ws/frame.rs"), ("send_frame", "puck/src/ws/send.rs")], ["WebSocket::send", "WebSocket::send_to_stream"], HOST)
prop("W05", "Every ping is answered by exactly one matching pong",
     "When a ping is delivered its pong, with the same payload, has been sent; pings are answered in order, once each, and nothing else is ever answered by a pong.",
     ["histories", "schedules"], "every sequence of frames with pings in it and every interleaving with the client", "No test sends a ping.",
     ["puck/src/ws/websocket.rs"], [("pong in next()", "puck/src/ws/websocket.rs")], ["bytes written by the socket"], HOST)
prop("W06", "The WebSocket close handshake is honoured",
     "A close frame from the peer is answered by one close frame and ends the conversation: from then on receiving reports a closed connection without waiting, sending fails, and nothing more is written. Closing from this side sends one close frame, unless the connection is closed already; the transport is released with the socket.",
     ["histories", "schedules"], "every history of receiving, sending and closing against every script of the peer", "No test closes a WebSocket.",
     ["puck/src/ws/websocket.rs", "puck/src/ws/message.rs"], [("WebSocketState", "puck/src/ws/websocket.rs")], ["Iterator of WebSocket", "WebSocket::send", "WebSocket::close"], HOST,
     state=[("state", "open or closed", "puck/src/ws/websocket.rs WebSocket::state")])
prop("W07", "Abrupt failures of a WebSocket connection are reported, never fatal",
     "If the connection breaks off or fails at any byte or operation, what arrived whole is delivered, then the failure is reported and every further operation reports a closed connection. Nothing panics, hangs or loops, and the process serving the connection ends.",
     ["fault_sequences", "crash_points", "schedules"], "every cut, every failing read or write, every moment at which the client leaves", "No test breaks a connection.",
     ["puck/src/ws/websocket.rs", "puck/src/ws/upgrade.rs", "puck/src/core/mod.rs"], [("errors of control frames", "puck/src/ws/websocket.rs next/close"), ("perform_upgrade result", "puck/src/ws/upgrade.rs")], ["Iterator of WebSocket", "WebSocket::send", "WebSocket::close", "Stream::upgrade"], HOST,
     technique="exhaustive fault and interleaving (source-set DPOR) exploration of the real code on a model of the Lunatic host")
prop("W08", "Declared WebSocket lengths are not trusted",
     "Whatever length a frame declares, memory is taken only for bytes that arrive and nothing panics; a frame whose payload does not arrive in full never becomes a message.",
     ["inputs"], "every declared length with any number of bytes actually present", "No test declares a length.",
     ["puck/src/ws/frame.rs"], [("payload reading", "puck/src/ws/frame.rs Frame::parse")], ["Iterator of WebSocket"], HOST)

prop("A01", "The message list keeps and shows exactly what was submitted",
     "Every acknowledged submission of the list example is stored exactly once and in order of acceptance; reading n shows exactly the last n of them, oldest first, as of one moment between request and answer. Concurrent clients see one linearizable list, and nothing that is not a well-formed submission changes it, whatever other clients send or whenever they leave.",
     ["histories", "schedules", "inputs", "fault_sequences"], "every history of submissions and reads, every interleaving of clients, every point at which one leaves",
     "The example has no tests; its guarantees only show over histories and interleavings of several clients.",
     ["examples/list/src/main.rs", "puck/src/core/mod.rs", "puck/src/core/router/mod.rs"],
     [("List process serialises the operations", "examples/list/src/main.rs ProcessRequest<Msg> for List"), ("routes", "examples/list/src/main.rs main")],
     ["HTTP responses of the example"], HOST, components=[{"harness": "list"}],
     technique="exhaustive interleaving exploration (source-set DPOR) of the real application on a model of the Lunatic host, with a linearizability check",
     state=[("items", "the messages stored so far", "examples/list/src/main.rs List")])

try:
    import catalogue_more  # noqa: F401
    catalogue_more.add(prop, ENV, HOST)
except ImportError:
    pass


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as o:
        for p in P:
            o.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                             mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]], observe_at=p["observe"], hook_needed=None),
            )) + "\n")
    m = dict(
        version=1, setup_cmd="./bin/check --build",
        checks=[dict(property=p["id"], quick_cmd=f"./bin/check {p['id']} --tier quick", thorough_cmd=f"./bin/check {p['id']} --tier thorough",
                     evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="model_checking", level_note=p["note"].strip()) for p in P],
        not_applicable=[],
        notes="No hooks in /repo: everything goes through public interfaces. See DESIGN.md.",
    )
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    with open(os.path.join(V, "bin", "checks.json"), "w") as o:
        o.write("{\n" + ",\n".join(f' "{p["id"]}": {json.dumps(dict(components=p["components"], host_model="host model" in p["note"]))}' for p in P) + "\n}\n")


main()
