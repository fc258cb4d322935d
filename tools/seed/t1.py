WS_MAIN = r'''
use puck::core::{Core, Stream, UsedStream};
use puck::{Request, ws::message::Message};

fn serve(req: Request, stream: Stream, _: ()) -> UsedStream {
    let mut ws = match stream.upgrade(&req) {
        Ok(ws) => ws,
        Err(used) => return used,
    };
    loop {
        match ws.next() {
            Some(Ok(Message::Text(t))) => ws.send(Message::Text(t)).unwrap(),
            Some(Ok(Message::Binary(b))) => ws.send(Message::Binary(b)).unwrap(),
            Some(Ok(_)) => {}
            _ => break,
        }
    }
    UsedStream::empty()
}

fn main() {
    Core::bind("127.0.0.1:@PORT@", ()).unwrap().for_each(serve);
}
'''
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="body-short-read", property="H03",
    edits=[("puck/src/body/mod.rs", "        self.bytes_read += bytes;\n", "        self.bytes_read += buf.len();\n")],
    needs="a source that delivers the body in more than one read",
    what="the body accounts for the bytes asked for instead of the bytes that arrived, and ends early",
    demo='''
with Demo() as d:
    code, out = d.run()
    print(out)
    check(code == 0 and "fine" in out, "the body lost bytes")
''', main=r'''
use puck::body::Body;
use std::io::{self, BufRead, BufReader, Read};

struct Slow(Vec<u8>, usize);
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(3).min(self.0.len() - self.1);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}
fn main() {
    let body = Body::from_reader(BufReader::new(Slow(b"hello body".to_vec(), 0)), Some(10));
    assert_eq!(body.into_string().unwrap(), "hello body");
    println!("fine");
}
''')

bug(id="match-trailing-slash", property="H07",
    edits=[("puck/src/core/router/match_url.rs", "return actual_iter.next().is_none();", "return actual_iter.all(|segment| segment.is_empty());")],
    needs="a URL which ends with slashes after the segments of the pattern",
    what="a pattern also matches paths with more segments, if those are empty",
    demo='''
with Demo() as d:
    code, out = d.run()
    print(out)
    check(code == 0 and "fine" in out, "matched a longer path")
''', main=r'''
use puck::core::router::match_url::{path, Match};
fn main() {
    let m = || Match::new().at(path("a")).at(path("b"));
    let u = |s: &str| url::Url::parse(s).unwrap();
    assert!(m().does_match(&u("http://h/a/b")));
    assert!(!m().does_match(&u("http://h/a/b/c")));
    assert!(!m().does_match(&u("http://h/a/b/")));
    println!("fine");
}
''')

bug(id="text-split-in-code-point", property="W02",
    edits=[("puck/src/ws/message.rs", "            payload.extend(msg.take_decoded());\n",
            "            // no need to buffer text which is not text\n            if op_code == OpCode::Text && std::str::from_utf8(msg.decoded()).is_err() {\n                return Err(DecodeMessageError::ClientProtocolViolationError);\n            }\n\n            payload.extend(msg.take_decoded());\n")],
    needs="a text message which is divided into fragments inside the bytes of one character",
    what="fragments are validated one by one, so a valid text message is refused",
    demo='''
with Demo() as d:
    d.serve()
    text = "a\\u20acb".encode()
    s, _ = upgrade(d)
    s.sendall(frame(1, text[:2], fin=False) + frame(0, text[2:]))
    got = read_all(s, 5, lambda b: len(b) >= 2 + len(text))
    check(got == bytes([0x81, len(text)]) + text, f"echoed {got!r}")
''', main=WS_MAIN)

bug(id="fragmented-text-lossy", property="W03",
    edits=[("puck/src/ws/message.rs", """                        Ok(Self::Text(String::from_utf8(payload).map_err(|_| {
                            DecodeMessageError::ClientProtocolViolationError
                        })?))
""", """                        Ok(Self::Text(String::from_utf8_lossy(&payload).into_owned()))
""")],
    needs="a fragmented text message whose bytes are not UTF-8",
    what="an invalid text is delivered (altered) instead of being refused",
    demo='''
with Demo() as d:
    d.serve()
    s, _ = upgrade(d)
    s.sendall(frame(1, b"a\\xff", fin=False) + frame(0, b"b"))
    got = read_all(s, 3, lambda b: len(b) >= 2)
    check(got[:1] != b"\\x81", f"a message was delivered: {got!r}")
''', main=WS_MAIN)

bug(id="pong-of-longest-ping", property="W05",
    edits=[("puck/src/ws/websocket.rs", "decoded: payload.clone().unwrap_or_default(),", "decoded: payload.clone().filter(|p| p.len() < 125).unwrap_or_default(),")],
    needs="a ping with the longest payload allowed (125 bytes)",
    what="its pong does not carry the payload of the ping",
    demo='''
with Demo() as d:
    d.serve()
    for n in (0, 1, 124, 125):
        s, _ = upgrade(d)
        s.sendall(frame(9, b"p" * n))
        got = read_all(s, 3, lambda b: len(b) >= 2 + n)
        check(got == bytes([0x8a, n]) + b"p" * n, f"{n}: {got!r}")
''', main=WS_MAIN)

bug(id="copy-of-closed-socket", property="W06",
    edits=[("puck/src/ws/websocket.rs", "            stream: self.stream.clone(),\n            state: self.state,\n", "            stream: self.stream.clone(),\n            state: WebSocketState::Open,\n")],
    needs="a copy of the WebSocket taken after the peer closed the conversation, then used to send",
    what="the copy is open again: messages and another close frame follow the close frame",
    demo='''
with Demo() as d:
    d.serve()
    s, _ = upgrade(d)
    s.sendall(frame(8, b""))
    got = read_all(s, 2)
    check(got == b"\\x88\\x00", f"{got!r}")
''', main=r'''
use puck::core::{Core, Stream, UsedStream};
use puck::{Request, ws::message::Message};

fn serve(req: Request, stream: Stream, _: ()) -> UsedStream {
    let mut ws = match stream.upgrade(&req) {
        Ok(ws) => ws,
        Err(used) => return used,
    };
    while let Some(Ok(_)) = ws.next() {}
    let copy = ws.make_copy();
    let _ = copy.send(Message::Text("more".to_string()));
    let _ = copy.close();
    UsedStream::empty()
}

fn main() {
    Core::bind("127.0.0.1:@PORT@", ()).unwrap().for_each(serve);
}
''')

bug(id="response-body-short-read", property="H04",
    edits=[("puck/src/response/encoder.rs", "        std::io::copy(&mut self.response.body, &mut stream)?;\n",
            """        let mut buffer = vec![0; 8192];
        loop {
            let read = self.response.body.read(&mut buffer)?;
            stream.write_all(&buffer[..read])?;
            if read < buffer.len() {
                break;
            }
        }
"""), ("puck/src/response/encoder.rs", "use std::io::Write;", "use std::io::{Read, Write};")],
    needs="a response whose body comes from a reader that returns less than asked for before its end",
    what="the body is cut at the first short read",
    demo='''
with Demo() as d:
    code, out = d.run()
    print(out)
    check(code == 0 and "fine" in out, "the response lost bytes of its body")
''', main=r'''
use puck::{body::Body, Response};
use std::io::{BufReader, Read};

fn main() {
    let reader = BufReader::new(std::io::Cursor::new("hello ").chain(std::io::Cursor::new("world")));
    let mut out = Vec::new();
    puck::write_response(Response::build().body(Body::from_reader(reader, Some(11))).build(), &mut out);
    assert!(String::from_utf8(out).unwrap().ends_with("\r\n\r\nhello world"));
    println!("fine");
}
''')

bug(id="routes-sharing-handler", property="S01",
    edits=[("puck/src/core/router/mod.rs", """        self.routes
            .iter()
            .map(|route| {
                (
                    route.matcher as *const () as usize,
                    route.handler as *const () as usize,
                )
            })
            .collect()
""", """        let mut ints = self
            .routes
            .iter()
            .map(|route| {
                (
                    route.matcher as *const () as usize,
                    route.handler as *const () as usize,
                )
            })
            .collect::<Vec<_>>();
        // a route which is there twice need only be sent once
        ints.dedup_by_key(|(_, handler)| *handler);
        ints
""")],
    needs="two adjacent routes with different patterns and the same handler, and a request for the second one",
    what="the second route is lost: its requests reach another handler or none",
    demo='''
with Demo() as d:
    d.serve()
    for path, want in (("/a", b"handler"), ("/b", b"handler"), ("/c", b"other")):
        got = d.ask(f"GET {path} HTTP/1.1\\r\\nHost: h\\r\\n\\r\\n".encode(), 3)
        check(got.endswith(b"\\r\\n\\r\\n" + want), f"{path}: {got!r}")
''', main=r'''
use puck::core::{router::{Route, Router}, Core, Stream, UsedStream};
use puck::{Request, Response};

fn handler(_: Request, stream: Stream, _: ()) -> UsedStream {
    stream.respond(Response::build().body("handler").build()).unwrap()
}
fn main() {
    let router = Router::<()>::new()
        .route(Route::new(|r| r.url().path() == "/a", handler))
        .route(Route::new(|r| r.url().path() == "/b", handler))
        .route(Route::new(|_| true, |_, stream, _| stream.respond(Response::build().body("other").build()).unwrap()));
    Core::bind("127.0.0.1:@PORT@", ()).unwrap().serve_router(router);
}
''')

bug(id="linked-connections", property="S02",
    edits=[("puck/src/core/mod.rs", """                let _ = Process::spawn(
                    (stream, ints.clone(), self.state.clone()),""", """                let _ = Process::spawn_link(
                    (stream, ints.clone(), self.state.clone()),""")],
    needs="a handler that panics while serving one request, and another request afterwards",
    what="the processes of the connections are linked to the server, so a panic of one of them ends the server",
    demo='''
with Demo() as d:
    d.serve()
    d.ask(b"GET /panic HTTP/1.1\\r\\nHost: h\\r\\n\\r\\n", 2)
    time.sleep(1)
    try:
        got = d.ask(b"GET / HTTP/1.1\\r\\nHost: h\\r\\n\\r\\n", 3)
    except OSError as e:
        got = repr(e).encode()
    check(got.endswith(b"fine"), f"{got!r}")
''', main=r'''
use puck::core::{router::{Route, Router}, Core};
use puck::Response;

fn main() {
    let router = Router::<()>::new()
        .route(Route::new(|r| r.url().path() == "/panic", |_, _, _| panic!("on purpose")))
        .route(Route::new(|_| true, |_, stream, _| stream.respond(Response::build().body("fine").build()).unwrap()));
    Core::bind("127.0.0.1:@PORT@", ()).unwrap().serve_router(router);
}
''')

bug(id="target-with-two-slashes", property="H01",
    edits=[("puck/src/request/mod.rs", """                    Url::parse(&format!("http://{}{}", host, url))
""", """                    Url::parse(&format!("http://{}/", host)).and_then(|base| base.join(url))
""")],
    needs="a request target that begins with two slashes",
    what="the first segment of the path is taken for the host",
    demo='''
with Demo() as d:
    code, out = d.run()
    print(out)
    check(code == 0 and "fine" in out, "the target was changed")
''', main=r'''
use puck::Request;
fn main() {
    let r = Request::parse(std::io::Cursor::new("GET //other/path HTTP/1.1\r\nHost: here\r\n\r\n")).unwrap().unwrap();
    assert_eq!(r.url().host_str(), Some("here"));
    assert_eq!(r.url().path(), "//other/path");
    println!("fine");
}
''')

bug(id="header-not-utf8", property="H02",
    edits=[("puck/src/request/mod.rs", "                    std::str::from_utf8(header.value)?.to_string(),\n", "                    String::from_utf8_lossy(header.value).into_owned(),\n")],
    needs="a header value with bytes that are not UTF-8",
    what="the malformed header is accepted, with another value than the one that was sent",
    demo='''
with Demo() as d:
    code, out = d.run()
    print(out)
    check(code == 0 and "fine" in out, "the header was accepted")
''', main=r'''
use puck::Request;
fn main() {
    let r = Request::parse(std::io::Cursor::new(b"GET / HTTP/1.1\r\nHost: here\r\nX-A: a\xff\r\n\r\n".to_vec()));
    assert!(r.is_err());
    println!("fine");
}
''')

bug(id="list-same-message-twice", property="A01",
    edits=[("examples/list/src/main.rs", """                state.items.push(string);
                Reply::Added
""", """                if state.items.last() != Some(&string) {
                    state.items.push(string);
                }
                Reply::Added
""")],
    needs="the same message submitted twice in a row",
    what="the second submission is acknowledged and lost",
    demo='''
with Demo(os.path.join(REPO, "examples/list/src/main.rs")) as d:
    d.serve()
    for m in (b"a", b"b", b"b"):
        d.ask(b"POST /submit HTTP/1.1\\r\\nHost: h\\r\\nContent-Length: %d\\r\\n\\r\\nmessage=%s" % (8 + len(m), m), 3)
    got = d.ask(b"GET /read/10 HTTP/1.1\\r\\nHost: h\\r\\n\\r\\n", 3)
    check(got.count(b"Item: b") == 2, f"{got!r}")
''')

bug(id="frame-payload-partial-write", property="W04",
    edits=[("puck/src/ws/send.rs", "    stream.write_all(frame.decoded())?;\n", "    let _ = stream.write(frame.decoded())?;\n")],
    needs="a transport that accepts only a part of the payload in one write",
    what="the rest of the payload is never sent, and the stream is out of step",
    demo='''
with Demo() as d:
    d.serve()
    s, _ = upgrade(d)
    n = 8_000_000
    time.sleep(1.5)  # let the buffers of the connection fill
    got = read_all(s, 20, lambda b: len(b) >= 15 + n)
    check(len(got) == 15 + n, f"{len(got)} bytes arrived")
''', main=r'''
use puck::core::{Core, Stream, UsedStream};
use puck::{Request, ws::message::Message};

fn serve(req: Request, stream: Stream, _: ()) -> UsedStream {
    let ws = match stream.upgrade(&req) {
        Ok(ws) => ws,
        Err(used) => return used,
    };
    let _ = ws.send(Message::Binary(vec![7; 8_000_000]));
    let _ = ws.send(Message::Text("end".to_string()));
    UsedStream::empty()
}
fn main() {
    Core::bind("127.0.0.1:@PORT@", ()).unwrap().for_each(serve);
}
''')
