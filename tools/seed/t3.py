exec(open('/tmp/seed/t1.py').read().split("BUGS = []")[0])
BUGS = []
def bug(**k): BUGS.append(k)
D = "puck_liveview/src/dom/element/diff/mod.rs"
JS = "puck_liveview/client/index.js"
C = "puck_liveview/src/component/mod.rs"

bug(id="keys-differing-in-case", property="V01", live=True,
    edits=[(D, ".find(|el| el.key.as_ref().unwrap().eq(key))", ".find(|el| el.key.as_ref().unwrap().eq_ignore_ascii_case(key))")],
    needs="siblings whose keys differ in case only",
    what="elements with different keys are taken for one another",
    demo='''
p = Page()
for m in changesets():
    got = p.receive(m)
p.close()
want = [node("div", 0, node("p", 2, "two"), node("p", 1, "one"))]
check(got == want, f"{got}")
''', main=r'''
fn renderings() -> Vec<Element> {
    let p = |id, key, text| el(id, "p", Some(key), &[], &[], Some(text), vec![]);
    let div = |c| el(0, "div", None, &[], &[], None, c);
    vec![div(vec![p(1, "a", "one"), p(2, "A", "two")]), div(vec![p(2, "A", "two"), p(1, "a", "one")])]
}
''')

bug(id="rename-drops-empty-attributes", property="V01", live=True,
    edits=[(JS, "                new_tag.setAttribute(name, value);\n", "                if (value) {\n                    new_tag.setAttribute(name, value);\n                }\n")],
    needs="an element whose tag name changes and which has an attribute with an empty value",
    what="the attribute is lost",
    demo='''
p = Page()
for m in changesets():
    got = p.receive(m)
p.close()
check(got == [node("div", 0, node("input", 1, hidden="", name="x"))], f"{got}")
''', main=r'''
fn renderings() -> Vec<Element> {
    let f = |tag| el(0, "div", None, &[], &[], None, vec![el(1, tag, None, &[("hidden", ""), ("name", "x")], &[], None, vec![])]);
    vec![f("p"), f("input")]
}
''')

bug(id="attribute-of-same-length", property="V01", live=True,
    edits=[(D, "                if my_value != their_value {\n", "                if my_value.len() != their_value.len()\n                    || !my_value.bytes().all(|byte| their_value.as_bytes().contains(&byte))\n                {\n")],
    needs="an attribute whose new value is a permutation of the old one",
    what="the page keeps the old value",
    demo='''
p = Page()
for m in changesets():
    got = p.receive(m)
p.close()
check(got == [node("p", 0, title="ba")], f"{got}")
''', main=r'''
fn renderings() -> Vec<Element> {
    let f = |v| el(0, "p", None, &[("title", v)], &[], None, vec![]);
    vec![f("ab"), f("ba")]
}
''')

bug(id="listener-of-another-event", property="V02", live=True,
    edits=[(D, "        if self.listeners == other.listeners {\n", "        let mine = self.listeners.iter().map(|listener| listener.listener_name());\n        let theirs = other.listeners.iter().map(|listener| listener.listener_name());\n        if mine.eq(theirs) {\n")],
    needs="a listener which keeps its name but listens to another event",
    what="the page goes on listening to the old event",
    demo='''
p = Page()
for m in changesets():
    p.receive(m)
check(p.fire([0], "click") == [], "the old event is heard")
check(p.fire([0], "input", "v") == [{"listener": "l", "payload": {"value": "v"}}], "the new event is not heard")
p.close()
''', main=r'''
fn renderings() -> Vec<Element> {
    let f = |e| el(0, "p", None, &[], &[("l", e)], None, vec![]);
    vec![f("click"), f("input")]
}
''')

bug(id="value-of-inner-input", property="V02", live=True,
    edits=[(JS, "                            value: e.target.value\n", "                            value: e.currentTarget.value\n")],
    needs="a listener for input on an element around the field which is typed in",
    what="the value is missing and the event is ignored",
    demo='''
p = Page()
for m in changesets():
    p.receive(m)
got = p.fire([0, 0], "input", "v")
check(got == [{"listener": "l", "payload": {"value": "v"}}], f"{got}")
p.close()
''', main=r'''
fn renderings() -> Vec<Element> {
    vec![el(0, "form", None, &[], &[("l", "input")], None, vec![el(1, "input", None, &[], &[], None, vec![])])]
}
''')

COUNTER = r'''
use component::{manage, Component, Context};
use dom::{element::Element, listener::{Listener, ListenerRef}, event::ClickEvent};
use puck::core::{Core, Stream, UsedStream};
use puck::Request;
use std::collections::HashMap;

struct Counter(Vec<i32>);
impl Component<i32, i32> for Counter {
    fn new(_: i32, _: &Context<i32>) -> Self { Counter(vec![]) }
    fn update(&mut self, i: i32, _: &Context<i32>) { self.0.push(i) }
    fn render(&self) -> (Element, HashMap<String, Listener<i32>>) {
        let next = self.0.len() as i32;
        let text = if next % 2 == 1 { "".to_string() } else { format!("{:?}", self.0) };
        let mut l: HashMap<String, Listener<i32>> = HashMap::new();
        l.insert("l".to_string(), (Box::new(move |_: ClickEvent| next) as Box<dyn Fn(ClickEvent) -> i32>).into());
        (Element { id: 0, name: "p".into(), text: Some(text.into()), listeners: vec![ListenerRef::new("l", "click")], ..Default::default() }, l)
    }
}

fn serve(req: Request, stream: Stream, _: ()) -> UsedStream {
    match stream.upgrade(&req) {
        Ok(ws) => {
            manage::<Counter, i32, i32>(0, ws);
            UsedStream::empty()
        }
        Err(used) => used,
    }
}

fn main() {
    Core::bind("127.0.0.1:@PORT@", ()).unwrap().for_each(serve);
}
'''
bug(id="listeners-of-unchanged-page", property="V02", live=True,
    edits=[(C, "    let (mut new_dom, mut new_listeners) = component.render();\n", "    let (mut new_dom, mut new_listeners) = component.render();\n    if *old_dom == new_dom {\n        // nothing to show\n        return;\n    }\n")],
    needs="an update which changes what a listener means, but nothing on the page",
    what="the listener of the old rendering is invoked",
    demo='''
with Component() as d:
    d.serve()
    s, _ = upgrade(d)
    got = b""
    for i in range(4):
        s.sendall(frame(1, b'{"listener":"l"}'))
    got = read_all(s, 3, lambda b: b"[0, 1, 2, 3]" in b)
    check(b"[0, 1, 2, 3]" in got, f"{got!r}")
''', main=COUNTER.replace('if next % 2 == 1 { "".to_string() }', 'if next < 4 { "".to_string() }'))

bug(id="reader-before-introduction", property="V03", live=True,
    edits=[(C, "            process.send(WsOrInput::WhoAmI(mailbox.this()));\n\n", ""),
           (C, "            // forward all messages that this process receives to the child process\n", "            process.send(WsOrInput::WhoAmI(mailbox.this()));\n\n            // forward all messages that this process receives to the child process\n")],
    needs="a message of the client which is read before the managing process has gone on",
    what="the component panics, as it is told first about the message and then about its process",
    demo='''
import threading
def client(d, bad):
    for i in range(100):
        s = d.connect()
        s.sendall((f"GET / HTTP/1.1\\r\\nHost: localhost\\r\\nUpgrade: websocket\\r\\nConnection: Upgrade\\r\\n"
               "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\nSec-WebSocket-Version: 13\\r\\n\\r\\n").encode())
        read_all(s, 5, lambda b: b.endswith(b"\\r\\n\\r\\n"))
        s.sendall(frame(1, b'{"listener":"l"}'))
        got = read_all(s, 2, lambda b: b"createTag" in b)
        if b"createTag" not in got: bad.append(got)
        s.close()
        if bad: break

with Component() as d:
    d.serve()
    bad = []
    ts = [threading.Thread(target=client, args=(d, bad)) for _ in range(32)]
    for t in ts: t.start()
    for t in ts: t.join()
    print(d.log()[-500:])
    check(not bad, "no page is painted")
''', main=COUNTER)

bug(id="component-outlives-client", property="V04", live=True,
    edits=[(C, """                        NextMessageError::ConnectionClosed => {
                            drop(component);
                            return;
                        }
""", """                        // nothing else will come from this client
                        NextMessageError::ConnectionClosed => {}
""")],
    needs="a client which leaves",
    what="the component and its process stay for ever",
    demo='''
with Component() as d:
    d.serve()
    s, _ = upgrade(d)
    s.sendall(frame(8, b""))
    read_all(s, 2)
    s.close()
    time.sleep(1)
    n = d.log().count("dropped")
    check(n == 1, f"dropped {n} times")
''', main=COUNTER.replace("fn serve(", 'impl Drop for Counter { fn drop(&mut self) { eprintln!("dropped") } }\n\nfn serve('))

bug(id="paint-after-client-left", property="V04", live=True,
    edits=[(C, "    let _ = stream.send(Message::Text(\n        serde_json::to_string(&InstructionSerializer(instructions)).unwrap(),\n    ));\n",
               "    stream\n        .send(Message::Text(\n            serde_json::to_string(&InstructionSerializer(instructions)).unwrap(),\n        ))\n        .expect(\"could not bring the page up to date\");\n")],
    needs="an update of the component after the client has gone, before that is noticed",
    what="the process panics and the component is not dropped in order",
    demo='''
import struct
with Component() as d:
    d.serve()
    for i in range(20):
        s, _ = upgrade(d)
        read_all(s, 3, lambda b: b"createTag" in b)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        s.sendall(frame(1, b'{"listener":"l"}') * 200)
        s.close()
    time.sleep(2)
    log = d.log()
    check("could not" not in log and "panicked" not in log, log[-500:])
''', main=COUNTER)

bug(id="children-replace-child", property="V05", html=True, live=True,
    edits=[("puck_liveview/src/html/mod.rs", "        self.children.extend(children);\n", "        self.children = children.into_iter().collect();\n")],
    needs="`children` after `child`",
    what="the children given before are lost",
    demo='''
got = html()
check(got.count("name: \\"p\\"") == 3, got)
''', main=r'''
fn main() {
    let tree = Div::new().wrap().child(P::with_text("a").wrap()).children(vec![P::with_text("b").wrap(), P::with_text("c").wrap()]);
    println!("{:?}", tree.into_element(&mut html::id::IdGen::new()));
}
''')

bug(id="listeners-of-images", property="V05", html=True, live=True,
    edits=[("puck_liveview/src/html/mod.rs", '                    name: std::borrow::Cow::Borrowed("img"),\n                    attributes: img.attrs,\n                    listeners: self.listeners,\n', '                    name: std::borrow::Cow::Borrowed("img"),\n                    attributes: img.attrs,\n                    listeners: vec![],\n')],
    needs="an image with a listener",
    what="the listener is lost",
    demo='''
got = html()
check("listener_name: \\"l\\"" in got, got)
''', main=r'''
fn main() {
    let tree = BodyNode::Img(Img::new()).wrap().listener(ListenerRef::new("l", "click"));
    println!("{:?}", tree.into_element(&mut html::id::IdGen::new()));
}
''')

bug(id="upgrade-in-capitals", property="W01",
    edits=[("puck/src/ws/upgrade.rs", '.map(|val| val.to_ascii_lowercase() == "websocket")', '.map(|val| val == "websocket" || val == "WebSocket")')],
    needs="an Upgrade header whose value is in another case than usual",
    what="a valid request is refused",
    demo='''
with Demo() as d:
    d.serve()
    got = d.ask(b"GET / HTTP/1.1\\r\\nHost: localhost\\r\\nUpgrade: WEBSOCKET\\r\\nConnection: Upgrade\\r\\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\nSec-WebSocket-Version: 13\\r\\n\\r\\n", 2)
    check(got.startswith(b"HTTP/1.1 101 "), f"{got!r}")
''', main=WS_MAIN)

bug(id="retry-between-fragments", property="W07",
    edits=[("puck/src/ws/message.rs", "            let msg = Frame::parse(stream.clone())?;\n            msg.check()?;\n",
            "            let msg = match Frame::parse(stream.clone()) {\n                Ok(frame) => frame,\n                // the rest of the message is still on its way\n                Err(ParseFrameError::InsufficientData) => continue,\n                Err(e) => return Err(e.into()),\n            };\n            msg.check()?;\n")],
    needs="a connection which ends between two fragments of a message",
    what="the process serving it loops for ever",
    demo='''
with Demo() as d:
    d.serve()
    s, _ = upgrade(d)
    s.sendall(frame(1, b"ab", fin=False))
    s.shutdown(socket.SHUT_WR)
    got = read_all(s, 5)
    s.settimeout(1)
    try:
        ended = s.recv(1) == b""
    except OSError:
        ended = False
    check(ended, "the connection is never released")
''', main=WS_MAIN)

bug(id="partial-payload-is-a-message", property="W08",
    edits=[("puck/src/ws/frame.rs", "            if n != payload_length as usize {\n", "            if n == 0 {\n"), ("puck/src/ws/frame.rs", "            let mut decoded = vec![0_u8; payload_length as usize];\n", "            let mut decoded = vec![0_u8; encoded.len()];\n"),
           ("puck/src/ws/frame.rs", "                if !fin && payload_length > n as u64 {", "                if payload_length == 0 {\n                    return Ok(Self {\n                        fin,\n                        rsv1,\n                        rsv2,\n                        rsv3,\n                        op_code,\n                        decoded: encoded,\n                    });\n                }\n                if !fin && payload_length > n as u64 {")],
    needs="a connection which ends inside the payload of a frame",
    what="the part which arrived is delivered as a message",
    demo='''
with Demo() as d:
    d.serve()
    s, _ = upgrade(d)
    s.sendall(frame(1, b"abcdef")[:-3])
    s.shutdown(socket.SHUT_WR)
    got = read_all(s, 3)
    check(got[:1] != b"\\x81", f"{got!r}")
''', main=WS_MAIN)

bug(id="close-between-fragments", property="W06",
    edits=[("puck/src/ws/message.rs", """            if msg.op_code() == &OpCode::Terminate {
                trace!("Client asked to close connection");
                return Err(DecodeMessageError::ClientSentCloseFrame);
            }

            if msg.op_code()""", """            if msg.op_code()""")],
    needs="a close frame between two fragments of a message",
    what="the close frame is taken for a violation of the protocol",
    demo='''
with Demo() as d:
    d.serve()
    s, _ = upgrade(d)
    s.sendall(frame(1, b"ab", fin=False) + frame(8, b""))
    read_all(s, 3)
    time.sleep(0.5)
    check("ConnectionClosed" in d.log() and "ClientError" not in d.log(), d.log())
''', main=WS_MAIN.replace("            _ => break,\n", '            other => { eprintln!("{:?}", other); break }\n'))

bug(id="reason-with-spaces", property="H05",
    edits=[("puck/src/response/mod.rs", "            reason.to_string()\n", "            reason.split_whitespace().collect::<Vec<_>>().join(\" \")\n")],
    needs="a reason with several spaces in a row",
    what="the reason is changed",
    demo='''
with Demo() as d:
    code, out = d.run()
    print(out)
    check(code == 0 and "fine" in out, "the reason changed")
''', main=r'''
fn main() {
    let res = puck::Response::parse(std::io::Cursor::new(b"HTTP/1.1 404 not  found\r\nContent-Length: 0\r\n\r\n".to_vec())).unwrap().unwrap();
    assert_eq!(res.reason(), "not  found");
    println!("fine");
}
''')

bug(id="later-headers-are-ignored", property="H06",
    edits=[("puck/src/request/builder.rs", "        self.headers.extend(new_headers);\n", "        for (key, value) in new_headers {\n            self.headers.entry(key).or_insert(value);\n        }\n")],
    needs="`headers` with a header which was set before",
    what="the later value is ignored",
    demo='''
with Demo() as d:
    code, out = d.run()
    print(out)
    check(code == 0 and "fine" in out, "the header was not replaced")
''', main=r'''
fn main() {
    let req = puck::Request::build("http://h/").method(puck::request::Method::Get).header("A", "1").headers(vec![("A".to_string(), "2".to_string())]).build();
    assert_eq!(req.headers()["A"], "2");
    println!("fine");
}
''')

bug(id="stop-after-failing-accept", property="S02",
    edits=[("puck/src/core/router/mod.rs", "                stream\n            } else {\n                continue;\n            };\n", "                stream\n            } else {\n                return;\n            };\n")],
    needs="an accept which fails (for lack of file descriptors, say)",
    what="the server ends",
    demo='''
SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <sys/socket.h>
#include <unistd.h>
static int count;
static int shim(int fd) { close(fd); errno = ECONNABORTED; return -1; }
int accept4(int s, struct sockaddr *a, socklen_t *l, int f) {
    int (*real)(int, struct sockaddr *, socklen_t *, int) = dlsym(RTLD_NEXT, "accept4");
    int r = real(s, a, l, f);
    return r >= 0 && ++count == 3 ? shim(r) : r;
}
int accept(int s, struct sockaddr *a, socklen_t *l) {
    int (*real)(int, struct sockaddr *, socklen_t *) = dlsym(RTLD_NEXT, "accept");
    int r = real(s, a, l);
    return r >= 0 && ++count == 3 ? shim(r) : r;
}
"""
# the third connection is aborted before it is accepted
with Demo() as d:
    with open(os.path.join(d.dir, "shim.c"), "w") as f: f.write(SHIM)
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", "shim.so", "shim.c", "-ldl"], cwd=d.dir, check=True)
    ENV["LD_PRELOAD"] = os.path.join(d.dir, "shim.so")
    d.serve()
    answered = 0
    for i in range(5):
        try:
            answered += d.ask(b"GET / HTTP/1.1\\r\\nHost: localhost\\r\\n\\r\\n", 3).startswith(b"HTTP/1.1 200")
        except OSError as e:
            print(e)
    check(answered == 4, f"{answered} of 5 answered")
''', main=r'''
use puck::core::{router::{Route, Router}, Stream, UsedStream};
use puck::{lunatic::net::TcpListener, Request, Response};
fn serve(_: Request, stream: Stream, _: ()) -> UsedStream {
    stream.respond(Response::build().header("A", "b").build()).unwrap_or_else(|_| UsedStream::empty())
}
fn main() {
    let router = Router::<()>::new().route(Route::new(|_| true, serve));
    router.run(TcpListener::bind("127.0.0.1:@PORT@").unwrap(), ());
}
''')
