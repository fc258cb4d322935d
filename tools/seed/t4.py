exec(open('/tmp/seed/t1.py').read().split("BUGS = []")[0])
BUGS = []
def bug(**k): BUGS.append(k)
D = "puck_liveview/src/dom/element/diff/mod.rs"
JS = "puck_liveview/client/index.js"
C = "puck_liveview/src/component/mod.rs"

bug(id="routes-beyond-sixty-four", property="S01",
    edits=[("puck/src/core/router/mod.rs", "                )\n            })\n            .collect()\n    }", "                )\n            })\n            .take(64)\n            .collect()\n    }")],
    needs="a router with more than 64 routes",
    what="the routes after the 64th are never asked",
    demo='''
with Demo() as d:
    d.serve()
    for path in ("/0", "/63", "/64", "/79"):
        got = d.ask(f"GET {path} HTTP/1.1\\r\\nHost: h\\r\\n\\r\\n".encode(), 3)
        check(got.endswith(b"fine"), f"{path}: {got!r}")
''', main=r'''
use puck::core::{router::{Route, Router}, Core};
use puck::{Request, Response};

fn at<const N: usize>(r: &Request) -> bool { r.url().path() == format!("/{}", N) }
macro_rules! ten { ($r:expr, $($n:expr)*) => { $r$(.route(Route::new(at::<$n>, |_, stream, _| stream.respond(Response::build().body("fine").build()).unwrap())))* } }

fn main() {
    let r = Router::<()>::new();
    let r = ten!(r, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39);
    let r = ten!(r, 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79);
    Core::bind("127.0.0.1:@PORT@", ()).unwrap().serve_router(r);
}
''')

bug(id="long-header-values-folded", property="H04",
    edits=[("puck/src/response/encoder.rs", '            write!(stream, "{}: {}\\r\\n", header, value)?;\n', '''            // no line should be longer than this
            let mut rest = value.as_str();
            write!(stream, "{}: ", header)?;
            while let Some(at) = rest.get(..998).and_then(|line| line.rfind(' ')) {
                write!(stream, "{}\\r\\n", &rest[..at])?;
                rest = &rest[at..];
                if at == 0 {
                    break;
                }
            }
            write!(stream, "{}\\r\\n", rest)?;
''')],
    needs="a header whose value is longer than 998 bytes and has a space in it",
    what="the header is cut into lines that clients do not understand",
    demo='''
with Demo() as d:
    d.serve()
    got = d.ask(b"GET / HTTP/1.1\\r\\nHost: h\\r\\n\\r\\n", 3)
    lines = got.split(b"\\r\\n\\r\\n")[0].split(b"\\r\\n")
    check(b"x-long: " + b"word " * 300 + b"end" in lines, f"{lines!r}")
''', main=r'''
use puck::{core::Core, Response};

fn main() {
    Core::bind("127.0.0.1:@PORT@", ()).unwrap().for_each(|_, stream, _| {
        stream.respond(Response::build().header("x-long", "word ".repeat(300) + "end").body("fine").build()).unwrap()
    });
}
''')

bug(id="half-keyed-children", property="V01", live=True,
    edits=[(D, "        self.children.iter().all(|el| el.key.is_some())", "        self.children.first().map_or(true, |el| el.key.is_some())")],
    needs="an element whose first child has a key, and another child has none",
    what="the component panics when it compares the children",
    demo='''
p = Page()
for m in changesets():
    got = p.receive(m)
p.close()
check(got == [node("div", 0, node("p", 1, "one"), node("p", 2, "three"))], f"{got}")
''', main=r'''
fn renderings() -> Vec<Element> {
    let p = |id, key, text| el(id, "p", key, &[], &[], Some(text), vec![]);
    let div = |c| el(0, "div", None, &[], &[], None, c);
    vec![div(vec![p(1, Some("a"), "one"), p(2, None, "two")]), div(vec![p(1, Some("a"), "one"), p(2, None, "three")])]
}
''')

COUNTER = r'''
use component::{manage, Component, Context};
use dom::{element::Element, listener::{Listener, ListenerRef}, event::ClickEvent};
use puck::core::{Core, Stream, UsedStream};
use puck::lunatic::{Mailbox, Process};
use puck::ws::websocket::WebSocket;
use puck::Request;
use std::collections::HashMap;

struct Counter(i32);
impl Component<i32, i32> for Counter {
    fn new(n: i32, _: &Context<i32>) -> Self { Counter(n) }
    fn update(&mut self, i: i32, _: &Context<i32>) { if self.0 == 100 { panic!("on purpose") } self.0 += i }
    fn render(&self) -> (Element, HashMap<String, Listener<i32>>) {
        let mut l: HashMap<String, Listener<i32>> = HashMap::new();
        l.insert("l".to_string(), (Box::new(move |_: ClickEvent| 1) as Box<dyn Fn(ClickEvent) -> i32>).into());
        (Element { id: 0, name: "p".into(), text: Some(self.0.to_string().into()), listeners: vec![ListenerRef::new("l", "click")], ..Default::default() }, l)
    }
}
'''
bug(id="components-linked-to-their-starter", property="V07", live=True,
    edits=[(C, "    Process::spawn::<(DATA, WebSocket), Mailbox<INPUT>>(", "    // if the component cannot be started, its starter should know\n    Process::spawn_link::<(DATA, WebSocket), Mailbox<INPUT>>("),
           (C, "            let process = Process::spawn(\n", "            let process = Process::spawn_link(\n")],
    needs="one process which starts several components, one of which panics",
    what="the other components of that process end too",
    demo='''
def client(d, path):
    s = d.connect()
    s.sendall((f"GET {path} HTTP/1.1\\r\\nHost: localhost\\r\\nUpgrade: websocket\\r\\nConnection: Upgrade\\r\\n"
               "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\nSec-WebSocket-Version: 13\\r\\n\\r\\n").encode())
    got = read_all(s, 10, lambda b: b"createTag" in b and b"setText" in b)
    check(b"createTag" in got, f"no page: {got!r}")
    return s

with Component() as d:
    d.serve()
    a, b = client(d, "/0"), client(d, "/100")
    b.sendall(frame(1, b'{"listener":"l"}'))
    read_all(b, 2)
    a.sendall(frame(1, b'{"listener":"l"}'))
    got = read_all(a, 10, lambda b: b"setText" in b)
    check(b'"payload":"1"' in got, f"the other component is gone: {got!r}")
''', main=COUNTER + r'''
fn serve(req: Request, stream: Stream, host: Process<(i32, WebSocket)>) -> UsedStream {
    match stream.upgrade(&req) {
        Ok(ws) => {
            host.send((req.url().path()[1..].parse().unwrap(), ws));
            UsedStream::empty()
        }
        Err(used) => used,
    }
}

fn main() {
    let host = Process::spawn((), |_: (), mailbox: Mailbox<(i32, WebSocket)>| loop {
        let (n, ws) = mailbox.receive();
        manage::<Counter, i32, i32>(n, ws);
    });
    Core::bind("127.0.0.1:@PORT@", host).unwrap().for_each(serve);
}
''')

bug(id="emptied-input", property="V02", live=True,
    edits=[(JS, "                            value: e.target.value\n", "                            value: e.target.value || undefined\n")],
    needs="a user who empties an input",
    what="the component does not hear that the input is empty",
    demo='''
p = Page()
for m in changesets():
    p.receive(m)
got = [p.fire([0], "input", v) for v in ("x", "")]
p.close()
check(got == [[{"listener": "l", "payload": {"value": v}}] for v in ("x", "")], f"{got}")
''', main=r'''
fn renderings() -> Vec<Element> {
    vec![el(0, "input", None, &[], &[("l", "input")], None, vec![])]
}
''')

bug(id="applied-deletion-swaps", property="V06", live=True,
    edits=[("puck_liveview/src/dom/element/diff/changeset/apply.rs", "                        el.children.remove(pos);", "                        el.children.swap_remove(pos);")],
    needs="two or more children with keys after one that is removed",
    what="a changeset which removes an element, when it is applied, brings the others out of order",
    demo='''
import livedemo
livedemo.NATIVE = livedemo.NATIVE.replace("{more}", '[features]\\ndefault = ["apply"]\\napply = []')
livedemo.PAINT = ""
got = changesets()
check(got == ["b", "c", "d"], f"the children are {got}")
''', main=r'''
use dom::element::Element;

fn list(names: &[&'static str]) -> Element {
    Element {
        id: 0,
        name: "ul".into(),
        children: names.iter().map(|n| Element { id: n.as_bytes()[0] as usize, name: (*n).into(), key: Some(n.to_string()), ..Default::default() }).collect(),
        ..Default::default()
    }
}

fn main() {
    let (mut before, same, after) = (list(&["a", "b", "c", "d"]), list(&["a", "b", "c", "d"]), list(&["b", "c", "d"]));
    same.diff(Some(&after)).apply(&mut before);
    for child in before.children {
        println!("{}", child.name);
    }
}
''')

bug(id="integers-in-scientific-notation", property="H07",
    edits=[("puck/src/core/router/match_url.rs", "if actual.parse::<i32>().is_err()", "if !matches!(actual.parse::<f64>(), Ok(n) if n.fract() == 0.0 && n >= f64::from(i32::MIN) && n <= f64::from(i32::MAX))")],
    needs="a segment such as 1e3 or 1.0 where an integer is expected",
    what="a segment which is no integer is taken for one",
    demo='''
with Demo() as d:
    code, out = d.run()
    print(out)
    check(code == 0 and "fine" in out, "a segment which is no integer matches")
''', main=r'''
use puck::core::router::match_url::{any_integer, Match};
fn main() {
    for (segment, want) in [("12", true), ("-12", true), ("a", false), ("1e3", false), ("1.0", false), ("2147483648", false)] {
        let url = url::Url::parse(&format!("http://h/{}", segment)).unwrap();
        assert_eq!(Match::new().at(any_integer()).does_match(&url), want, "{}", segment);
    }
    println!("fine");
}
''')

bug(id="fragments-without-content", property="W02", 
    edits=[("puck/src/ws/message.rs", "            let fin = *msg.fin();\n\n            payload.extend(msg.take_decoded());\n", "            // fragments may end with an empty one, which is of no use by itself\n            let fin = *msg.fin() && !(payload.is_empty() && msg.decoded.is_empty());\n\n            payload.extend(msg.take_decoded());\n")],
    needs="a message in fragments all of which are empty",
    what="the message is not delivered, and what follows is taken for a part of it",
    demo='''
with Demo() as d:
    d.serve()
    s, got = upgrade(d)
    s.sendall(frame(1, b"", fin=False) + frame(0, b"") + frame(1, b"next"))
    got = read_all(s, 5, lambda b: b"next" in b)
    check(got == bytes([0x81, 4]) + b"got " + bytes([0x81, 8]) + b"got next", f"{got!r}")
''', main=r'''
use puck::core::Core;
use puck::ws::message::Message;

fn main() {
    Core::bind("127.0.0.1:@PORT@", ()).unwrap().for_each(|req, stream, _| {
        let ws = match stream.upgrade(&req) { Ok(ws) => ws, Err(used) => return used };
        let out = ws.make_copy();
        for msg in ws {
            match msg {
                Ok(Message::Text(text)) => { let _ = out.send(Message::Text(format!("got {}", text))); }
                Ok(_) => {}
                Err(_) => break,
            }
        }
        puck::core::UsedStream::empty()
    });
}
''')
