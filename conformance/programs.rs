// Programs which run on the host model (compiled into `runner`) and on the Lunatic runtime (compiled
// into `guest`, as wasm). Only the main process says things, so that what is said has an order.
// What is around this file provides `say`.
use lunatic::net::{TcpListener, TcpStream};
use lunatic::process::{AbstractProcess, Message as _, ProcessMessage, ProcessRef, ProcessRequest, Request as _, StartProcess};
use lunatic::{Mailbox, Process, Tag};
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::time::Duration;

/// What a client of a program does, one after another.
#[derive(Clone, Debug)]
#[allow(dead_code)]
pub enum Step {
    Connect,
    Send(Vec<u8>),
    /// Receive up to and including these bytes.
    Until(&'static [u8]),
    Exact(usize),
    ToEnd,
    Half,
    Close,
    Reset,
    /// Wait until this client has done everything.
    After(usize),
}
use Step::*;

pub struct Program {
    pub name: &'static str,
    pub main: fn(u16),
    pub clients: Vec<Vec<Step>>,
    /// It serves until it is killed.
    pub serves: bool,
}

fn send(s: &str) -> Step {
    Send(s.as_bytes().to_vec())
}

fn program(name: &'static str, main: fn(u16)) -> Program {
    Program { name, main, clients: vec![], serves: false }
}

impl Program {
    fn client(mut self, steps: Vec<Step>) -> Program {
        self.clients.push(steps);
        self
    }
    fn serves(mut self) -> Program {
        self.serves = true;
        self
    }
}

pub fn programs() -> Vec<Program> {
    let mut out = processes();
    out.extend(streams());
    out.extend(servers());
    out
}

// ---------------------------------------------------------------------------------------------
// processes and messages

fn mailbox<T: Serialize + serde::de::DeserializeOwned>() -> Mailbox<T> {
    // the main process of a program uses one type of messages
    unsafe { Mailbox::new() }
}

type Str = Process<String>;

struct Counter;
#[derive(Serialize, Deserialize)]
struct Inc(u32);
#[derive(Serialize, Deserialize)]
struct Count;
#[derive(Serialize, Deserialize)]
struct Die;
impl AbstractProcess for Counter {
    type Arg = u32;
    type State = u32;
    fn init(_: ProcessRef<Self>, n: u32) -> u32 {
        n
    }
}
impl ProcessMessage<Inc> for Counter {
    fn handle(state: &mut u32, m: Inc) {
        *state += m.0;
    }
}
impl ProcessMessage<Die> for Counter {
    fn handle(_: &mut u32, _: Die) {
        panic!("told to");
    }
}
impl ProcessRequest<Count> for Counter {
    type Response = u32;
    fn handle(state: &mut u32, _: Count) -> u32 {
        *state
    }
}

#[derive(Serialize, Deserialize)]
enum Talk {
    Reply(Str, String),
    Forward(Process<Talk>, Str, String),
}

fn echo_back(_: (), m: Mailbox<Talk>) {
    loop {
        match m.receive() {
            Talk::Reply(to, s) => to.send(format!("echo {s}")),
            Talk::Forward(via, to, s) => via.send(Talk::Reply(to, format!("via {s}"))),
        }
    }
}

fn processes() -> Vec<Program> {
    vec![
        program("order", |_| {
            let m = mailbox::<String>();
            Process::spawn(m.this(), |p: Str, _: Mailbox<()>| {
                for i in 0..5 {
                    p.send(i.to_string());
                }
            });
            for _ in 0..5 {
                say(&m.receive());
            }
        }),
        program("two-senders", |_| {
            let m = mailbox::<String>();
            for name in ["a", "b"] {
                Process::spawn((m.this(), name.to_string()), |(p, n): (Str, String), _: Mailbox<()>| {
                    for i in 0..2 {
                        p.send(format!("{n}{i}"));
                    }
                });
            }
            for _ in 0..4 {
                say(&m.receive());
            }
        }),
        program("triangle", |_| {
            let m = mailbox::<String>();
            let relay = Process::spawn(m.this(), |p: Str, m: Mailbox<String>| loop {
                p.send(m.receive());
            });
            Process::spawn((m.this(), relay), |(p, r): (Str, Str), _: Mailbox<()>| {
                r.send("relayed".into());
                p.send("direct".into());
            });
            say(&m.receive());
            say(&m.receive());
        }),
        program("tags", |_| {
            let m = mailbox::<String>();
            Process::spawn(m.this(), |p: Str, _: Mailbox<()>| {
                let t = |n| Tag::special(n).unwrap();
                p.tag_send(t(70), "seventy".into());
                p.send("none".into());
                p.tag_send(t(71), "seventy-one".into());
                p.tag_send(t(70), "seventy again".into());
            });
            let t = |n| Tag::special(n).unwrap();
            say(&m.tag_receive(Some(&[t(71)])));
            say(&m.receive());
            say(&m.tag_receive(Some(&[t(70), t(71)])));
            say(&m.tag_receive(None));
        }),
        program("to-oneself", |_| {
            let m = mailbox::<String>();
            m.this().send("one".into());
            m.this().send("two".into());
            say(&m.receive());
            say(&m.receive());
            say(&format!("{:?}", m.receive_timeout(Duration::from_millis(20)).is_err()));
        }),
        program("timeout", |_| {
            let m = mailbox::<String>();
            Process::spawn(m.this(), |p: Str, _: Mailbox<()>| p.send("hello".into()));
            match m.receive_timeout(Duration::from_millis(1)) {
                Ok(s) => say(&s),
                Err(_) => {
                    say("nothing yet");
                    say(&m.receive());
                }
            }
        }),
        program("request", |_| {
            let c = Counter::start(5, None);
            say(&c.request(Count).to_string());
            c.send(Inc(2));
            c.send(Inc(3));
            say(&c.request(Count).to_string());
        }),
        program("shared-counter", |_| {
            let m = mailbox::<String>();
            let c = Counter::start(0, None);
            for by in [1u32, 10] {
                Process::spawn((m.this(), c.clone(), by), |(p, c, by): (Str, ProcessRef<Counter>, u32), _: Mailbox<()>| {
                    c.send(Inc(by));
                    p.send(c.request(Count).to_string());
                });
            }
            say(&m.receive());
            say(&m.receive());
            say(&c.request(Count).to_string());
        }),
        program("request-among-messages", |_| {
            // what arrives while a request waits for its answer is not taken for the answer
            let m = mailbox::<String>();
            let c = Counter::start(7, None);
            m.this().send("first".into());
            say(&c.request(Count).to_string());
            say(&m.receive());
        }),
        program("panic-alone", |_| {
            let m = mailbox::<String>();
            Process::spawn(m.this(), |p: Str, _: Mailbox<()>| {
                p.send("about to panic".into());
                panic!("as announced");
            });
            say(&m.receive());
            Process::spawn(m.this(), |p: Str, _: Mailbox<()>| p.send("fine".into()));
            say(&m.receive());
        }),
        program("panic-linked", |_| {
            let m = mailbox::<String>();
            say("before");
            Process::spawn_link((), |_: (), _: Mailbox<()>| panic!("takes main with it"));
            say(&m.receive());
        }),
        program("end-linked", |_| {
            let m = mailbox::<String>();
            Process::spawn_link(m.this(), |p: Str, _: Mailbox<()>| p.send("the end".into()));
            say(&m.receive());
            say(&format!("{}", m.receive_timeout(Duration::from_millis(30)).is_err()));
        }),
        program("panic-linked-child", |_| {
            // the panic of a process in the middle takes the one below with it, not the one above
            let m = mailbox::<String>();
            let mid = Process::spawn(m.this(), |p: Str, m: Mailbox<String>| {
                let low = Process::spawn_link(p.clone(), |p: Str, m: Mailbox<String>| {
                    p.send(m.receive());
                    p.send(m.receive());
                });
                low.send("low is there".into());
                p.send("mid is there".into());
                // handed out, to see who answers later
                p.send(m.receive());
                panic!("{}", m.receive());
            });
            say("main");
            let mut first = vec![m.receive(), m.receive()];
            first.sort();
            say(&first.join(", "));
            mid.send("mid still there".into());
            say(&m.receive());
            mid.send("now".into());
            say(&format!("{}", m.receive_timeout(Duration::from_millis(30)).is_err()));
        }),
        program("request-to-one-who-dies", |_| {
            // a client of a process that dies waits: only a link would tell
            let m = mailbox::<String>();
            let c = Counter::start(0, None);
            Process::spawn((m.this(), c.clone()), |(p, c): (Str, ProcessRef<Counter>), _: Mailbox<()>| {
                c.send(Die);
                p.send(c.request(Count).to_string());
            });
            say(&format!("{}", m.receive_timeout(Duration::from_millis(30)).is_err()));
        }),
        program("send-to-the-dead", |_| {
            let m = mailbox::<String>();
            let p = Process::spawn(m.this(), |p: Str, m: Mailbox<String>| {
                let s = m.receive();
                p.send(s);
            });
            p.send("x".into());
            say(&m.receive());
            for _ in 0..3 {
                p.send("anybody?".into());
            }
            say("still here");
        }),
        program("handles", |_| {
            let m = mailbox::<String>();
            let a = Process::spawn((), echo_back);
            let b = Process::spawn((), echo_back);
            a.send(Talk::Reply(m.this(), "1".into()));
            say(&m.receive());
            a.send(Talk::Forward(b.clone(), m.this(), "2".into()));
            say(&m.receive());
            let c = a.clone();
            drop(a);
            c.send(Talk::Reply(m.this(), "3".into()));
            say(&m.receive());
            say(&format!("{} {}", c.uuid() == c.clone().uuid(), c.uuid() == b.uuid()));
        }),
        program("registry", |_| {
            let m = mailbox::<String>();
            say(&format!("{}", Str::lookup("main").is_none()));
            m.this().register("main");
            Process::spawn((), |_: (), _: Mailbox<()>| {
                Str::lookup("main").unwrap().send("found".into());
            });
            say(&m.receive());
            let other = Process::spawn(m.this(), |p: Str, m: Mailbox<String>| p.send(format!("other got {}", m.receive())));
            other.register("main");
            Str::lookup("main").unwrap().send("it".into());
            say(&m.receive());
            say(&format!("{}", Process::<u8>::lookup("main").is_none()));
        }),
        program("registry-race", |_| {
            let m = mailbox::<String>();
            Process::spawn(m.this(), |p: Str, m: Mailbox<String>| {
                m.this().register("late");
                p.send(m.receive());
            });
            match Str::lookup("late") {
                Some(p) => {
                    p.send("already".into());
                    say(&m.receive());
                }
                None => say("not yet"),
            }
        }),
        program("big-messages", |_| {
            let m = mailbox::<String>();
            let p = Process::spawn(m.this(), |p: Str, m: Mailbox<String>| loop {
                p.send(m.receive());
            });
            for n in [0usize, 1, 70_000, 3_000_000] {
                p.send("x".repeat(n));
                say(&m.receive().len().to_string());
            }
        }),
        program("captures", |_| {
            let m = mailbox::<String>();
            type C = (Str, Vec<(u64, Option<String>)>);
            Process::spawn((m.this(), vec![(1u64 << 40, None), (2, Some("x".to_string()))]), |(p, v): C, _: Mailbox<()>| p.send(format!("{v:?}")));
            say(&m.receive());
        }),
        program("grandchildren", |_| {
            // processes outlive those that made them
            let m = mailbox::<String>();
            Process::spawn(m.this(), |p: Str, _: Mailbox<()>| {
                Process::spawn(p, |p: Str, _: Mailbox<()>| {
                    p.send("grandchild".into());
                    Process::spawn(p, |p: Str, _: Mailbox<()>| p.send("great-grandchild".into()));
                    panic!("not an example");
                });
            });
            say(&m.receive());
            say(&m.receive());
        }),
        program("globals", |_| {
            // nothing is shared: not even what is static
            use std::sync::atomic::{AtomicU32, Ordering};
            let m = mailbox::<String>();
            let _ = AtomicU32::new(0).load(Ordering::SeqCst);
            let mut v = vec![1];
            Process::spawn((m.this(), v.clone()), |(p, mut v): (Str, Vec<i32>), _: Mailbox<()>| {
                v.push(3);
                p.send(format!("{v:?}"));
            });
            v.push(2);
            say(&m.receive());
            say(&format!("{v:?}"));
        }),
    ]
}

// ---------------------------------------------------------------------------------------------
// streams

fn listen(port: u16) -> TcpListener {
    let l = TcpListener::bind(std::net::SocketAddr::from(([127, 0, 0, 1], port))).unwrap();
    ready();
    l
}

fn line(s: &mut TcpStream) -> String {
    let mut out = vec![];
    let mut b = [0];
    loop {
        match s.read(&mut b) {
            Ok(0) => return format!("{}$", String::from_utf8_lossy(&out)),
            Ok(_) if b[0] == b'\n' => return String::from_utf8(out).unwrap(),
            Ok(_) => out.push(b[0]),
            Err(_) => return format!("{}!", String::from_utf8_lossy(&out)),
        }
    }
}

#[derive(Serialize, Deserialize)]
enum Parcel {
    Stream(TcpStream, String),
    Done,
}

fn streams() -> Vec<Program> {
    let ask = || vec![Connect, send("hi\n"), ToEnd];
    vec![
        program("echo", |port| {
            let l = listen(port);
            let (mut s, _) = l.accept().unwrap();
            let x = line(&mut s);
            s.write_all(format!("{x}!\n").as_bytes()).unwrap();
            say(&x);
            say(&line(&mut s));
        })
        .client(vec![Connect, send("hel"), send("lo\n"), Until(b"!\n"), Close]),
        program("end-of-stream", |port| {
            let l = listen(port);
            let (mut s, _) = l.accept().unwrap();
            say(&line(&mut s));
            let mut b = [0; 4];
            say(&format!("{:?} {:?}", s.read(&mut b).map_err(|_| ()), s.read(&mut b).map_err(|_| ())));
        })
        .client(vec![Connect, send("rest"), Close]),
        program("half-close", |port| {
            let l = listen(port);
            let (mut s, _) = l.accept().unwrap();
            say(&line(&mut s));
            s.write_all(b"you are still there").unwrap();
            drop(s);
            say("end");
        })
        .client(vec![Connect, send("all"), Half, ToEnd]),
        program("reset", |port| {
            let l = listen(port);
            let (mut s, _) = l.accept().unwrap();
            say(&line(&mut s));
            say(&line(&mut s));
        })
        .client(vec![Connect, send("x\n"), Reset]),
        program("write-to-one-who-left", |port| {
            let l = listen(port);
            let (mut s, _) = l.accept().unwrap();
            // fails at some time, and from then on
            let mut failed = false;
            let mut recovered = false;
            for _ in 0..200 {
                match s.write_all(&[b'x'; 1000]).and_then(|_| s.flush()) {
                    Ok(()) if failed => recovered = true,
                    Ok(()) => lunatic::sleep(Duration::from_millis(1)),
                    Err(_) => failed = true,
                }
            }
            say(&format!("{recovered}"));
        })
        .client(vec![Connect, Close]),
        program("clones", |port| {
            // a connection ends with the last of its handles
            let l = listen(port);
            let (mut s, _) = l.accept().unwrap();
            let mut t = s.clone();
            s.write_all(b"one ").unwrap();
            drop(s);
            t.write_all(b"two").unwrap();
            drop(t);
            say("end");
        })
        .client(vec![Connect, ToEnd]),
        program("captured", |port| {
            let m = mailbox::<String>();
            let l = listen(port);
            let (s, _) = l.accept().unwrap();
            Process::spawn((m.this(), s), |(p, mut s): (Str, TcpStream), _: Mailbox<()>| {
                let x = line(&mut s);
                s.write_all(b"from the child").unwrap();
                drop(s);
                p.send(x);
            });
            say(&m.receive());
        })
        .client(ask()),
        program("captured-clone", |port| {
            // the client sees the end only when the child, too, is through
            let m = mailbox::<String>();
            let l = listen(port);
            let (mut s, _) = l.accept().unwrap();
            let child = Process::spawn((m.this(), s.clone()), |(p, mut s): (Str, TcpStream), m: Mailbox<String>| {
                let x = m.receive();
                s.write_all(x.as_bytes()).unwrap();
                drop(s);
                p.send("done".into());
            });
            s.write_all(b"main, ").unwrap();
            drop(s);
            child.send("child".into());
            say(&m.receive());
        })
        .client(vec![Connect, ToEnd]),
        program("panic-closes", |port| {
            let m = mailbox::<String>();
            let l = listen(port);
            let (s, _) = l.accept().unwrap();
            Process::spawn(s, |mut s: TcpStream, _: Mailbox<()>| {
                s.write_all(b"before").unwrap();
                panic!("with a stream");
            });
            let (mut s, _) = l.accept().unwrap();
            say(&line(&mut s));
            let _ = m;
        })
        .client(vec![Connect, ToEnd, Connect, send("x\n"), Close]),
        program("end-closes", |port| {
            let l = listen(port);
            let (s, _) = l.accept().unwrap();
            Process::spawn(s, |mut s: TcpStream, _: Mailbox<()>| {
                s.write_all(b"before").unwrap();
                std::mem::forget(s);
            });
            let (mut s, _) = l.accept().unwrap();
            say(&line(&mut s));
        })
        .client(vec![Connect, ToEnd, Connect, send("x\n"), Close]),
        program("in-messages", |port| {
            let m = mailbox::<String>();
            let l = listen(port);
            let worker = Process::spawn(m.this(), |p: Str, m: Mailbox<Parcel>| {
                let mut n = 0;
                loop {
                    match m.receive() {
                        Parcel::Stream(mut s, x) => {
                            n += 1;
                            s.write_all(format!("{x} {n}").as_bytes()).unwrap();
                        }
                        Parcel::Done => return p.send(format!("served {n}")),
                    }
                }
            });
            for i in 0..2 {
                let (s, _) = l.accept().unwrap();
                worker.send(Parcel::Stream(s, format!("conn {i}")));
            }
            worker.send(Parcel::Done);
            say(&m.receive());
        })
        .client(vec![Connect, ToEnd])
        .client(vec![Connect, ToEnd]),
        program("sent-to-the-dead", |port| {
            // a stream in a message to somebody who is gone is closed
            let l = listen(port);
            let (s, _) = l.accept().unwrap();
            let gone = Process::spawn((), |_: (), _: Mailbox<Parcel>| {});
            lunatic::sleep(Duration::from_millis(20));
            gone.send(Parcel::Stream(s, String::new()));
            let (mut s, _) = l.accept().unwrap();
            say(&line(&mut s));
        })
        .client(vec![Connect, ToEnd, Connect, send("x\n"), Close]),
        program("never-received", |port| {
            // and so is one that is in the mailbox of somebody who ends
            let m = mailbox::<String>();
            let l = listen(port);
            let (s, _) = l.accept().unwrap();
            let w = Process::spawn(m.this(), |p: Str, m: Mailbox<Parcel>| {
                let _ = m.receive();
                p.send("leaving".into());
            });
            w.send(Parcel::Done);
            w.send(Parcel::Stream(s, String::new()));
            say(&m.receive());
            let (mut s, _) = l.accept().unwrap();
            say(&line(&mut s));
        })
        .client(vec![Connect, ToEnd, Connect, send("x\n"), Close]),
        program("kept-in-a-mailbox", |port| {
            // one that nobody received yet stays open
            let l = listen(port);
            let (s, _) = l.accept().unwrap();
            let w = Process::spawn((), |_: (), m: Mailbox<Parcel>| loop {
                let Parcel::Done = m.tag_receive(Some(&[Tag::special(99).unwrap()])) else { return };
                if let Parcel::Stream(mut s, x) = m.receive() {
                    s.write_all(x.as_bytes()).unwrap();
                }
            });
            w.send(Parcel::Stream(s, "at last".into()));
            let (mut s, _) = l.accept().unwrap();
            say(&line(&mut s));
            w.tag_send(Tag::special(99).unwrap(), Parcel::Done);
            let (mut s, _) = l.accept().unwrap();
            say(&line(&mut s));
        })
        .client(vec![Connect, ToEnd, Connect, send("second\n"), Close])
        .client(vec![Connect, send("first\n"), Close]),
        program("read-and-write-at-once", |port| {
            // a process that waits for bytes does not keep another one from writing
            let m = mailbox::<String>();
            let l = listen(port);
            let (s, _) = l.accept().unwrap();
            Process::spawn((m.this(), s.clone()), |(p, mut s): (Str, TcpStream), _: Mailbox<()>| {
                loop {
                    let x = line(&mut s);
                    let end = x.ends_with('$');
                    p.send(x);
                    if end {
                        return;
                    }
                }
            });
            let mut s = s;
            s.write_all(b"greeting\n").unwrap();
            say(&m.receive());
            s.write_all(b"more\n").unwrap();
            say(&m.receive());
            say(&m.receive());
        })
        .client(vec![Connect, Until(b"\n"), send("a\n"), Until(b"\n"), send("b\n"), Close]),
        program("two-writers", |port| {
            let m = mailbox::<String>();
            let l = listen(port);
            let (s, _) = l.accept().unwrap();
            for x in ["aaaa", "bb"] {
                Process::spawn((m.this(), s.clone(), x.to_string()), |(p, mut s, x): (Str, TcpStream, String), _: Mailbox<()>| {
                    s.write_all(x.as_bytes()).unwrap();
                    s.write_all(x.to_uppercase().as_bytes()).unwrap();
                    p.send("".into());
                });
            }
            drop(s);
            m.receive();
            m.receive();
            say("end");
        })
        .client(vec![Connect, ToEnd]),
        program("two-clients", |port| {
            let l = listen(port);
            let (mut a, _) = l.accept().unwrap();
            let (mut b, _) = l.accept().unwrap();
            say(&line(&mut a));
            b.write_all(b"second").unwrap();
            a.write_all(b"first").unwrap();
            say(&line(&mut b));
        })
        .client(vec![Connect, send("x\n"), ToEnd])
        .client(vec![Connect, send("y\n"), ToEnd]),
        program("backlog", |port| {
            // clients that come while nobody accepts wait
            let l = listen(port);
            let (mut a, _) = l.accept().unwrap();
            say(&line(&mut a));
            let (mut b, _) = l.accept().unwrap();
            say(&line(&mut b));
            b.write_all(b"ok").unwrap();
        })
        .client(vec![Connect, send("first\n"), After(1)])
        .client(vec![Connect, send("second\n"), Half]),
        program("guest-client", |port| {
            let m = mailbox::<String>();
            let l = listen(port);
            Process::spawn((m.this(), port), |(p, port): (Str, u16), _: Mailbox<()>| {
                let mut s = TcpStream::connect(std::net::SocketAddr::from(([127, 0, 0, 1], port))).unwrap();
                s.write_all(b"ping\n").unwrap();
                p.send(line(&mut s));
            });
            let (mut s, _) = l.accept().unwrap();
            let x = line(&mut s);
            s.write_all(format!("pong {x}\n").as_bytes()).unwrap();
            say(&m.receive());
        }),
        program("long-data", |port| {
            let l = listen(port);
            let (mut s, _) = l.accept().unwrap();
            let mut v = vec![];
            s.read_to_end(&mut v).unwrap();
            let sum: u64 = v.iter().map(|x| *x as u64).sum();
            s.write_all(&v[..1000]).unwrap();
            say(&format!("{} {sum}", v.len()));
        })
        .client(vec![Connect, Send((0..200_000u32).map(|i| (i % 251) as u8).collect()), Half, ToEnd]),
    ]
}

// ---------------------------------------------------------------------------------------------
// puck on top of it

mod app {
    use super::*;
    use puck::ws::{message::Message, websocket::WebSocket};
    use puck::{body::Body, Request, Response};
    use puck::core::{router::{match_url::{anything, path, Match}, Route, Router}, Core, Stream, UsedStream};
    use puck_liveview::component::{manage, Component, Context};
    use puck_liveview::dom::{element::Element, event::ClickEvent, listener::{Listener, ListenerRef}};

    fn answer(s: Stream, x: String) -> UsedStream {
        s.respond(Response::build().header("Content-Type", "text/plain").body(Body::from_string(x)).build()).unwrap()
    }

    fn bind<S: Clone + Serialize + serde::de::DeserializeOwned>(port: u16, state: S) -> Core<S> {
        let core = Core::bind(std::net::SocketAddr::from(([127, 0, 0, 1], port)), state).unwrap();
        ready();
        core
    }

    pub fn each(port: u16) {
        bind(port, 5u32).for_each(|mut req: Request, s: Stream, state: u32| {
            if req.url().path() == "/panic" {
                panic!("as asked");
            }
            let body = if format!("{:?}", req.method()) == "Post" { req.take_body().into_string().unwrap_or_default() } else { String::new() };
            answer(s, format!("{:?} {} {} {}", req.method(), req.url().path(), body, state))
        })
    }

    pub fn routed(port: u16) {
        let router = Router::new()
            .route(Route::new(
                |r: &Request| Match::new().at(path("a")).at(anything()).does_match(r.url()),
                |_, s, st: String| answer(s, format!("first {st}")),
            ))
            .route(Route::new(
                |r: &Request| Match::new().at(path("ws")).does_match(r.url()),
                |req, s, _| {
                    let Ok(ws) = s.upgrade(&req) else { panic!("no WebSocket") };
                    echo(ws)
                },
            ));
        bind(port, "state".to_string()).serve_router(router);
    }

    fn echo(mut ws: WebSocket) -> UsedStream {
        loop {
            match ws.next() {
                Some(Ok(Message::Text(t))) => {
                    let _ = ws.send(Message::Text(format!("got {t}")));
                }
                Some(Ok(Message::Binary(b))) => {
                    let _ = ws.send(Message::Binary(b));
                }
                Some(Ok(_)) => {}
                _ => return UsedStream::empty(),
            }
        }
    }

    struct Clicks(u32);
    #[derive(Serialize, Deserialize, Debug)]
    pub struct Click;
    impl Component<u32, Click> for Clicks {
        fn new(n: u32, _: &Context<Click>) -> Self {
            Clicks(n)
        }
        fn update(&mut self, _: Click, _: &Context<Click>) {
            self.0 += 1;
        }
        fn render(&self) -> (Element, std::collections::HashMap<String, Listener<Click>>) {
            let mut m = std::collections::HashMap::new();
            m.insert("l".to_string(), Listener::Click { call: Box::new(|_: ClickEvent| Click) });
            let mut e = Element { name: "p".into(), text: Some(self.0.to_string().into()), ..Element::default() };
            e.listeners.push(ListenerRef::new("l", "click"));
            (e, m)
        }
    }

    pub fn live(port: u16) {
        bind(port, ()).for_each(|req: Request, s: Stream, _: ()| {
            let Ok(ws) = s.upgrade(&req) else { panic!("no WebSocket") };
            manage::<Clicks, u32, Click>(7, ws);
            UsedStream::empty()
        })
    }
}

const GET: &str = "GET /x HTTP/1.1\r\nHost: localhost\r\n\r\n";
const UPGRADE: &str = "GET /ws HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n";

fn frame(op: u8, fin: bool, data: &[u8]) -> Step {
    let key = [1u8, 2, 3, 4];
    let mut v = vec![op | if fin { 0x80 } else { 0 }, 0x80 | data.len() as u8];
    v.extend(key);
    v.extend(data.iter().enumerate().map(|(i, b)| b ^ key[i % 4]));
    Send(v)
}

fn servers() -> Vec<Program> {
    let ws = |mut more: Vec<Step>| {
        let mut v = vec![Connect, send(UPGRADE), Until(b"\r\n\r\n")];
        v.append(&mut more);
        v
    };
    vec![
        program("http", app::each).serves().client(vec![Connect, send(GET), ToEnd, Connect, send("POST /y?q HTTP/1.1\r\nHost: h\r\nContent-Length: 5\r\n\r\nhe"), send("llo"), ToEnd]),
        program("http-two", app::each).serves().client(vec![Connect, send(GET), ToEnd]).client(vec![Connect, send("GET /z HTTP/1.1\r\nHo"), send("st: localhost\r\n\r\n"), ToEnd]),
        program("http-panic", app::each).serves().client(vec![Connect, send("GET /panic HTTP/1.1\r\nHost: h\r\n\r\n"), ToEnd, Connect, send(GET), ToEnd]),
        program("http-malformed", app::each).serves().client(vec![Connect, send("nonsense\r\n\r\n"), ToEnd, Connect, send(GET), ToEnd]),
        program("http-leaves", app::each)
            .serves()
            .client(vec![Connect, Close, Connect, send("GET / HT"), Close, Connect, send(GET), Reset, Connect, send("POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 50\r\n\r\nhe"), Half, ToEnd])
            .client(vec![After(0), Connect, send(GET), ToEnd]),
        program("http-reset", app::each).serves().client(vec![Connect, send(GET), Reset]).client(vec![After(0), Connect, send(GET), ToEnd]),
        // without a length, a body goes on until the client ends it
        program("http-no-length", app::each)
            .serves()
            .client(vec![Connect, send("POST /a HTTP/1.1\r\nHost: h\r\n\r\nabc"), Half, ToEnd, Connect, send("POST /b HTTP/1.1\r\nHost: h\r\n\r\nabc"), ToEnd]),
        program("http-stalls", app::each).serves().client(vec![Connect, send("GET / HT"), After(1)]).client(vec![Connect, send(GET), Half]),
        program("routes", app::routed)
            .serves()
            .client(vec![Connect, send("GET /a/b HTTP/1.1\r\nHost: h\r\n\r\n"), ToEnd])
            .client(vec![Connect, send("bad\r\n\r\n"), ToEnd]),
        program("websocket", app::routed).serves().client(ws(vec![frame(1, true, b"one"), Exact(9), frame(2, true, b"two"), Exact(5), frame(9, true, b"ping"), Exact(6), frame(8, true, &[3, 232]), ToEnd])),
        program("websocket-fragments", app::routed).serves().client(ws(vec![frame(1, false, b"o"), frame(0, false, b"n"), frame(0, true, b"e"), Exact(9), frame(1, true, &[0xff]), ToEnd])),
        program("websocket-leaves", app::routed)
            .serves()
            .client(ws(vec![frame(1, true, b"one"), Exact(9), Reset]))
            .client(ws(vec![frame(1, true, b"two"), Exact(9), frame(1, false, b"x"), Close]))
            .client(vec![After(0), After(1), Connect, send(UPGRADE), Until(b"\r\n\r\n"), frame(1, true, b"three"), Exact(11), Close]),
        program("live", app::live).serves().client(ws(vec![
            Until(b"]"),
            frame(1, true, b"{\"listener\":\"l\",\"payload\":null}"),
            Until(b"]"),
            frame(9, true, b"p"),
            Exact(3),
            frame(1, true, b"{\"listener\":\"l\",\"payload\":null}"),
            Until(b"]"),
            frame(8, true, &[]),
            ToEnd,
        ])),
        program("live-two", app::live)
            .serves()
            .client(ws(vec![Until(b"]"), Reset]))
            .client({
                let mut v = vec![After(0)];
                v.extend(ws(vec![Until(b"]"), frame(1, true, b"{\"listener\":\"l\",\"payload\":null}"), Until(b"]"), Close]));
                v
            }),
        program("live-leaves", app::live).serves().client(ws(vec![Until(b"]"), frame(1, false, b"{"), Close])).client({
            let mut v = vec![After(0)];
            v.extend(ws(vec![Until(b"]"), frame(1, true, b"nonsense"), frame(1, true, b"{\"listener\":\"l\",\"payload\":null}"), Until(b"]"), Close]));
            v
        }),
    ]
}
