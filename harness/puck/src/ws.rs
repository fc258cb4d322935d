//! The WebSocket side of `puck`.
use crate::io::{show, Env, Sink, Src};
use crate::refhttp::split_message;
use crate::refws::*;
use mc::host::{self, net, Opts, Sched, Seg};
use mc::report::{scenario, Check, Scenario, Tier};
use mc::{choose, ensure, fail, fail_key, note, outcome, pick, Config};
use puck::core::{Core, Stream, UsedStream};
use puck::lunatic::net::TcpStream;
use puck::ws::frame::{Frame, OpCode};
use puck::ws::message::Message;
use puck::ws::send::SendFrameError;
use puck::ws::websocket::{NextMessageError, WebSocket};
use puck::Request;
use std::cell::RefCell;
use std::rc::Rc;

pub fn checks() -> Vec<Check> {
    const HOST: &str = "the Lunatic host model of mc/src/host.rs (processes, mailboxes, TCP) stands for the Lunatic runtime";
    vec![
        Check { property: "W01", assumptions: vec![HOST, "the listed header values; the method and Sec-WebSocket-Version are not judged"], scenarios: w01 },
        Check { property: "W02", assumptions: vec![HOST, "sequences of at most three messages of the catalogue, the listed payload lengths and masking keys, short reads up to the deviation bound"], scenarios: w02 },
        Check { property: "W03", assumptions: vec![HOST, "every value of the first two bytes of a frame with one payload; the listed violations in the listed contexts; unmasked empty frames are not judged"], scenarios: w03 },
        Check { property: "W04", assumptions: vec![HOST, "payload lengths up to 70000, sequences of at most three messages, faults up to the deviation bound"], scenarios: w04 },
        Check { property: "W05", assumptions: vec![HOST, "sequences of at most four frames; one client in every interleaving with the server"], scenarios: w05 },
        Check { property: "W06", assumptions: vec![HOST, "histories of at most five operations against the listed scripts of the peer"], scenarios: w06 },
        Check { property: "W07", assumptions: vec![HOST, "the listed conversations cut at every byte, failing at every operation; one client leaving at every point"], scenarios: w07 },
        Check { property: "W08", assumptions: vec![HOST, "the listed lengths; an allocation of more than 256 MiB in one piece counts as a trap"], scenarios: w08 },
    ]
}

type Log = Rc<RefCell<Vec<Ev>>>;

fn ev(x: Result<Message, NextMessageError>) -> Ev {
    match x {
        Ok(Message::Ping(p)) => Ev::Ping(p.unwrap_or_default()),
        Ok(Message::Pong(p)) => Ev::Pong(p.unwrap_or_default()),
        Ok(Message::Text(s)) => Ev::Text(s),
        Ok(Message::Binary(b)) => Ev::Bin(b),
        Err(NextMessageError::ClientError) => Ev::Bad,
        Err(NextMessageError::ConnectionClosed) => Ev::Closed,
    }
}

fn next(ws: &mut WebSocket) -> Ev {
    match ws.next() {
        Some(x) => ev(x),
        None => Ev::Closed,
    }
}

fn brief(e: &Ev) -> String {
    match e {
        Ev::Text(s) => format!("Text({})", show(s.as_bytes())),
        Ev::Bin(b) => format!("Binary({})", show(b)),
        Ev::Ping(b) => format!("Ping({})", show(b)),
        Ev::Pong(b) => format!("Pong({})", show(b)),
        Ev::Bad => "ClientError".into(),
        Ev::Closed => "ConnectionClosed".into(),
    }
}

fn briefs(e: &[Ev]) -> String {
    e.iter().map(brief).collect::<Vec<_>>().join(", ")
}

struct Run {
    conn: usize,
    events: Vec<Ev>,
    waiting: bool,
}

/// Run `f` on a WebSocket whose peer has sent `input` (and then leaves, if `eof`).
fn on_socket(opts: Opts, input: &[u8], eof: bool, f: impl FnOnce(WebSocket, &Log) + 'static) -> Run {
    host::new_world(opts);
    let conn = host::scripted_conn(input, eof);
    let log: Log = host::cell(vec![]);
    let l2 = log.clone();
    host::server("server", move || {
        let id = host::adopt(conn, 1);
        f(WebSocket::new(TcpStream::__from_id(id)), &l2);
    });
    host::run();
    let t = host::traps();
    ensure!(t.is_empty(), "trap: {t:?}");
    if host::livelock() {
        fail_key("livelock", "the server keeps working without end");
    }
    let waiting = matches!(host::procs()[0].status, host::Status::Waiting(_));
    let events = log.borrow().clone();
    Run { conn, events, waiting }
}

/// Read everything: until the connection is closed, and then twice more.
fn receive(opts: Opts, input: &[u8], eof: bool) -> Run {
    let limit = 100 + input.len() / 2;
    on_socket(opts, input, eof, move |mut ws, log| {
        let mut closed = 0;
        while closed < 3 {
            let e = next(&mut ws);
            if e == Ev::Closed {
                closed += 1;
            }
            log.borrow_mut().push(e);
            if log.borrow().len() > limit {
                fail_key("endless", "next() goes on without end");
            }
        }
    })
}

fn fixed(seg: Seg) -> Opts {
    Opts { sched: Sched::Fixed, seg, horizon: 100_000, ..Opts::default() }
}

/// Nothing but the pongs (and a close frame at the end, where allowed) was written.
fn check_writes(conn: usize, pongs: &[Vec<u8>], close: Close) {
    let w = host::written(conn, 1);
    let (frames, rest) = match server_frames(&w) {
        Ok(x) => x,
        Err(e) => fail(format!("the server wrote {}: {e}", show(&w))),
    };
    ensure!(rest.is_empty(), "the server wrote {} and then {}", show(&w[..w.len() - rest.len()]), show(rest));
    let mut want: Vec<(u8, Vec<u8>)> = pongs.iter().map(|p| (PONG, p.clone())).collect();
    let closes = match (close, frames.last()) {
        (Close::Must, _) => true,
        (Close::May, Some((CLOSE, _))) => true,
        _ => false,
    };
    let mut frames = frames;
    if closes {
        want.push((CLOSE, vec![]));
        // the content of a close frame is up to the server
        if let Some((CLOSE, d)) = frames.last_mut() {
            if d.len() != 1 {
                d.clear();
            }
        }
    }
    ensure!(frames == want, "the server wrote the frames {} instead of {}", fr(&frames), fr(&want));
}

fn fr(x: &[(u8, Vec<u8>)]) -> String {
    x.iter().map(|(o, d)| format!("{o}:{}", show(d))).collect::<Vec<_>>().join(", ")
}

#[derive(Clone, Copy)]
enum Close {
    Never,
    May,
    Must,
}

/// The socket behaves on these frames as the protocol asks.
fn conforms(frames: &[F], opts: Opts) {
    let want = react(frames);
    let input = bytes(frames);
    let run = receive(opts, &input, false);
    judge(&want, &run);
}

fn judge(want: &Reaction, run: &Run) {
    let mut events = want.events.clone();
    if want.ended_by.is_some() {
        while events.iter().filter(|e| **e == Ev::Closed).count() < 3 {
            events.push(Ev::Closed);
        }
    }
    if events != run.events {
        let key = if want.interleaved && run.events.contains(&Ev::Bad) && !want.events.contains(&Ev::Bad) {
            // the listed finding: a control frame inside a fragmented message is refused
            let k = run.events.iter().position(|e| *e == Ev::Bad).unwrap();
            (run.events[..k] == events[..k.min(events.len())]).then_some("interleaved-control")
        } else {
            None
        };
        let msg = format!("received [{}] instead of [{}]", briefs(&run.events), briefs(&events));
        match key {
            Some(k) => fail_key(k, msg),
            None => fail(msg),
        }
    }
    ensure!(run.waiting == want.ended_by.is_none(), "the socket {} for more", if run.waiting { "waits" } else { "does not wait" });
    let close = match want.ended_by {
        None => Close::Never,
        Some(_) if want.closed_by_peer => Close::Must,
        Some(_) => Close::May,
    };
    check_writes(run.conn, &want.pongs, close);
}

/// Messages, as the frames that carry them.
fn catalogue() -> Vec<Vec<F>> {
    let b125: Vec<u8> = (0..125).collect();
    let b126: Vec<u8> = (0..126).map(|i| (i * 7) as u8).collect();
    vec![
        vec![f(TEXT, b"hi")],
        vec![f(TEXT, b"")],
        vec![f(TEXT, "\u{e9}\u{1F980}\0".as_bytes())],
        vec![f(BIN, &[0, 0xff, 0x80])],
        vec![f(BIN, b"")],
        vec![f(PING, b"p")],
        vec![f(PING, b"")],
        vec![f(PING, &b125)],
        vec![f(PONG, b"q")],
        vec![f(PONG, b"")],
        vec![part(TEXT, b"ab"), f(CONT, b"c")],
        vec![part(TEXT, &[0xc3]), f(CONT, &[0xa9])],
        vec![part(BIN, b""), part(CONT, &[1, 2, 3, 4, 5]), f(CONT, b"")],
        vec![f(BIN, &b126)],
        vec![f(TEXT, b"zero").keyed([0; 4])],
        vec![f(BIN, b"\x01\x02\x03\x04\x05\x06\x07").keyed([0xff, 0, 0x80, 0x7f])],
    ]
}

/// Every text of at most `n` symbols that could be trimmed, normalised or replaced.
fn symbols(n: usize) -> String {
    const A: &[&str] = &["a", "\0", "\u{feff}", "\r", "\n", " ", "\u{a0}", "\u{fffd}", "e\u{301}", "\u{10ffff}", "A", "\x7f", "\u{200b}"];
    let n = choose(n + 1);
    (0..n).map(|_| *pick(A)).collect()
}

fn w02(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    vec![
        scenario("sequences", "every sequence of three messages of the catalogue, in one piece", Config::bound(0), move || {
            let c = catalogue();
            let n = if t { 4 } else { 3 };
            let fs: Vec<F> = (0..n).flat_map(|_| pick(&c).clone()).collect();
            conforms(&fs, fixed(Seg::All));
            outcome(&format!("{:?}", fs.iter().map(|f| (f.op, f.data.len())).collect::<Vec<_>>()));
        }),
        scenario("texts", "every text of up to three (four) symbols, whole or in fragments: as it is", Config::bound(0), move || {
            let x = symbols(if t { 4 } else { 3 });
            let x = x.as_bytes();
            let fs = match choose(3) {
                0 => vec![f(TEXT, x), f(PING, b"")],
                1 => vec![part(TEXT, b""), f(CONT, x), f(PING, b"")],
                _ => vec![part(TEXT, &x[..x.len() / 2]), part(CONT, &x[x.len() / 2..]), f(CONT, b""), f(PING, b"")],
            };
            conforms(&fs, fixed(Seg::All));
            outcome(&fs.iter().map(|f| f.data.clone()).collect::<Vec<_>>());
        }),
        scenario("segmented", "every pair of messages, with short reads", Config::bound(if t { 3 } else { 2 }), move || {
            let c = catalogue();
            let mut fs = pick(&c).clone();
            fs.extend(pick(&c).clone());
            conforms(&fs, fixed(Seg::Dev));
            outcome(&format!("{:?}", fs.iter().map(|f| (f.op, f.data.len())).collect::<Vec<_>>()));
        }),
        scenario("any-segmentation", "a conversation under every placement of short reads", Config::bound(if t { 4 } else { 3 }), move || {
            let fs = match choose(2) {
                0 => vec![f(TEXT, b"hey"), part(BIN, &[1, 2]), f(CONT, &[3]), f(PING, b"x"), f(TEXT, b"")],
                _ => vec![f(BIN, &[7; 130]), f(PONG, b""), f(TEXT, b"end")],
            };
            conforms(&fs, fixed(Seg::Dev));
            outcome(&fs.len());
        }),
        scenario("byte-by-byte", "messages arriving in writes of one, two or three bytes", Config::bound(0), || {
            let c = catalogue();
            let mut fs = pick(&c).clone();
            fs.extend(pick(&c).clone());
            let k = 1 + choose(3);
            let want = react(&fs);
            let input = bytes(&fs);
            host::new_world(Opts { sched: Sched::Fixed, horizon: 100_000, ..Opts::default() });
            let log: Log = host::cell(vec![]);
            let l2 = log.clone();
            host::server("server", move || {
                let l = puck::lunatic::net::TcpListener::bind(std::net::SocketAddr::from(([127, 0, 0, 1], 9))).unwrap();
                let (s, _) = l.accept().unwrap();
                let mut ws = WebSocket::new(s);
                loop {
                    let e = next(&mut ws);
                    l2.borrow_mut().push(e);
                }
            });
            host::client("client", move || {
                let c = net::connect(9);
                for x in input.chunks(k) {
                    c.send(x);
                }
                net::park();
            });
            host::run();
            ensure!(host::traps().is_empty(), "trap: {:?}", host::traps());
            ensure!(*log.borrow() == want.events, "received [{}] instead of [{}]", briefs(&log.borrow()), briefs(&want.events));
            outcome(&(k, fs.len()));
        }),
        scenario("lengths", "payloads around every length encoding, whole or in fragments, under several masking keys", Config::bound(1), || {
            const LENS: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 124, 125, 126, 127, 128, 255, 256, 257, 4096, 8191, 8192, 8193, 65534, 65535, 65536, 65537, 70000];
            let n = *pick(LENS);
            let op = *pick(&[TEXT, BIN]);
            let k = *pick(&[[0u8; 4], KEY, [1, 2, 4, 8], [0xff; 4], [0, 0, 0, 1], [0x80, 0, 0, 0]]);
            let pieces = 1 + choose(3);
            let data: Vec<u8> = (0..n).map(|i| if op == TEXT { b' ' + (i % 90) as u8 } else { (i * 31 + i / 256) as u8 }).collect();
            let step = n.div_ceil(pieces).max(1);
            let mut fs: Vec<F> = vec![];
            for i in 0..pieces {
                let d = &data[(i * step).min(n)..((i + 1) * step).min(n)];
                fs.push(F { fin: i + 1 == pieces, ..f(if i == 0 { op } else { CONT }, d) }.keyed(k));
            }
            fs.push(f(TEXT, b"after"));
            conforms(&fs, fixed(Seg::Dev));
            outcome(&(n, op, k, pieces));
        }),
        scenario("sizes", "messages of up to 1 MiB, of up to 1500 fragments, with control frames between them, and up to 1500 messages on one connection", Config::bound(0), || {
            let n = *pick(&[99_999usize, 131_072, 262_145, 1_048_577]);
            let many = *pick(&[9usize, 64, 257, 1500]);
            let op = *pick(&[TEXT, BIN]);
            let text: Vec<u8> = "\u{1F980}".bytes().cycle().take(n / 4 * 4).collect();
            let shape = choose(4);
            let mut fs: Vec<F> = match shape {
                // one frame
                0 => vec![f(op, &text)],
                // fragments, cut in the middle of characters
                1 => {
                    let c: Vec<&[u8]> = text.chunks(text.len() / many + 1).collect();
                    c.iter().enumerate().map(|(i, d)| F { fin: i + 1 == c.len(), ..f(if i == 0 { op } else { CONT }, d) }).collect()
                }
                // small fragments with pings between
                2 => {
                    let mut v = vec![];
                    for i in 0..many {
                        v.push(F { fin: i + 1 == many, ..f(if i == 0 { op } else { CONT }, &[b'a' + (i % 26) as u8]) });
                        if i + 1 < many {
                            v.push(f(if i % 3 == 0 { PING } else { PONG }, &[i as u8]));
                        }
                    }
                    v
                }
                // many messages
                _ => (0..many).map(|i| f(if i % 5 == 4 { PING } else { op }, format!("{i}").as_bytes())).collect(),
            };
            fs.push(f(TEXT, b"after"));
            conforms(&fs, fixed(Seg::All));
            outcome(&(n, op, many, shape));
        }),
        scenario("fragmentation", "every way of cutting a message into fragments, empty ones included", Config::bound(0), || {
            let data: &[u8] = "a\u{e9}\u{1F980}\u{7}".as_bytes();
            let op = *pick(&[TEXT, BIN]);
            let mut fs = vec![];
            let mut at = 0;
            for i in 1..=data.len() {
                let end = i == data.len();
                // nothing, a cut, or a cut and an empty fragment
                let c = if end { 1 } else { choose(3) };
                if c > 0 {
                    let o = if fs.is_empty() { op } else { CONT };
                    fs.push(F { fin: end, ..f(o, &data[at..i]) });
                    at = i;
                }
                if c == 2 {
                    fs.push(part(CONT, b""));
                }
            }
            fs.push(f(PING, b"!"));
            conforms(&fs, fixed(Seg::All));
            outcome(&(op, fs.len()));
        }),
        scenario("masks", "every value of a masked byte under every value of its key byte, at every place of the key", Config::bound(0), || {
            let at = choose(4);
            let kb = choose(256) as u8;
            let mut key = [0x11, 0x22, 0x44, 0x88];
            key[at] = kb;
            let data: Vec<u8> = (0..1024).map(|i| (i / 4) as u8).collect();
            conforms(&[f(BIN, &data).keyed(key), f(TEXT, b"x").keyed(key)], fixed(Seg::All));
            outcome(&(at, kb));
        }),
        scenario("readers", "messages read by Message::next from any reader, with short and interrupted reads, one after the other", Config::bound(if t { 3 } else { 2 }), move || {
            let c = catalogue();
            let mut fs = pick(&c).clone();
            fs.extend(pick(&c).clone());
            let src = Src::new(&bytes(&fs), Env { interrupt: true, ..Env::SHORT });
            for want in &react(&fs).events {
                let got = Message::next(src.clone()).map(|m| ev(Ok(m)));
                ensure!(got.as_ref().ok() == Some(want), "Message::next gives {got:?} instead of {want:?}");
            }
            ensure!(src.pos() == bytes(&fs).len(), "{} of {} bytes are read", src.pos(), bytes(&fs).len());
            let got = Message::next(src.clone());
            ensure!(got.is_err(), "at the end of the stream Message::next gives {got:?}");
            outcome(&format!("{:?}", fs.iter().map(|f| (f.op, f.data.len())).collect::<Vec<_>>()));
        }),
        scenario("frames", "frames read by Frame::parse from any reader, with short and interrupted reads: each whole, and not a byte more", Config::bound(if t { 3 } else { 2 }), move || {
            let n = *pick(&[0usize, 1, 5, 125, 126, 65535, 65536]);
            let op = *pick(if n <= 5 { &[BIN, CONT, TEXT, CLOSE, PING, PONG][..] } else { &[BIN] });
            let fin = n > 5 || choose(2) == 0;
            let data: Vec<u8> = (0..n).map(|i| (i * 31 + i / 256) as u8).collect();
            let frame = F { fin, ..f(op, &data) };
            let input = [frame.bytes(), f(TEXT, b"next").bytes()].concat();
            let src = Src::new(&input, Env { interrupt: true, short: n <= 126, fail: false });
            for (fin, op, data) in [(fin, op, &data[..]), (true, TEXT, b"next")] {
                let want = match op {
                    CONT => OpCode::Continue,
                    TEXT => OpCode::Text,
                    BIN => OpCode::Binary,
                    CLOSE => OpCode::Terminate,
                    PING => OpCode::Ping,
                    _ => OpCode::Pong,
                };
                match Frame::parse(src.clone()) {
                    Ok(x) => {
                        ensure!(*x.fin() == fin && *x.op_code() == want && x.decoded() == data && x.clone() == x, "a frame {want:?} of {} bytes (last: {fin}) becomes {:?} of {} (last: {})", data.len(), x.op_code(), x.decoded().len(), x.fin());
                        ensure!(x.take_decoded() == data, "take_decoded gives other bytes");
                    }
                    Err(e) => fail(format!("a frame {want:?} of {} bytes is refused: {e:?}", data.len())),
                }
            }
            ensure!(src.pos() == input.len() && Frame::parse(src.clone()).is_err(), "something follows the last frame");
            outcome(&(op, n, fin));
        }),
        scenario("interleaved-control", "control frames between the fragments of a message", Config::bound(0), || {
            let c = *pick(&[PING, PONG]);
            let d: &[u8] = pick::<&[u8]>(&[b"", b"x"]);
            let op = *pick(&[TEXT, BIN]);
            let at = choose(3);
            let mut fs = vec![part(op, b"a"), part(CONT, b"b"), f(CONT, b"c")];
            fs.insert(at, f(c, d));
            if choose(2) == 1 {
                fs.insert(at, f(PING, b"2"));
            }
            fs.push(f(TEXT, b"after"));
            conforms(&fs, fixed(Seg::All));
            outcome(&(c, op, at));
        }),
    ]
}

fn w03(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    let contexts = || -> Vec<Vec<F>> {
        vec![
            vec![],
            vec![f(TEXT, b"ok")],
            vec![f(PING, b"1"), part(BIN, &[1]), f(CONT, &[2])],
            vec![part(TEXT, b"open")],
            vec![f(BIN, b""), part(BIN, b""), part(CONT, b"x")],
        ]
    };
    vec![
        scenario("first-bytes", "every value of the first two bytes of a frame, fresh and inside a fragmented message", Config::bound(0), || {
            let b0 = choose(256) as u8;
            let b1 = choose(256) as u8;
            let inside = choose(2) == 1;
            let len = match b1 & 0x7f {
                126 => 200usize,
                127 => 65536 + 5,
                n => n as usize,
            };
            let masked = b1 & 0x80 != 0;
            if !masked && len == 0 {
                return; // not judged
            }
            let data = vec![b'a'; len];
            let fr = F { fin: b0 & 0x80 != 0, rsv: b0 >> 4 & 7, op: b0 & 15, key: masked.then_some(KEY), data };
            let mut fs = vec![];
            if inside {
                fs.push(part(TEXT, b"first"));
            }
            fs.push(fr.clone());
            ensure!(fr.bytes()[..2] == [b0, b1], "reference encoding");
            if choose(2) == 0 {
                fs.extend([f(TEXT, b"next"), f(CONT, b"next")]);
            } else {
                fs.extend([f(CONT, b"end"), f(TEXT, b"next")]);
            }
            let want = react(&fs);
            if want.interleaved {
                return; // in scenario interleaved-control of W02
            }
            let run = receive(fixed(Seg::All), &bytes(&fs), false);
            judge(&want, &run);
            outcome(&(b0, b1 & 0x80, inside, want.events));
        }),
        scenario("violations", "violations in every context, followed by further frames, with short reads", Config::bound(if t { 3 } else { 2 }), move || {
            let cs = contexts();
            let mut fs = pick(&cs).clone();
            let long = vec![b'z'; 126];
            let bad: Vec<F> = vec![
                F { key: None, ..f(TEXT, b"x") },
                F { key: None, ..f(PING, b"x") },
                F { key: None, ..f(CLOSE, &[3, 232]) },
                F { rsv: 4, ..f(TEXT, b"x") },
                F { rsv: 2, ..f(BIN, b"x") },
                F { rsv: 1, ..f(PING, b"") },
                F { rsv: 4, ..f(CLOSE, b"") },
                F { op: 3, ..f(TEXT, b"x") },
                F { op: 7, ..f(TEXT, b"") },
                F { op: 11, ..f(TEXT, b"x") },
                F { op: 15, ..f(TEXT, b"") },
                f(PING, &long),
                f(PONG, &long),
                f(CLOSE, &long),
                part(PING, b"x"),
                part(PONG, b""),
                part(CLOSE, b""),
                f(CONT, b"x"),
                part(CONT, b""),
                f(TEXT, &[0xff]),
                f(TEXT, &[b'a', 0xc3]),
                f(TEXT, &[0xed, 0xa0, 0x80]),
                f(BIN, b"x"),
                F { rsv: 1, ..part(TEXT, b"x") },
                F { rsv: 2, ..part(BIN, b"") },
                F { rsv: 4, ..f(CONT, b"x") },
                F { rsv: 1, ..part(CONT, b"") },
                F { op: 3, ..part(TEXT, b"x") },
                F { op: 12, ..part(TEXT, b"") },
                F { key: None, ..f(CONT, b"x") },
                F { key: None, ..part(TEXT, b"x") },
            ];
            fs.push(pick(&bad).clone());
            if choose(2) == 0 {
                fs.push(f(CONT, b"end"));
            }
            fs.extend([f(TEXT, b"more"), f(PING, b"more"), f(CLOSE, b"")]);
            let want = react(&fs);
            if want.interleaved {
                return;
            }
            judge(&want, &receive(fixed(Seg::Dev), &bytes(&fs), false));
            outcome(&want.events);
        }),
        scenario("utf8-short", "every text of at most two bytes, whole or in two fragments", Config::bound(0), || {
            let n = 1 + choose(2);
            let data: Vec<u8> = (0..n).map(|_| choose(256) as u8).collect();
            let cut = choose(n + 1);
            let fs = if cut == 0 {
                vec![f(TEXT, &data), f(PING, b"")]
            } else {
                vec![part(TEXT, &data[..cut]), f(CONT, &data[cut..]), f(PING, b"")]
            };
            conforms(&fs, fixed(Seg::All));
            outcome(&utf8(&data));
        }),
        scenario("utf8-long", "every text of three or four bytes around the edges of the UTF-8 table, whole or fragmented", Config::bound(0), move || {
            const E: &[u8] = &[0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff];
            let n = 3 + choose(2);
            let data: Vec<u8> = (0..n).map(|_| *pick(E)).collect();
            if !t && n == 4 && data[0] < 0xe0 && data[0] != 0x41 {
                return; // decided by its first three bytes
            }
            let fs = match choose(if t { 3 } else if n == 3 { 2 } else { 1 }) {
                0 => vec![f(TEXT, &data)],
                1 => vec![part(TEXT, &data[..1]), f(CONT, &data[1..])],
                _ => vec![part(TEXT, &data[..2]), part(CONT, &[]), f(CONT, &data[2..])],
            };
            conforms(&fs, fixed(Seg::All));
            outcome(&utf8(&data));
        }),
        scenario("sequences", "every sequence of frames of a hostile alphabet", Config::bound(0), move || {
            let a: Vec<F> = vec![
                f(TEXT, b"t"), part(TEXT, b"u"), f(CONT, b"v"), part(CONT, b"w"), part(BIN, b""), f(BIN, &[0xff]),
                f(PING, b"p"), f(CLOSE, b""), F { rsv: 2, ..f(TEXT, b"r") }, F { rsv: 4, ..part(BIN, b"s") }, F { rsv: 1, ..f(CONT, b"") }, F { op: 5, ..f(BIN, b"o") }, F { key: None, ..f(BIN, b"k") },
            ];
            let n = if t { 6 } else { 5 };
            let fs: Vec<F> = (0..n).map(|_| pick(&a).clone()).collect();
            let want = react(&fs);
            if want.interleaved {
                return;
            }
            judge(&want, &receive(fixed(Seg::All), &bytes(&fs), false));
            outcome(&want.events);
        }),
    ]
}

fn message(op: u8, data: &[u8]) -> Message {
    match op {
        TEXT => Message::Text(String::from_utf8(data.to_vec()).unwrap()),
        BIN => Message::Binary(data.to_vec()),
        PING if data.is_empty() => Message::Ping(None),
        PING => Message::Ping(Some(data.to_vec())),
        PONG if data.is_empty() => Message::Pong(None),
        _ => Message::Pong(Some(data.to_vec())),
    }
}

fn payload(op: u8, n: usize) -> Vec<u8> {
    (0..n).map(|i| if op == TEXT { b' ' + (i % 90) as u8 } else { (i * 13 + i / 256) as u8 }).collect()
}

fn sent(conn: usize) -> Vec<(u8, Vec<u8>)> {
    let w = host::written(conn, 1);
    match server_frames(&w) {
        Ok((f, [])) => f,
        Ok((f, rest)) => fail(format!("the server wrote {} and then {}", fr(&f), show(rest))),
        Err(e) => fail(format!("the server wrote {}: {e}", show(&w))),
    }
}

fn w04(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    vec![
        scenario("lengths", "messages of every length up to 300 and around 65536", Config::bound(0), move || {
            let op = *pick(&[TEXT, BIN, PING, PONG]);
            let near = [65533usize, 65534, 65535, 65536, 65537, 70000, 200_000];
            let n = if op >= 8 {
                choose(126)
            } else if t {
                match choose(66_600) {
                    66_599 => 200_000,
                    n => n,
                }
            } else {
                match choose(308) {
                    n if n > 300 => near[n - 301],
                    n => n,
                }
            };
            let how = choose(2);
            let d = payload(op, n);
            let m = message(op, &d);
            let run = on_socket(fixed(Seg::All), &[], false, move |ws, _| {
                let r = match how {
                    0 => ws.send(m),
                    _ => {
                        let c = ws.make_copy();
                        c.send(m)
                    }
                };
                ensure!(r.is_ok(), "sending failed: {r:?}");
                std::mem::forget(ws);
            });
            let got = sent(run.conn);
            ensure!(got == vec![(op, d)], "a message of {n} bytes became {}", fr(&got));
            outcome(&(op, n));
        }),
        scenario("texts", "every text of up to three (four) symbols, in every kind of message: as it is", Config::bound(0), move || {
            let x = symbols(if t { 4 } else { 3 });
            let op = *pick(&[TEXT, BIN, PING, PONG]);
            let how = choose(2);
            let d = x.into_bytes();
            let m = message(op, &d);
            host::new_world(fixed(Seg::All));
            let conn = host::scripted_conn(&[], false);
            host::server("server", move || {
                let s = TcpStream::__from_id(host::adopt(conn, 1));
                let r = if how == 0 { std::mem::ManuallyDrop::new(WebSocket::new(s)).send(m) } else { WebSocket::send_to_stream(s, m) };
                ensure!(r.is_ok(), "sending failed: {r:?}");
            });
            host::run();
            ensure!(host::traps().is_empty(), "trap: {:?}", host::traps());
            ensure!(sent(conn) == vec![(op, d)], "the message became {}", show(&host::written(conn, 1)));
            outcome(&host::written(conn, 1));
        }),
        scenario("sizes", "messages of up to 1 MiB, and up to 3000 messages on one connection", Config::bound(0), || {
            let op = *pick(&[TEXT, BIN]);
            let ms: Vec<(u8, Vec<u8>)> = match choose(2) {
                0 => {
                    let n = *pick(&[99_999usize, 131_071, 131_072, 262_145, 1_048_575, 1_048_577]);
                    vec![(op, payload(op, 3)), (op, payload(op, n)), (PING, b"p".to_vec()), (op, payload(op, n / 2)), (BIN, b"after".to_vec())]
                }
                _ => {
                    let k = *pick(&[65usize, 300, 3000]);
                    (0..k).map(|i| (if i % 7 == 6 { PING } else { op }, payload(op, i % 125))).collect()
                }
            };
            let how = choose(3);
            let m2 = ms.clone();
            host::new_world(fixed(Seg::All));
            let conn = host::scripted_conn(&[], false);
            host::server("server", move || {
                let s = TcpStream::__from_id(host::adopt(conn, 1));
                let ws = WebSocket::new(s.clone());
                for (op, d) in &m2 {
                    let m = message(*op, d);
                    let r = match how {
                        0 => ws.send(m),
                        1 => ws.make_copy().send(m),
                        _ => WebSocket::send_to_stream(s.clone(), m),
                    };
                    ensure!(r.is_ok(), "sending failed: {r:?}");
                }
                std::mem::forget(ws);
            });
            host::run();
            ensure!(host::traps().is_empty(), "trap: {:?}", host::traps());
            let got = sent(conn);
            ensure!(got.len() == ms.len(), "{} of {} messages arrive", got.len(), ms.len());
            ensure!(got == ms, "one of {} messages is changed", ms.len());
            outcome(&(op, how, ms.len()));
        }),
        scenario("sequences", "every sequence of three messages, sent through the socket, a copy or the stream, with short writes", Config::bound(if t { 3 } else { 2 }), move || {
            let c: Vec<(u8, Vec<u8>)> = vec![
                (TEXT, b"one".to_vec()), (TEXT, vec![]), (BIN, vec![0x81, 0x00, 0xff]), (BIN, payload(BIN, 126)),
                (PING, vec![]), (PING, b"p".to_vec()), (PONG, payload(PONG, 125)),
            ];
            let ms: Vec<(u8, Vec<u8>)> = (0..3).map(|_| pick(&c).clone()).collect();
            let how = choose(3);
            let m2 = ms.clone();
            let opts = Opts { short_writes: true, ..fixed(Seg::All) };
            host::new_world(opts);
            let conn = host::scripted_conn(&[], false);
            host::server("server", move || {
                let id = host::adopt(conn, 1);
                let s = TcpStream::__from_id(id);
                let ws = WebSocket::new(s.clone());
                for (op, d) in &m2 {
                    let m = message(*op, d);
                    let r = match how {
                        0 => ws.send(m),
                        1 => ws.make_copy().send(m),
                        _ => WebSocket::send_to_stream(s.clone(), m),
                    };
                    ensure!(r.is_ok(), "sending failed: {r:?}");
                }
            });
            host::run();
            ensure!(host::traps().is_empty(), "trap: {:?}", host::traps());
            let got = sent(conn);
            ensure!(got == ms, "sent {} and the peer finds {}", fr(&ms), fr(&got));
            outcome(&(how, ms));
        }),
        scenario("processes", "messages which several processes send through copies of a socket, in every interleaving: each arrives whole, those of one process in its order", Config::bound(0), move || {
            const LENGTHS: &[usize] = &[0, 1, 126, 65_536, 300_000];
            const PLANS: &[&[&[usize]]] = &[
                &[&[1, 1], &[1, 1]], &[&[0, 2], &[1]], &[&[3, 1], &[2]], &[&[1], &[1], &[1]], &[&[1, 2, 1], &[1, 1, 2]], &[&[1, 2], &[1, 1], &[1]], &[&[4, 1], &[4]],
                &[&[1, 1], &[1, 1], &[1, 1]], &[&[1], &[1], &[1], &[1]],
            ];
            let plan = PLANS[choose(if t { 9 } else { 7 })];
            let message = |p: usize, k: usize, n: usize| vec![(p * 16 + k + 1) as u8; LENGTHS[n]];
            host::new_world(Opts { sched: Sched::Full, ..Opts::default() });
            let conn = host::scripted_conn(&[], false);
            host::server("server", move || {
                let ws = WebSocket::new(TcpStream::__from_id(host::adopt(conn, 1)));
                for (p, sends) in plan.iter().enumerate() {
                    let all: Vec<Vec<u8>> = sends.iter().enumerate().map(|(k, n)| message(p, k, *n)).collect();
                    puck::lunatic::Process::spawn((ws.make_copy(), all), |(ws, all): (WebSocket, Vec<Vec<u8>>), _: puck::lunatic::Mailbox<()>| {
                        for m in all {
                            ensure!(ws.send(Message::Binary(m)).is_ok(), "a message cannot be sent");
                        }
                    });
                }
                net::park();
            });
            host::run();
            ensure!(host::traps().is_empty(), "trap: {:?}", host::traps());
            let got = sent(conn);
            ensure!(got.len() == plan.iter().map(|p| p.len()).sum::<usize>() && got.iter().all(|f| f.0 == BIN), "the peer received {}", fr(&got));
            for (p, sends) in plan.iter().enumerate() {
                let want: Vec<Vec<u8>> = sends.iter().enumerate().map(|(k, n)| message(p, k, *n)).collect();
                let mut it = got.iter();
                ensure!(want.iter().all(|w| it.any(|g| g.1 == *w)), "process {p} sent messages of {:?}, and the peer received {}", sends, fr(&got));
            }
            outcome(&got.iter().map(|g| (g.1.first().copied(), g.1.len())).collect::<Vec<_>>());
        }),
        scenario("too-long", "pings and pongs that no frame may carry are refused, and nothing of them is written", Config::bound(0), move || {
            let op = *pick(&[PING, PONG]);
            let n = match choose(if t { 1000 } else { 200 } + 3) {
                0 => 65_535,
                1 => 65_536,
                2 => 200_000,
                n => 123 + n,
            };
            let how = choose(2);
            let run = on_socket(fixed(Seg::All), &[], false, move |ws, _| {
                let send = |m| match how {
                    0 => ws.send(m),
                    _ => ws.make_copy().send(m),
                };
                let r = send(message(op, &payload(op, n)));
                ensure!(r.is_err(), "a control frame of {n} bytes was sent");
                let r = send(message(TEXT, b"after"));
                ensure!(r.is_ok(), "sending failed: {r:?}");
                std::mem::forget(ws);
            });
            let w = host::written(run.conn, 1);
            ensure!(w == F { key: None, ..f(TEXT, b"after") }.bytes(), "the peer receives {}", show(&w));
            outcome(&(op, n, how));
        }),
        scenario("faults", "failing writes are reported and never leave anything but a prefix of what was sent", Config::bound(if t { 5 } else { 4 }), move || {
            let ms: Vec<(u8, Vec<u8>)> = vec![(TEXT, b"abc".to_vec()), (BIN, payload(BIN, 130)), (PING, vec![]), (TEXT, b"d".to_vec())];
            let m2 = ms.clone();
            let ok: Rc<RefCell<Vec<bool>>> = host::cell(vec![]);
            let ok2 = ok.clone();
            let opts = Opts { short_writes: true, write_errors: true, ..fixed(Seg::All) };
            let run = on_socket(opts, &[], false, move |ws, _| {
                for (op, d) in &m2 {
                    let r = ws.send(message(*op, d));
                    ok2.borrow_mut().push(r.is_ok());
                }
            });
            let w = host::written(run.conn, 1);
            let whole: Vec<u8> = ms.iter().flat_map(|(o, d)| F { key: None, ..f(*o, d) }.bytes()).collect();
            ensure!(whole.starts_with(&w), "the peer receives {}", show(&w));
            let (got, _) = server_frames(&w).unwrap();
            let oks = ok.borrow().iter().take_while(|x| **x).count();
            ensure!(got.len() == oks && ok.borrow().iter().filter(|x| **x).count() == oks, "{} whole frames were written, sends reported {:?}", got.len(), ok.borrow());
            outcome(&(w, ok.borrow().clone()));
        }),
    ]
}

fn w05(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    vec![
        scenario("at-once", "when next() returns a ping, exactly its pong has been sent", Config::bound(if t { 3 } else { 2 }), move || {
            let b125 = payload(BIN, 125);
            let a: Vec<Vec<F>> = vec![
                vec![f(PING, b"")], vec![f(PING, b"a")], vec![f(PING, b"bb").keyed([0, 1, 2, 3])], vec![f(PING, &b125)], vec![f(PING, &[0xff, 0])],
                vec![f(PONG, b"z")], vec![f(TEXT, b"t")], vec![part(BIN, b"x"), f(CONT, b"y")],
            ];
            let n = if t { 4 } else { 3 };
            let fs: Vec<F> = (0..n).flat_map(|_| pick(&a).clone()).collect();
            let want = react(&fs);
            let total = want.events.len();
            host::new_world(Opts { short_writes: true, ..fixed(Seg::All) });
            let conn = host::scripted_conn(&bytes(&fs), false);
            let log: Log = host::cell(vec![]);
            let l2 = log.clone();
            host::server("server", move || {
                let id = host::adopt(conn, 1);
                let mut ws = WebSocket::new(TcpStream::__from_id(id));
                let mut pongs = vec![];
                for _ in 0..total {
                    let e = next(&mut ws);
                    if let Ev::Ping(p) = &e {
                        pongs.push((PONG, p.clone()));
                    }
                    l2.borrow_mut().push(e);
                    let got = sent(conn);
                    ensure!(got == pongs, "after [{}] the peer has received {}", briefs(&l2.borrow()), fr(&got));
                }
                net::park();
            });
            host::run();
            ensure!(host::traps().is_empty(), "trap: {:?}", host::traps());
            ensure!(*log.borrow() == want.events, "received [{}] instead of [{}]", briefs(&log.borrow()), briefs(&want.events));
            outcome(&format!("{:?}", want.pongs));
        }),
        scenario("conversation", "clients that wait for every pong, in every interleaving with an echoing server", Config::bound(0), move || {
            let clients = 1 + choose(2);
            let n = if t { 5 - clients } else { 4 - clients / 2 };
            let scripts: Vec<Vec<F>> = (0..clients).map(|c| (0..n).map(|i| match choose(4) {
                0 => f(PING, &[b'0' + i as u8, b'a' + c as u8]),
                1 => f(PING, b""),
                2 => f(TEXT, &[b'0' + i as u8, b'a' + c as u8]),
                _ => f(PONG, b"unsolicited"),
            }).collect()).collect();
            // does not wait: everything is under way at once
            let waits = choose(2) == 0;
            echo_server();
            let seen: Vec<Rc<RefCell<Option<(Vec<(u8, Vec<u8>)>, Vec<u8>)>>>> = scripts.iter().map(|_| host::cell(None)).collect();
            for (c, script) in scripts.iter().enumerate() {
                let (s2, script2) = (seen[c].clone(), script.clone());
                host::client(&format!("client {c}"), move || {
                    let c = net::connect(crate::server::PORT);
                    c.send(upgrade_request(true).as_bytes());
                    c.recv_until(b"\r\n\r\n");
                    let mut got = vec![];
                    for fr in &script2 {
                        c.send(&fr.bytes());
                        if waits && fr.op != PONG {
                            got.push(recv_frame(&c));
                        }
                    }
                    c.send(&f(CLOSE, b"").bytes());
                    if !waits {
                        (0..script2.iter().filter(|f| f.op != PONG).count()).for_each(|_| got.push(recv_frame(&c)));
                    }
                    got.push(recv_frame(&c));
                    let rest = c.recv_to_end();
                    *s2.borrow_mut() = Some((got, rest));
                });
            }
            host::run();
            ensure!(host::traps().is_empty(), "trap: {:?}", host::traps());
            for (script, seen) in scripts.iter().zip(&seen) {
                let mut want: Vec<(u8, Vec<u8>)> = script.iter().filter(|f| f.op != PONG).map(|f| (if f.op == PING { PONG } else { f.op }, f.data.clone())).collect();
                want.push((CLOSE, vec![]));
                match &*seen.borrow() {
                    None => fail_key("stuck", format!("the conversation {} never ends", fr(&want))),
                    Some((got, rest)) => {
                        ensure!(*got == want, "the client received {} instead of {}", fr(got), fr(&want));
                        ensure!(rest.is_empty(), "and then {}", show(rest));
                    }
                }
                outcome(&format!("{want:?}"));
            }
        }),
    ]
}

/// One frame of the server, `(255, ..)` if there is none.
fn recv_frame(c: &net::Sock) -> (u8, Vec<u8>) {
    let mut b = c.recv_exact(2);
    if b.len() < 2 {
        return (255, b);
    }
    let n = (b[1] & 0x7f) as usize;
    b.extend(c.recv_exact(n));
    match server_frames(&b) {
        Ok((f, [])) if f.len() == 1 => f[0].clone(),
        x => fail(format!("the client received {}: {x:?}", show(&b))),
    }
}

const SAMPLE_KEY: &str = "dGhlIHNhbXBsZSBub25jZQ==";

fn upgrade_request(ok: bool) -> String {
    format!("GET /chat HTTP/1.1\r\nHost: h\r\nUpgrade: {}\r\nConnection: Upgrade\r\nSec-WebSocket-Key: {SAMPLE_KEY}\r\nSec-WebSocket-Version: 13\r\n\r\n", if ok { "websocket" } else { "h2c" })
}

thread_local! {
    static HANDLED: RefCell<Vec<&'static str>> = const { RefCell::new(vec![]) };
}

fn handled(s: &'static str) {
    HANDLED.with(|h| h.borrow_mut().push(s))
}

/// Echoes text and binary messages for as long as the connection lasts.
fn echo(req: Request, stream: Stream, _: ()) -> UsedStream {
    handled("start");
    let mut ws = match stream.upgrade(&req) {
        Ok(ws) => ws,
        Err(u) => {
            handled("refused");
            return u;
        }
    };
    handled("upgraded");
    loop {
        match ws.next() {
            Some(Ok(m @ (Message::Text(_) | Message::Binary(_)))) => {
                if ws.send(m).is_err() {
                    break;
                }
            }
            Some(Ok(_)) => {}
            Some(Err(NextMessageError::ClientError)) => handled("client error"),
            Some(Err(NextMessageError::ConnectionClosed)) | None => break,
        }
    }
    handled("end");
    match ws.close() {
        Ok(u) => u,
        Err(_) => UsedStream::empty(),
    }
}

fn echo_server() {
    echo_server_with(Opts { sched: Sched::Full, ..Opts::default() })
}

fn echo_server_with(opts: Opts) {
    HANDLED.with(|h| h.borrow_mut().clear());
    host::new_world(opts);
    host::server("server", || {
        let a = std::net::SocketAddr::from(([127, 0, 0, 1], crate::server::PORT));
        Core::bind(a, ()).unwrap().for_each(echo)
    });
}

fn w01(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    /// Send the request, read the head of the answer; if it is an upgrade exchange a ping and a
    /// text, then close; else read to the end.
    fn talk(req: String) -> Rc<RefCell<Option<(Vec<u8>, Vec<(u8, Vec<u8>)>, Vec<u8>)>>> {
        let seen = host::cell(None);
        let s2 = seen.clone();
        host::client("client", move || {
            let c = net::connect(crate::server::PORT);
            c.send(req.as_bytes());
            let head = c.recv_until(b"\r\n\r\n");
            let mut got = vec![];
            if head.starts_with(b"HTTP/1.1 101 ") {
                c.send(&bytes(&[f(PING, b"1"), f(TEXT, b"two")]));
                got.push(recv_frame(&c));
                got.push(recv_frame(&c));
                c.send(&f(CLOSE, b"").bytes());
                got.push(recv_frame(&c));
            }
            let rest = c.recv_to_end();
            *s2.borrow_mut() = Some((head, got, rest));
        });
        seen
    }
    fn judge(seen: &Rc<RefCell<Option<(Vec<u8>, Vec<(u8, Vec<u8>)>, Vec<u8>)>>>, key: Option<&str>) {
        ensure!(host::traps().is_empty(), "trap: {:?}", host::traps());
        let Some((head, got, rest)) = seen.borrow().clone() else { fail_key("stuck", "the client is left waiting") };
        let log = HANDLED.with(|h| h.borrow().clone());
        match key {
            Some(k) => {
                let Some((start, hs, _)) = split_message(&head) else { fail(format!("the client received {}", show(&head))) };
                ensure!(start.starts_with("HTTP/1.1 101 "), "the upgrade is answered by {start:?}");
                let h = |n: &str| hs.iter().filter(|(a, _)| a.eq_ignore_ascii_case(n)).map(|(_, v)| v.clone()).collect::<Vec<_>>();
                ensure!(h("Sec-WebSocket-Accept") == vec![accept_key(k)], "the key {k:?} is answered by {:?} instead of {:?}", h("Sec-WebSocket-Accept"), accept_key(k));
                ensure!(h("Upgrade").len() == 1 && h("Upgrade")[0].eq_ignore_ascii_case("websocket"), "Upgrade: {:?}", h("Upgrade"));
                ensure!(h("Connection").len() == 1 && h("Connection")[0].eq_ignore_ascii_case("upgrade"), "Connection: {:?}", h("Connection"));
                ensure!(h("Content-Length").iter().all(|v| v == "0") && h("Sec-WebSocket-Protocol").is_empty() && h("Sec-WebSocket-Extensions").is_empty(), "headers of the upgrade: {hs:?}");
                let want = vec![(PONG, b"1".to_vec()), (TEXT, b"two".to_vec()), (CLOSE, vec![])];
                ensure!(got == want, "after the upgrade the client received {} instead of {}", fr(&got), fr(&want));
                ensure!(rest.is_empty(), "after the close frame the client received {}", show(&rest));
                ensure!(log == ["start", "upgraded", "end"], "the handler went through {log:?}");
            }
            None => {
                let mut all = head.clone();
                all.extend(&rest);
                let Some((start, _, _)) = split_message(&all) else { fail(format!("the client received {}", show(&all))) };
                ensure!(start.starts_with("HTTP/1.1 400 "), "the request must not be upgraded, and is answered by {start:?}");
                let n = all.windows(9).filter(|w| w == b"HTTP/1.1 ").count();
                ensure!(n == 1, "the refused request is answered {n} times");
                ensure!(log == ["start", "refused"], "the handler went through {log:?}");
            }
        }
    }
    vec![
        scenario("headers", "every combination of the headers of an upgrade", Config::bound(0).fresh(), move || {
            mc::hash_seed(choose(2));
            let up = *pick(&[None, Some("websocket"), Some("WebSocket"), Some("WEBSOCKET"), Some("h2c"), Some("websocket2"), Some("websocke"), Some("TLS/1.0"), Some("")]);
            let conn = *pick(&[None, Some("Upgrade"), Some("upgrade"), Some("UPGRADE"), Some("keep-alive, Upgrade"), Some("Upgrade, keep-alive"), Some("keep-alive\r\nConnection: Upgrade"), Some("upgrade\r\nconnection: keep-alive"), Some("close\r\nCONNECTION: keep-alive"), Some("noupgrade"), Some("Upgrades"), Some("up grade"), Some("keep-alive, upgrade-later"), Some("a,UPGRADE ,b"), Some("close"), Some("keep-alive"), Some("")]);
            let key = *pick(&[None, Some(SAMPLE_KEY), Some("x3JJHMbDL1EzLkh9GBhXDw=="), Some("AQIDBAUGBwgJCgsMDQ4PEA=="), Some("////////////////////+==")]);
            let case = choose(3);
            let order = choose(2);
            let name = |s: &str| match case {
                0 => s.to_string(),
                1 => s.to_ascii_lowercase(),
                _ => s.to_ascii_uppercase(),
            };
            let mut hs = vec![];
            for (n, v) in [("Upgrade", up), ("Connection", conn), ("Sec-WebSocket-Key", key), ("Sec-WebSocket-Version", Some("13")), ("Origin", Some("http://upgrade.websocket"))] {
                if let Some(v) = v {
                    hs.push(format!("{}: {v}\r\n", name(n)));
                }
            }
            if order == 1 {
                hs.reverse();
            }
            let req = format!("GET /chat HTTP/1.1\r\n{}: h\r\n{}\r\n", "Host", hs.concat());
            note(|| format!("{req:?}"));
            let ok = up.is_some_and(|x| x.eq_ignore_ascii_case("websocket")) && conn.is_some_and(|x| x.split(|c| ",:\r".contains(c)).any(|y| y.trim().eq_ignore_ascii_case("upgrade")));
            let key = if ok { key } else { None };
            echo_server_with(Opts { sched: Sched::Fixed, ..Opts::default() });
            let seen = talk(req);
            host::run();
            judge(&seen, key);
            outcome(&(up, conn, key));
        }),
        scenario("writers", "perform_upgrade on any writer, with short, interrupted and failing writes", Config::bound(3), move || {
            let key = *pick(&[None, Some(SAMPLE_KEY)]);
            let mut b = Request::build("http://h/").header("Upgrade", "websocket").header("Connection", "Upgrade");
            if let Some(k) = key {
                b = b.header("Sec-WebSocket-Key", k);
            }
            let r = b.method(puck::request::Method::Get).build();
            ensure!(puck::ws::upgrade::should_upgrade(&r), "should_upgrade refuses a request for an upgrade");
            let w = Sink::new(Env::ALL);
            let done = puck::ws::upgrade::perform_upgrade(&r, w.clone());
            let got = w.data();
            let head = split_message(&got);
            let whole = head.as_ref().is_some_and(|(s, hs, body)| match key {
                Some(k) => s.starts_with("HTTP/1.1 101 ") && hs.iter().any(|(n, v)| n.eq_ignore_ascii_case("Sec-WebSocket-Accept") && *v == accept_key(k)) && body.is_empty(),
                None => s.starts_with("HTTP/1.1 400 "),
            });
            ensure!(whole || w.failed(), "perform_upgrade wrote {}", show(&got));
            ensure!(done == (key.is_some() && whole), "perform_upgrade says {done} and wrote {}", show(&got));
            outcome(&(key, done, got.len()));
        }),
        scenario("keys", "accept keys of keys of every length", Config::bound(0), move || {
            let n = choose(130);
            let k: String = (0..n).map(|i| (b'!' + ((i * 7 + n) % 90) as u8) as char).collect();
            if k.is_empty() {
                return;
            }
            let req = format!("GET / HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: {k}\r\n\r\n");
            echo_server_with(Opts { sched: Sched::Fixed, ..Opts::default() });
            let seen = talk(req);
            host::run();
            judge(&seen, Some(&k));
            outcome(&n);
        }),
        scenario("segmented", "upgrades with short reads and writes", Config::bound(if t { 3 } else { 2 }), move || {
            let ok = choose(2) == 0;
            echo_server_with(Opts { sched: Sched::Fixed, seg: Seg::Dev, short_writes: true, ..Opts::default() });
            let seen = talk(upgrade_request(ok));
            host::run();
            judge(&seen, ok.then_some(SAMPLE_KEY));
            outcome(&ok);
        }),
        scenario("segmented-concurrent", "two clients upgrade at once, with short reads and writes, in every interleaving", Config::bound(if t { 2 } else { 1 }), move || {
            echo_server_with(Opts { sched: Sched::Full, seg: Seg::Dev, short_writes: true, ..Opts::default() });
            let ok = choose(2) == 0;
            let a = talk(upgrade_request(true));
            let b = talk(upgrade_request(ok));
            host::run();
            let mut log = HANDLED.with(|h| h.borrow().clone());
            log.sort();
            let mut want = if ok { ["start", "upgraded", "end"].repeat(2) } else { vec!["start", "upgraded", "end", "start", "refused"] };
            want.sort();
            ensure!(log == want, "the handlers went through {log:?}");
            HANDLED.with(|h| *h.borrow_mut() = vec!["start", "upgraded", "end"]);
            judge(&a, Some(SAMPLE_KEY));
            if !ok {
                HANDLED.with(|h| *h.borrow_mut() = vec!["start", "refused"]);
            }
            judge(&b, ok.then_some(SAMPLE_KEY));
            outcome(&ok);
        }),
        scenario("interleaved", "clients that upgrade next to one that is refused, in every interleaving", Config::bound(0), move || {
            echo_server();
            let a = talk(upgrade_request(true));
            let more: Vec<_> = (0..choose(if t { 3 } else { 2 })).map(|_| talk(upgrade_request(true).replace(SAMPLE_KEY, "x3JJHMbDL1EzLkh9GBhXDw=="))).collect();
            let b = host::cell(None);
            let b2 = b.clone();
            host::client("other", move || {
                let c = net::connect(crate::server::PORT);
                c.send(upgrade_request(false).as_bytes());
                *b2.borrow_mut() = Some(c.recv_to_end());
            });
            host::run();
            let mut log = HANDLED.with(|h| h.borrow().clone());
            log.sort();
            let mut want = ["end", "start", "upgraded"].repeat(1 + more.len());
            want.extend(["refused", "start"]);
            want.sort();
            ensure!(log == want, "the handlers went through {log:?}");
            HANDLED.with(|h| *h.borrow_mut() = vec!["start", "upgraded", "end"]);
            judge(&a, Some(SAMPLE_KEY));
            for m in &more {
                judge(m, Some("x3JJHMbDL1EzLkh9GBhXDw=="));
            }
            let b = b.borrow().clone();
            ensure!(b.as_ref().is_some_and(|b| b.starts_with(b"HTTP/1.1 400 ")), "the other client received {b:?}");
            outcome(&b);
        }),
    ]
}

fn w06(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    fn closes() -> Vec<F> {
        vec![
            f(CLOSE, b""),
            f(CLOSE, &[3, 232]),
            f(CLOSE, b"\x03\xe8going away"),
            F { data: [&[3u8, 233][..], &[b'r'; 123]].concat(), ..f(CLOSE, b"") },
        ]
    }
    vec![
        scenario("histories", "every history of operations against every script of the peer", Config::bound(0), move || {
            let mut fs: Vec<F> = match choose(5) {
                0 => vec![],
                1 => vec![f(TEXT, b"a")],
                2 => vec![f(PING, b"p"), f(BIN, b"b")],
                3 => vec![part(TEXT, b"un")],
                _ => vec![f(TEXT, b"a"), part(TEXT, b"un"), part(CONT, b"x")],
            };
            let cs = closes();
            fs.push(pick(&cs).clone());
            let want = react(&fs);
            // not to be delivered, nor answered
            if choose(2) == 1 {
                fs.extend([f(TEXT, b"late"), f(PING, b"late"), f(CLOSE, b"")]);
            }
            let n = if t { 8 } else { 6 };
            let ops: Vec<usize> = (0..n).map(|_| choose(3)).collect();
            let last = choose(2);
            // the model
            let mut open = true;
            let mut at = 0;
            let mut events = vec![];
            let mut frames = vec![];
            let mut sends = vec![];
            for (i, o) in ops.iter().enumerate() {
                match o {
                    0 => {
                        let e = if open { want.events[at].clone() } else { Ev::Closed };
                        at += 1;
                        if let Ev::Ping(p) = &e {
                            frames.push((PONG, p.clone()));
                        }
                        if open && e == Ev::Closed {
                            frames.push((CLOSE, vec![]));
                            open = false;
                        }
                        events.push(e);
                    }
                    _ => {
                        if open {
                            frames.push((BIN, vec![i as u8]));
                        }
                        sends.push(open);
                    }
                }
            }
            if open && last == 1 {
                frames.push((CLOSE, vec![]));
            }
            note(|| format!("ops {ops:?} last {last} frames {:?}", fs.iter().map(|f| f.op).collect::<Vec<_>>()));
            let oks = host::cell(vec![]);
            let oks2 = oks.clone();
            let run = on_socket(fixed(Seg::All), &bytes(&fs), false, move |mut ws, log| {
                for (i, o) in ops.iter().enumerate() {
                    match o {
                        0 => {
                            let e = next(&mut ws);
                            log.borrow_mut().push(e);
                        }
                        o => {
                            let m = Message::Binary(vec![i as u8]);
                            let r = if *o == 1 { ws.send(m) } else { ws.make_copy().send(m) };
                            if let Err(e) = &r {
                                ensure!(matches!(e, SendFrameError::ConnectionClosed), "sending on a closed connection reports {e:?}");
                            }
                            oks2.borrow_mut().push(r.is_ok());
                        }
                    }
                }
                if last == 1 {
                    let r = ws.close();
                    ensure!(r.is_ok(), "close() fails: {r:?}");
                }
            });
            ensure!(!run.waiting, "the socket waits although the connection is closed; received [{}]", briefs(&run.events));
            ensure!(run.events == events, "received [{}] instead of [{}]", briefs(&run.events), briefs(&events));
            ensure!(*oks.borrow() == sends, "sends succeeded as {:?} instead of {sends:?}", oks.borrow());
            let mut got = sent(run.conn);
            for (o, d) in &mut got {
                if *o == CLOSE && d.len() != 1 {
                    d.clear();
                }
            }
            ensure!(got == frames, "the peer received {} instead of {}", fr(&got), fr(&frames));
            ensure!(host::is_closed(run.conn, 1), "the connection stays open after its socket is gone");
            outcome(&(events, frames));
        }),
        scenario("segmented", "the close frame arrives in pieces, its answer is written in pieces", Config::bound(if t { 4 } else { 3 }), move || {
            let cs = closes();
            let fs = vec![f(PING, b"p"), pick(&cs).clone(), f(TEXT, b"late")];
            conforms(&fs, Opts { short_writes: true, ..fixed(Seg::Dev) });
            outcome(&fs[1].data);
        }),
        scenario("both-sides", "both sides close, in every interleaving", Config::bound(0), move || {
            HANDLED.with(|h| h.borrow_mut().clear());
            host::new_world(Opts { sched: Sched::Full, ..Opts::default() });
            fn early(req: Request, stream: Stream, _: ()) -> UsedStream {
                let Ok(mut ws) = stream.upgrade(&req) else { return UsedStream::empty() };
                let n = req.headers().get("X-N").and_then(|x| x.parse().ok()).unwrap_or(0);
                for _ in 0..n {
                    let _ = ws.next();
                }
                handled("closing");
                match ws.close() {
                    Ok(u) => {
                        handled("closed");
                        u
                    }
                    Err(_) => UsedStream::empty(),
                }
            }
            host::server("server", || {
                let a = std::net::SocketAddr::from(([127, 0, 0, 1], crate::server::PORT));
                Core::bind(a, ()).unwrap().for_each(early)
            });
            let clients = 1 + choose(if t { 3 } else { 2 });
            let ns: Vec<usize> = (0..clients).map(|_| choose(4)).collect();
            let done: Vec<Rc<RefCell<Option<Vec<u8>>>>> = ns.iter().map(|_| host::cell(None)).collect();
            for (n, done) in ns.iter().copied().zip(&done) {
                let d2 = done.clone();
                host::client("client", move || {
                    let c = net::connect(crate::server::PORT);
                    c.send(upgrade_request(true).replace("\r\n\r\n", &format!("\r\nX-N: {n}\r\n\r\n")).as_bytes());
                    c.recv_until(b"\r\n\r\n");
                    c.send(&f(TEXT, b"x").bytes());
                    c.send(&f(CLOSE, b"").bytes());
                    *d2.borrow_mut() = Some(c.recv_to_end());
                });
            }
            host::run();
            ensure!(host::traps().is_empty(), "trap: {:?}", host::traps());
            for d in &done {
                let Some(out) = d.borrow().clone() else { fail_key("stuck", "the client waits for the end of a closed connection") };
                let got = server_frames(&out);
                ensure!(matches!(&got, Ok((f, [])) if f.len() == 1 && f[0].0 == CLOSE), "the client received {}", show(&out));
            }
            let mut log = HANDLED.with(|h| h.borrow().clone());
            log.sort();
            let mut want = ["closing", "closed"].repeat(clients);
            want.sort();
            ensure!(log == want, "the handlers went through {log:?}");
            outcome(&ns);
        }),
    ]
}

fn w07(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    fn conversations() -> Vec<Vec<F>> {
        vec![
            vec![f(TEXT, b"hello"), f(PING, b"p"), part(BIN, &[1, 2]), f(CONT, &[3])],
            vec![part(TEXT, b"a"), part(CONT, b"b"), f(CONT, b"c"), f(BIN, &[9; 130]), f(CLOSE, &[3, 232])],
            vec![f(PONG, b""), f(TEXT, b""), f(BIN, &[7; 66_000])],
        ]
    }
    /// After anything went wrong: what was complete before it, then errors only.
    fn prefix(run: &Run, want: &Reaction, what: &str) {
        let k = run.events.iter().position(|e| matches!(e, Ev::Bad | Ev::Closed)).unwrap_or(run.events.len());
        ensure!(want.events.starts_with(&run.events[..k]), "{what}: received [{}]", briefs(&run.events));
        ensure!(k < run.events.len() && !run.waiting, "{what}: nothing reports the failure, received [{}]", briefs(&run.events));
        let bad = run.events[k..].iter().filter(|e| **e == Ev::Bad).count();
        let closed = run.events[k..].iter().filter(|e| **e == Ev::Closed).count();
        ensure!(bad <= 1 && bad + closed == run.events.len() - k && run.events.last() == Some(&Ev::Closed), "{what}: received [{}]", briefs(&run.events));
    }
    vec![
        scenario("cut", "conversations that break off after every byte", Config::bound(if t { 3 } else { 2 }), move || {
            let cs = conversations();
            let fs = pick(&cs).clone();
            let all = bytes(&fs);
            let n = if all.len() > 1000 {
                // the long payload: around its edges
                let e = all.len();
                let c: Vec<usize> = (0..24).chain([100, e - 4096, e - 2, e - 1]).collect();
                *pick(&c)
            } else {
                choose(all.len() + 1)
            };
            let run = receive(fixed(Seg::Dev), &all[..n], true);
            // the frames that arrived whole
            let mut whole = 0;
            let mut at = 0;
            for x in &fs {
                at += x.bytes().len();
                if at <= n {
                    whole += 1;
                }
            }
            let want = react(&fs[..whole]);
            let k = run.events.iter().position(|e| matches!(e, Ev::Bad | Ev::Closed)).unwrap_or(run.events.len());
            let good: Vec<Ev> = want.events.iter().filter(|e| **e != Ev::Closed).cloned().collect();
            ensure!(run.events[..k] == good[..], "cut after {n} bytes: received [{}] instead of [{}]", briefs(&run.events), briefs(&good));
            prefix(&run, &want, &format!("cut after {n} bytes"));
            outcome(&run.events);
        }),
        scenario("faults", "reads and writes that fail, wherever they happen", Config::bound(if t { 4 } else { 3 }), move || {
            let cs = conversations();
            let mut fs = cs[choose(2)].clone();
            fs.push(f(CLOSE, b""));
            let want = react(&fs);
            let opts = Opts { read_errors: true, write_errors: true, short_writes: true, ..fixed(Seg::Dev) };
            let run = receive(opts, &bytes(&fs), false);
            prefix(&run, &want, "failing connection");
            outcome(&run.events);
        }),
        scenario("readers", "messages read by Message::next from any reader that fails or ends anywhere: whole messages, then an error", Config::bound(if t { 3 } else { 2 }), move || {
            let c = catalogue();
            let mut fs = pick(&c).clone();
            fs.extend(pick(&c).clone());
            let all = bytes(&fs);
            let cut = if choose(2) == 0 { all.len() } else { choose(all.len()) };
            let src = Src::new(&all[..cut], Env { short: false, fail: true, interrupt: true });
            let want = react(&fs).events;
            let mut got = vec![];
            let e = loop {
                match Message::next(src.clone()) {
                    Ok(m) => got.push(ev(Ok(m))),
                    Err(e) => break e,
                }
                ensure!(got.len() <= want.len(), "Message::next goes on without end");
            };
            ensure!(want.starts_with(&got), "received [{}] of [{}]", briefs(&got), briefs(&want));
            ensure!(src.failed() || cut < all.len() || got.len() == want.len(), "{e:?} instead of [{}]", briefs(&want[got.len()..]));
            // what arrived whole was delivered
            let mut end = 0;
            let mut n = 0;
            for f in &fs {
                end += f.bytes().len();
                n += (f.fin && end <= src.pos()) as usize;
            }
            ensure!(got.len() == n, "{} bytes hold {n} messages, but {} were received", src.pos(), got.len());
            outcome(&(fs.len(), got.len(), cut < all.len()));
        }),
        scenario("operations", "every history of operations on a connection whose reads and writes fail", Config::bound(if t { 4 } else { 2 }), move || {
            let fs = vec![f(PING, b"p"), f(TEXT, b"t"), f(CLOSE, b"")];
            let want = react(&fs);
            let ops: Vec<usize> = (0..if t { 7 } else { 5 }).map(|_| choose(2)).collect();
            let last = choose(2);
            let opts = Opts { read_errors: true, write_errors: true, ..fixed(Seg::All) };
            let oks = host::cell(0usize);
            let oks2 = oks.clone();
            let run = on_socket(opts, &bytes(&fs), false, move |mut ws, log| {
                for (i, o) in ops.iter().enumerate() {
                    if *o == 0 {
                        let e = next(&mut ws);
                        log.borrow_mut().push(e);
                    } else if ws.send(Message::Binary(vec![i as u8])).is_ok() {
                        *oks2.borrow_mut() += 1;
                    }
                }
                if last == 1 {
                    let _ = ws.close();
                }
            });
            let k = run.events.iter().position(|e| matches!(e, Ev::Bad | Ev::Closed)).unwrap_or(run.events.len());
            ensure!(want.events.starts_with(&run.events[..k]), "received [{}]", briefs(&run.events));
            ensure!(run.events[k..].iter().skip(1).all(|e| *e == Ev::Closed), "received [{}]", briefs(&run.events));
            let w = host::written(run.conn, 1);
            let (frames, _) = match server_frames(&w) {
                Ok(x) => x,
                Err(e) => fail(format!("the peer received {}: {e}", show(&w))),
            };
            let bins = frames.iter().filter(|x| x.0 == BIN).count();
            ensure!(bins == *oks.borrow(), "{} sends succeeded and {bins} messages were written", oks.borrow());
            ensure!(host::is_closed(run.conn, 1), "the connection stays open");
            outcome(&(run.events, frames));
        }),
        scenario("leaving", "a client that leaves or resets the connection at every point, in every interleaving with an echoing server", Config::bound(0), move || {
            let how = choose(2);
            let at = choose(9);
            echo_server();
            host::client("client", move || {
                let mut c = net::connect(crate::server::PORT);
                let r = upgrade_request(true);
                let ping = f(PING, b"1").bytes();
                let text = [part(TEXT, b"ab").bytes(), f(CONT, b"c").bytes()].concat();
                if at > 0 {
                    c.send(&r.as_bytes()[..if at == 1 { 30 } else { r.len() }]);
                }
                if at > 2 {
                    c.recv_until(b"\r\n\r\n");
                }
                match at {
                    4 => { c.send(&ping[..3]); }
                    5 => { c.send(&ping); }
                    6 => { c.send(&text[..10]); }
                    7 => { c.send(&text); }
                    8 => { c.send(&text); c.recv(2); }
                    _ => {}
                }
                if how == 0 { c.close() } else { c.reset() }
            });
            // other clients are not disturbed
            let n = if t { 2 } else { 1 };
            let seen: Vec<Rc<RefCell<Option<(u8, Vec<u8>)>>>> = (0..n).map(|_| host::cell(None)).collect();
            for s2 in seen.clone() {
                host::client("other", move || {
                    let c = net::connect(crate::server::PORT);
                    c.send(upgrade_request(true).as_bytes());
                    c.recv_until(b"\r\n\r\n");
                    c.send(&f(TEXT, b"x").bytes());
                    *s2.borrow_mut() = Some(recv_frame(&c));
                    net::park();
                });
            }
            host::run();
            ensure!(host::traps().is_empty(), "trap: {:?}", host::traps());
            if host::livelock() {
                fail_key("livelock", "the server keeps working without end");
            }
            let ps = host::procs();
            let sv = ps.iter().find(|p| p.name == "server").unwrap();
            ensure!(matches!(sv.status, host::Status::Waiting(_)), "the accept loop ended");
            let log = HANDLED.with(|h| h.borrow().clone());
            ensure!(log.iter().filter(|x| **x == "start").count() - n == log.iter().filter(|x| matches!(**x, "end" | "refused")).count(), "a handler never ends: {log:?}");
            for seen in &seen {
                ensure!(*seen.borrow() == Some((TEXT, b"x".to_vec())), "the other client received {:?}", seen.borrow());
            }
            outcome(&(how, at, log));
        }),
        scenario("faults-concurrent", "reads and writes that fail on one connection never disturb another, in every interleaving", Config::bound(if t { 3 } else { 2 }), move || {
            echo_server_with(Opts { sched: Sched::Full, read_errors: true, write_errors: true, short_writes: false, ..Opts::default() });
            let seen: Vec<Rc<RefCell<Option<Vec<u8>>>>> = (0..2).map(|_| host::cell(None)).collect();
            for (i, s2) in seen.iter().cloned().enumerate() {
                host::client(&format!("client {i}"), move || {
                    let mut c = net::connect(crate::server::PORT);
                    c.send(upgrade_request(true).as_bytes());
                    let mut all = c.recv_until(b"\r\n\r\n");
                    c.send(&f(TEXT, &[b'0' + i as u8]).bytes());
                    c.send(&f(PING, &[b'a' + i as u8]).bytes());
                    c.send(&f(CLOSE, b"").bytes());
                    all.extend(c.recv_to_end());
                    c.close();
                    *s2.borrow_mut() = Some(all);
                });
            }
            host::run();
            ensure!(host::traps().is_empty(), "trap: {:?}", host::traps());
            let ps = host::procs();
            let sv = ps.iter().find(|p| p.name == "server").unwrap();
            ensure!(matches!(sv.status, host::Status::Waiting(_)), "the accept loop ended");
            let log = HANDLED.with(|h| h.borrow().clone());
            let count = |x: &str| log.iter().filter(|l| **l == x).count();
            ensure!(count("start") <= 2 && count("start") == count("end") + count("refused"), "a handler never ends: {log:?}");
            let mut whole = 0;
            for (i, s) in seen.iter().enumerate() {
                let Some(out) = s.borrow().clone() else { fail_key("stuck", format!("client {i} waits for ever")) };
                let want = b"HTTP/1.1 101 ";
                if !out.starts_with(want) {
                    ensure!(want.starts_with(&out) || out.starts_with(b"HTTP/1.1 400 "), "client {i} received {}", show(&out));
                    continue;
                }
                let Some(at) = out.windows(4).position(|w| w == b"\r\n\r\n") else { continue };
                let fs = match server_frames(&out[at + 4..]) {
                    Ok((fs, [])) => fs,
                    x => fail(format!("client {i} received {}: {x:?}", show(&out))),
                };
                let mine = [(TEXT, vec![b'0' + i as u8]), (PONG, vec![b'a' + i as u8]), (CLOSE, vec![])];
                let n = fs.len();
                ensure!(n <= 3 && fs[..] == mine[..n] || fs == [mine[0].clone(), mine[2].clone()] || fs == [mine[2].clone()], "client {i} received {}", fr(&fs));
                whole += (n == 3) as usize;
            }
            outcome(&(whole, log));
        }),
    ]
}

fn w08(_tier: Tier) -> Vec<Scenario> {
    fn lens() -> Vec<u64> {
        let mut v = vec![300, 65_535, 65_536, 1 << 20, 100_000_000, u32::MAX as u64, 1 << 32, (1 << 32) + 3, 1 << 40, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 3, u64::MAX - 1, u64::MAX];
        v.sort();
        v
    }
    vec![
        scenario("declared", "frames that declare more than they carry", Config::bound(1), || {
            let l = lens();
            let n = *pick(&l);
            let op = *pick(&[TEXT, BIN, CONT, PING, PONG, CLOSE]);
            let fin = choose(2) == 1;
            let got = choose(4);
            let eof = choose(2) == 1;
            let inside = choose(2) == 1;
            let masked = choose(3) > 0;
            let mut input = vec![];
            input.extend(f(TEXT, b"before").bytes());
            if inside {
                input.extend(part(BIN, b"part").bytes());
            }
            input.push((fin as u8) << 7 | op);
            input.push((masked as u8) << 7 | 127);
            input.extend(n.to_be_bytes());
            if masked {
                input.extend(KEY);
            }
            input.extend(&b"abc"[..got]);
            note(|| format!("length {n}, op {op}, {got} bytes, eof {eof}"));
            let run = receive(fixed(Seg::Dev), &input, eof);
            ensure!(run.events[0] == Ev::Text("before".into()), "received [{}]", briefs(&run.events));
            ensure!(run.events[1..].iter().all(|e| matches!(e, Ev::Bad | Ev::Closed)), "a frame of {n} declared bytes, of which {got} arrived, became [{}]", briefs(&run.events));
            // either it gives up, or it waits for what was promised
            ensure!(run.events.len() > 1 || (run.waiting && !eof), "nothing reports the failure");
            outcome(&(n, op, run.events, run.waiting));
        }),
        scenario("sixteen-bits", "every length of the two byte encoding, cut short", Config::bound(0), || {
            let n = choose(65_536);
            let mut input = vec![0x82, 0xfe];
            input.extend((n as u16).to_be_bytes());
            input.extend(KEY);
            input.extend(vec![5; n.saturating_sub(1).min(40)]);
            let run = receive(fixed(Seg::All), &input, true);
            let ok = n == 0 && run.events[0] == Ev::Bin(vec![]);
            ensure!(ok || run.events.iter().all(|e| matches!(e, Ev::Bad | Ev::Closed)), "a frame of {n} declared bytes, cut short, became [{}]", briefs(&run.events));
            outcome(&run.events.len());
        }),
    ]
}
