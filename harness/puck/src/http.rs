//! HTTP: parsing, bodies, encoding, round trips, URL matching.
use crate::io::{show, BufSrc, Env, Sink, Src};
use crate::refhttp::{lenient_head, split_message, ReqSpec};
use mc::coro::guarded;
use mc::report::{scenario, Check, Scenario, Tier};
use mc::{choose, choose_dev, ensure, fail, fail_key, note, outcome, pick, step, Config};
use puck::body::Body;
use puck::core::router::match_url::{any_integer, anything, path, Match, Segment};
use puck::request::Method;
use puck::{Request, Response};
use std::collections::BTreeMap;
use std::io::Read;

pub fn checks() -> Vec<Check> {
    vec![
        Check { property: "H01", assumptions: vec![
            "inputs range over the request grammar of the scenarios (methods, targets, hosts, header sets, framings), with every placement of at most `deviation_bound` short reads",
        ], scenarios: h01 },
        Check { property: "H02", assumptions: vec![
            "malformed inputs range over truncations at every byte, a catalogue of grammar violations and single byte corruptions whose class is decided by the HTTP grammar",
        ], scenarios: h02 },
        Check { property: "H03", assumptions: vec![
            "bodies of at most 9 bytes (and one above the 8 KiB copy buffer), every history of at most 4 reads from a menu of sizes",
        ], scenarios: h03 },
        Check { property: "H04", assumptions: vec![
            "responses range over the statuses, reasons, header sets and bodies of the scenarios, and the peer over every placement of at most `deviation_bound` short, failing or interrupted writes",
        ], scenarios: h04 },
        Check { property: "H05", assumptions: vec![
            "responses range over the grammar of the scenarios, with every placement of at most `deviation_bound` short reads",
        ], scenarios: h05 },
        Check { property: "H06", assumptions: vec![
            "requests built from the alphabet of the scenarios; short writes and short reads up to the deviation bound",
        ], scenarios: h06 },
        Check { property: "H07", assumptions: vec![
            "patterns and paths of at most 3 segments over the listed alphabets: complete enumeration",
        ], scenarios: h07 },
        Check { property: "H08", assumptions: vec![
            "CR, LF and CRLF injected at every position of every textual component of short messages",
        ], scenarios: h08 },
    ]
}

fn s(x: &str) -> String {
    x.to_string()
}

fn hv(v: &[(&str, &str)]) -> Vec<(String, String)> {
    v.iter().map(|(a, b)| (s(a), s(b))).collect()
}

fn method_of(m: &str) -> Method {
    match m.to_ascii_lowercase().as_str() {
        "get" => Method::Get,
        "post" => Method::Post,
        "head" => Method::Head,
        _ => Method::OtherMethod(m.to_string()),
    }
}

/// Parse as a process would; a panic is a violation.
fn parse_request(src: Src) -> Result<Option<Request>, String> {
    step();
    match guarded(move || Request::parse(src)) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(e.to_string()),
        Err(t) => fail_key(format!("panic-parse {t}"), format!("Request::parse trapped: {t}")),
    }
}

fn parse_response(src: Src) -> Result<Option<Response>, String> {
    step();
    match guarded(move || Response::parse(src)) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(e.to_string()),
        Err(t) => fail_key(format!("panic-parse {t}"), format!("Response::parse trapped: {t}")),
    }
}

/// Read a body to its end in one of several ways.
fn read_all(body: Body, mode: usize) -> std::io::Result<Vec<u8>> {
    step();
    let r = guarded(move || match mode {
        0 => body.into_bytes(),
        1 => body.into_string().map(String::into_bytes),
        m => {
            let mut body = body;
            let n = [1, 3, 7, 64][m - 2];
            let mut out = vec![];
            let mut buf = vec![0u8; n];
            loop {
                let k = match body.read(&mut buf) {
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                    r => r?,
                };
                if k == 0 {
                    // the end is sticky
                    let again = body.read(&mut buf)?;
                    if again != 0 {
                        return Err(std::io::Error::new(std::io::ErrorKind::Other, "bytes after the end"));
                    }
                    return Ok(out);
                }
                out.extend_from_slice(&buf[..k]);
            }
        }
    });
    match r {
        Ok(r) => r,
        Err(t) => fail_key(format!("panic-body {t}"), format!("reading the body trapped: {t}")),
    }
}

fn check_request(spec: &ReqSpec, mut req: Request, src: &Src, mode: usize) {
    let what = || show(&spec.bytes());
    ensure!(
        *req.method() == method_of(&spec.method),
        "method {:?} parsed from {}", req.method(), what()
    );
    let u = req.url();
    let got = (
        u.scheme().to_string(),
        u.host_str().unwrap_or("").to_string(),
        u.port(),
        u.path().to_string(),
        u.query().map(|q| q.to_string()),
    );
    let want = spec.expected_url();
    ensure!(got == want, "url {got:?} instead of {want:?} parsed from {}", what());
    let got: BTreeMap<String, String> =
        req.headers().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let want: BTreeMap<String, String> = spec
        .headers
        .iter()
        .map(|(k, v)| (k.clone(), v.trim_matches([' ', '\t']).to_string()))
        .collect();
    ensure!(got == want, "headers {got:?} instead of {want:?} parsed from {}", what());
    let body = req.take_body();
    match read_all(body, mode) {
        Ok(b) => {
            ensure!(
                b == spec.expected_body(),
                "body {} instead of {} read from {}",
                show(&b), show(&spec.expected_body()), what()
            );
            outcome(&(spec.bytes(), mode));
        }
        Err(e) => ensure!(src.failed(), "reading the body of {} failed: {e}", what()),
    }
}

fn run_request(spec: &ReqSpec, env: Env, mode: usize) {
    note(|| format!("request {}", show(&spec.bytes())));
    let src = Src::new(&spec.bytes(), env);
    match parse_request(src.clone()) {
        Ok(Some(r)) => check_request(spec, r, &src, mode),
        Ok(None) => fail(format!("well formed request not recognised: {}", show(&spec.bytes()))),
        Err(e) => fail(format!("well formed request rejected ({e}): {}", show(&spec.bytes()))),
    }
}

/// The values of each header, whatever the case of its name, cut at commas.
fn by_name<'a>(hs: impl IntoIterator<Item = (&'a String, &'a String)>) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in hs {
        let e = m.entry(k.to_ascii_lowercase()).or_default();
        e.extend(v.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()));
    }
    m
}

/// Headers of a message, some of them repeated.
fn repeated(n: usize) -> Vec<(String, String)> {
    (0..choose(n + 1)).map(|i| {
        let k = *pick(&["A", "a", "Ab", "Connection"]);
        let v = *pick(&["x", "", "y,z"]);
        (s(k), if v.is_empty() { s(v) } else { format!("{v}{i}") })
    }).collect()
}

const METHODS: &[&str] = &["GET", "POST", "HEAD", "PUT", "delete", "pOsT", "M-SEARCH"];
const TARGETS: &[&str] = &[
    "/", "/a", "/a/b/", "/a//b", "/?", "/a?x=1&y=", "/%20%2F?%3F", "/a:b@c;d=e,f+g~",
    "http://other.example/p?q", "https://Example.com:8443", "http://h:80/",
];
const HOSTS: &[&str] = &["a", "Example.COM", "h:8080", "h:80", "127.0.0.1:3000", "[::1]:8080"];
/// Lengths around those at which a buffer, a counter or a cap could end.
const SIZES: &[usize] = &[32_767, 32_769, 65_535, 65_536, 65_537, 99_999, 131_073, 262_145, 500_001, 1_048_575, 1_048_577, 2_097_153];
fn bulk(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 31 + i / 251 + i / 65_536) as u8 % 127).collect()
}
fn header_sets() -> Vec<Vec<(String, String)>> {
    vec![
        vec![],
        hv(&[("X-A", "v")]),
        hv(&[("x!#$%&'*+-.^_`|~9", "a b\tc: d, e;f=\"g\"")]),
        hv(&[("Empty", ""), ("Accept", "*/*"), ("Uni", "h\u{e9}llo \u{1F980}")]),
        hv(&[("Padded", "  v  "), ("Cookie", "a=b; c=d"), ("X-Host", "evil"), ("Not-Content-Length", "1")]),
    ]
}
/// (content-length header name and value, bytes after the head)
fn framings() -> Vec<(Option<(&'static str, String)>, Vec<u8>)> {
    let b = b"0123456789".to_vec();
    vec![
        (None, vec![]),
        (None, b"to the end\r\n\r\nof stream".to_vec()),
        (Some(("Content-Length", s("0"))), b.clone()),
        (Some(("content-length", s("5"))), b.clone()),
        (Some(("CONTENT-LENGTH", s("10"))), b.clone()),
        (Some(("Content-Length", s("12"))), b.clone()),
        (Some(("Content-Length", s("4"))), "h\u{e9}!\r\n\r\nGET".as_bytes().to_vec()),
    ]
}

fn build_spec(m: &str, t: &str, h: &str, hs: &[(String, String)], f: &(Option<(&str, String)>, Vec<u8>), host_name: &str, host_last: bool) -> ReqSpec {
    let mut headers = hs.to_vec();
    if let Some((k, v)) = &f.0 {
        headers.push((s(k), v.clone()));
    }
    if host_last {
        headers.push((s(host_name), s(h)));
    } else {
        headers.insert(0, (s(host_name), s(h)));
    }
    ReqSpec { method: s(m), target: s(t), headers, body: f.1.clone() }
}

/// Long words and long lines of words.
fn long_text(fill: &[&str]) -> String {
    const AT: &[usize] = &[70, 76, 77, 78, 79, 80, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 997, 998, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8000, 8190, 8191, 8192, 8193, 9_999, 10_000, 10_001, 16_384, 65_535, 65_536];
    let (n, f) = (*pick(AT), *pick(fill));
    let mut x = f.repeat(n / f.len() + 1);
    x.truncate((0..=n).rev().find(|i| x.is_char_boundary(*i)).unwrap());
    s(x.trim())
}
const LINES: &[&str] = &["x", "word ", "a, ", "b=\"c d\"; ", "\u{e9}", "a\t", "-_."];
const TOKENS: &[&str] = &["x", "A-b", "x_1."];

/// Every text of at most `n` symbols that a careless parser could trim, split or normalise.
fn awkward(n: usize) -> String {
    const A: &[&str] = &["a", " ", "\t", ":", "1", "\"", "B", "\u{a0}"];
    let n = choose(n + 1);
    (0..n).map(|_| *pick(A)).collect()
}

/// How many messages a process handles, one after the other, in the scenarios of that name.
const ROUNDS: usize = 300;

/// Names that are nearly those of the headers which matter, and values for them.
const NEAR: &[&str] = &[
    "Content-Lengt", "Content-Length-", "X-Content-Length", "Content_Length", "ContentLength", "Content-Length2", "Length", "Content-Type", "Content-Encoding", "Age",
    "Hos", "Hosts", "Host-", "X-Host", "Forwarded", "Origin", "Connection", "Date", "c", "Cookie",
];
const NEAR_VALUES: &[&str] = &["2", "0", "evil", "", "7, 7"];

/// A series of header calls on a builder, with the headers they leave.
fn header_calls(max: usize, mut one: impl FnMut(&str, &str), mut many: impl FnMut(Vec<(String, String)>)) -> Vec<(String, String)> {
    let names = ["A", "B", "Content-Type"];
    let mut left: BTreeMap<String, String> = BTreeMap::new();
    let mut calls = vec![];
    for i in 0..1 + choose(max) {
        let v = format!("v{i}");
        let call = choose(3 + 4);
        calls.push(call);
        if call < 3 {
            one(names[call], &v);
            left.insert(s(names[call]), v);
        } else {
            let set: &[&str] = [&[] as &[&str], &["A"], &["B", "A"], &["B", "Content-Type", "B"]][call - 3];
            let hs: Vec<(String, String)> = set.iter().enumerate().map(|(k, n)| (s(n), format!("{v}-{k}"))).collect();
            many(hs.clone());
            left.extend(hs);
        }
    }
    note(|| format!("header calls {calls:?}"));
    left.into_iter().collect()
}

/// Messages in chunks. The library does not know chunks: it may refuse them or put them together.
fn chunked(request: bool) -> Scenario {
    let about = "messages in chunks: every way of cutting a body into up to four chunks, refused or put together";
    scenario("chunked", about, Config::bound(0), move || {
        const TEXT: &str = "hello\r\nworld0";
        let n = choose(5);
        let mut wire = vec![];
        let mut rest = TEXT;
        for i in 0..n {
            let k = if i + 1 == n { rest.len() } else { choose(rest.len() + 1) };
            let (a, b) = rest.split_at(k);
            if k > 0 {
                wire.extend(format!("{k:x}{}\r\n{a}\r\n", if i == 1 { ";ext=1" } else { "" }).into_bytes());
            }
            rest = b;
        }
        wire.extend(pick(&["0\r\n\r\n", "0\r\nTrailer: x\r\n\r\n"]).as_bytes());
        let te = pick(&["Transfer-Encoding: chunked", "transfer-encoding: Chunked"]);
        let start = if request { "POST /c HTTP/1.1\r\nHost: h" } else { "HTTP/1.1 200 OK" };
        let mut bytes = format!("{start}\r\n{te}\r\n\r\n").into_bytes();
        bytes.extend(&wire);
        let mode = choose(4);
        let src = Src::new(&bytes, Env::WHOLE);
        let body = if request { parse_request(src).ok().flatten().map(|mut r| r.take_body()) } else { parse_response(src).ok().flatten().map(|mut r| r.take_body()) };
        let Some(body) = body else { return };
        let want: &[u8] = if n == 0 { b"" } else { TEXT.as_bytes() };
        match read_all(body, mode) {
            Ok(b) if b == want => {}
            Ok(b) if b == wire => fail_key("chunked", "the body of a message in chunks is handed over with its chunk sizes"),
            Ok(b) => fail(format!("the body {:?} was received as {:?}", show(want), show(&b))),
            Err(e) => fail(format!("a body in chunks cannot be read: {e}")),
        }
    })
}

/// Requests of different kinds, any two of which follow each other in the scenarios `many`.
fn various() -> Vec<ReqSpec> {
    vec![
        ReqSpec { method: s("GET"), target: s("/"), headers: hv(&[("Host", "h")]), body: vec![] },
        ReqSpec { method: s("POST"), target: s("/a?b"), headers: hv(&[("A", "\u{e9}"), ("host", "h:1"), ("Content-Length", "5")]), body: b"hello, again".to_vec() },
        ReqSpec { method: s("PUT"), target: s("/to/the/end"), headers: hv(&[("Host", "example.com"), ("Z", "")]), body: b"x\r\n\r\n".to_vec() },
        ReqSpec { method: s("HEAD"), target: s("/?"), headers: (0..19).map(|i| (format!("H{i}"), format!("v{i}"))).chain(hv(&[("Host", "h")])).collect(), body: vec![] },
    ]
}

fn h01(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    vec![
        scenario("grid", "every combination of method, target, host, header set and framing, with short reads", Config::bound(if t { 2 } else { 1 }), move || {
            let sets = header_sets();
            let fr = framings();
            let m = pick(METHODS);
            let tg = pick(TARGETS);
            let h = pick(HOSTS);
            let hs = pick(&sets);
            let f = pick(&fr);
            let (name, last) = *pick(&[("Host", false), ("hOST", true)]);
            run_request(&build_spec(m, tg, h, hs, f, name, last), Env::SHORT, 0);
        }),
        scenario("many", "hundreds of requests, one after the other, of two kinds: the same bytes are the same request every time", Config::bound(0), || {
            let v = various();
            let (a, b) = (pick(&v), pick(&v));
            for i in 0..ROUNDS {
                run_request(if i % 2 == 0 { a } else { b }, Env::WHOLE, 0);
            }
        }),
        scenario("targets", "every target of up to five (six) symbols after the first slash", Config::bound(0), move || {
            const A: &[&str] = &["/", "a", "?", ".", "%2F", ":", "@", "&b=", "//h/"];
            let n = choose(if t { 7 } else { 6 });
            let tg: String = std::iter::once("/").chain((0..n).map(|_| *pick(A))).collect();
            let spec = build_spec("GET", &tg, "h", &[], &(None, vec![]), "Host", false);
            let src = Src::new(&spec.bytes(), Env::WHOLE);
            let req = match parse_request(src.clone()) {
                Ok(Some(r)) => r,
                Ok(None) => fail(format!("well formed request not recognised: {tg}")),
                Err(e) => fail(format!("well formed request rejected ({e}): {tg}")),
            };
            // dot segments are resolved by the rules for URLs, everything else stays as it is
            let u = puck_url(&tg);
            ensure!(req.url().as_str() == u, "the target {tg} is understood as {} instead of {u}", req.url());
            if !tg.contains('.') {
                check_request(&spec, req, &src, 0);
            }
            outcome(&tg);
        }),
        scenario("long-texts", "targets, hosts, methods, header names and values of up to 65 536 bytes", Config::bound(0), || {
            let (mut m, mut tg, mut host, mut k, mut v) = (s("GET"), s("/"), s("h"), s("A"), s("b"));
            match choose(5) {
                0 => v = long_text(LINES),
                1 => k = long_text(TOKENS),
                2 => tg = format!("/{}", long_text(&["x", "a/", "a?b=c&", "%41"])),
                3 => m = long_text(&["X", "GET"]),
                _ => host = long_text(&["h", "ab."]),
            }
            let fr = framings();
            run_request(&build_spec(&m, &tg, &host, &hv(&[(&k, &v), ("Zz", "next")]), pick(&fr), "Host", choose(2) == 0), Env::WHOLE, 0);
        }),
        scenario("header-texts", "every header value of up to four symbols and every short header name", Config::bound(0), move || {
            let hs = if choose(2) == 0 {
                const A: &[&str] = &["a", " ", "\t", ":", ",", "\u{e9}", "\"", "%", "\\"];
                let n = choose(if t { 6 } else { 5 });
                let v: String = (0..n).map(|_| *pick(A)).collect();
                hv(&[("X", &v), ("Y", "next")])
            } else {
                let tok: Vec<u8> = (0..128).filter(|c| crate::refhttp::is_token(*c)).collect();
                let n = 1 + choose(2);
                let k: Vec<u8> = (0..n).map(|_| *pick(&tok)).collect();
                hv(&[(std::str::from_utf8(&k).unwrap(), "v"), ("next", "w")])
            };
            run_request(&build_spec("GET", "/", "h", &hs, &(None, vec![]), "Host", choose(2) == 0), Env::WHOLE, 0);
        }),
        chunked(true),
        scenario("near-names", "headers that are nearly Host or Content-Length are only headers", Config::bound(1), || {
            let (a, b) = (*pick(NEAR), *pick(NEAR));
            let (x, y) = (*pick(NEAR_VALUES), *pick(&["2", "evil"]));
            let mut hs = hv(&[(a, x), ("Zz", "1")]);
            if a != b {
                hs.push((s(b), s(y)));
            }
            let fr = framings();
            let f = &fr[*pick(&[1usize, 3])];
            run_request(&build_spec("POST", "/n", "h", &hs, f, "Host", choose(2) == 0), Env::WHOLE, 0);
        }),
        scenario("repeated", "headers that are repeated, in any case of their names: no value is lost, and their order is kept", Config::bound(0).fresh(), move || {
            mc::hash_seed(choose(2));
            let hs = repeated(if t { 5 } else { 4 });
            let spec = build_spec("POST", "/r", "h", &hs, &(Some(("Content-Length", s("2"))), b"abc".to_vec()), "Host", choose(2) == 0);
            note(|| show(&spec.bytes()));
            match parse_request(Src::new(&spec.bytes(), Env::WHOLE)) {
                Ok(Some(mut r)) => {
                    let want = by_name(spec.headers.iter().map(|(k, v)| (k, v)));
                    let got = by_name(r.headers());
                    ensure!(got == want, "headers {got:?} parsed from {}", show(&spec.bytes()));
                    let b = read_all(r.take_body(), 0).unwrap_or_else(|e| fail(e.to_string()));
                    ensure!(b == b"ab" && r.url().as_str() == "http://h/r", "{} and the body {}", r.url(), show(&b));
                }
                r => fail(format!("{r:?} instead of a request from {}", show(&spec.bytes()))),
            }
            outcome(&hs);
        }),
        scenario("methods", "every method of up to two symbols, and every case of the known ones", Config::bound(0), move || {
            let m = if choose(2) == 0 {
                let tok: Vec<u8> = (0..128).filter(|c| crate::refhttp::is_token(*c)).collect();
                let n = 1 + choose(2);
                String::from_utf8((0..n).map(|_| *pick(&tok)).collect()).unwrap()
            } else {
                let m = *pick(&["get", "post", "head", "put", "patch", "gett", "hea"]);
                m.chars().map(|c| if choose(2) == 0 { c } else { c.to_ascii_uppercase() }).collect()
            };
            run_request(&build_spec(&m, "/m", "h", &[], &(None, vec![]), "Host", false), Env::WHOLE, 0);
        }),
        scenario("connect", "CONNECT requests address the host", Config::bound(2), || {
            let h = pick(HOSTS);
            let m = pick(&["CONNECT", "connect"]);
            let tg = pick(&["h:443", "example.com:80"]);
            run_request(&build_spec(m, tg, h, &[], &(None, vec![]), "Host", false), Env::SHORT, 0);
        }),
        scenario("segmentation", "four requests under every placement of short reads", Config::bound(if t { 4 } else { 3 }), || {
            let specs = [
                ReqSpec { method: s("POST"), target: s("/p?q=1"), headers: hv(&[("Host", "h"), ("Content-Length", "6")]), body: b"abc\r\n\r\n\r\n".to_vec() },
                ReqSpec { method: s("GET"), target: s("/"), headers: hv(&[("Host", "h"), ("A", ""), ("B", "\u{e9}")]), body: b"".to_vec() },
                ReqSpec { method: s("PUT"), target: s("/x"), headers: hv(&[("Host", "h")]), body: b"\r\n\r\nGET / HTTP/1.1\r\n".to_vec() },
                ReqSpec { method: s("POST"), target: s("/y"), headers: hv(&[("Host", "h"), ("Content-Length", "3")]), body: b"\nab".to_vec() },
            ];
            let spec = pick(&specs);
            let mode = *pick(&[0usize, 2]);
            run_request(spec, Env::SHORT, mode);
        }),
        scenario("body-access", "the body read through every access path, with short reads and interruptions", Config::bound(2), || {
            let fr = framings();
            let f = pick(&fr);
            let mode = choose(6);
            let hs = hv(&[("A", "b")]);
            let env = Env { short: true, fail: false, interrupt: true };
            run_request(&build_spec("POST", "/", "h", &hs, f, "Host", false), env, mode);
        }),
        scenario("limits", "up to 20 headers, heads and bodies beyond the reader's buffer", Config::bound(2), || {
            let which = choose(5);
            let mut hs = vec![];
            let mut body = vec![];
            let mut cl = None;
            match which {
                0 => for i in 0..19 { hs.push((format!("H{i}"), format!("v{i}"))) },
                1 => hs.push((s("Long"), "x".repeat(12_000))),
                2 => { body = (0..25_000u32).map(|i| (i % 251) as u8).collect(); cl = Some(("Content-Length", s("24001"))); }
                3 => { hs.push((s("Long"), "y".repeat(9_900))); body = vec![b'z'; 300]; cl = Some(("Content-Length", s("299"))); }
                _ => { for i in 0..18 { hs.push((format!("H{i}"), "w".repeat(700))) } body = vec![b'q'; 9000]; cl = Some(("Content-Length", s("9000"))); }
            }
            run_request(&build_spec("POST", "/a/b?c", "h", &hs, &(cl, body), "Host", true), Env::SHORT, 0);
        }),
        scenario("sizes", "bodies of up to 2 MiB, declared or to the end of the stream, with bytes after them or missing", Config::bound(0), || {
            let n = *pick(SIZES);
            let after = *pick(&[0usize, 5, 70_000]);
            let (cl, body) = match choose(3) {
                0 => (None, bulk(n)),
                1 => (Some(("Content-Length", n.to_string())), bulk(n + after)),
                _ => (Some(("Content-Length", (n + after).to_string())), bulk(n)),
            };
            let mode = *pick(&[0usize, 1, 2, 5]);
            run_request(&build_spec("POST", "/a", "h", &[], &(cl, body), "Host", false), Env::WHOLE, mode);
        }),
        scenario("failing-stream", "a stream that fails: an error or the exact request, never a wrong one", Config::bound(2), || {
            let spec = ReqSpec { method: s("POST"), target: s("/p"), headers: hv(&[("Host", "h"), ("Content-Length", "4")]), body: b"abcdef".to_vec() };
            let src = Src::new(&spec.bytes(), Env::ALL);
            let mode = *pick(&[0usize, 1, 3]);
            match parse_request(src.clone()) {
                Ok(Some(r)) => check_request(&spec, r, &src, mode),
                Ok(None) => fail("a failing stream was taken for an empty one"),
                Err(_) => ensure!(src.failed(), "request rejected although the stream did not fail"),
            }
        }),
    ]
}

/// The URL a target on the host `h` stands for.
fn puck_url(target: &str) -> String {
    url::Url::parse(&format!("http://h{target}")).unwrap().to_string()
}

fn reject_request(bytes: &[u8], env: Env, why: &str) {
    note(|| format!("{why}: {}", show(bytes)));
    let src = Src::new(bytes, env);
    match parse_request(src) {
        Ok(Some(r)) => fail_key(
            format!("accepted {why}"),
            format!("{why}: {} was accepted as {:?} {} {:?}", show(bytes), r.method(), r.url(), r.headers()),
        ),
        Ok(None) => outcome(&(why, 0)),
        Err(_) => outcome(&(why, 1)),
    }
}

fn h02(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    vec![
        scenario("truncated", "every proper prefix of the head of a request, then end of stream", Config::bound(if t { 2 } else { 1 }), || {
            let specs = [
                ReqSpec { method: s("GET"), target: s("/"), headers: hv(&[("Host", "h")]), body: vec![] },
                ReqSpec { method: s("POST"), target: s("/a?b"), headers: hv(&[("A", "\u{e9}"), ("Host", "h:1"), ("Content-Length", "5")]), body: b"hello".to_vec() },
                ReqSpec { method: s("GET"), target: s("http://x/"), headers: hv(&[("Host", "h"), ("Z", "")]), body: b"x\r\n\r\n".to_vec() },
            ];
            let spec = pick(&specs);
            let b = spec.bytes();
            let n = choose(spec.head_len());
            reject_request(&b[..n], Env::SHORT, "truncated head");
        }),
        scenario("catalogue", "requests that violate the grammar", Config::bound(1), || {
            let many: String = (0..21).map(|i| format!("H{i}: v\r\n")).collect();
            let many_host = format!("GET / HTTP/1.1\r\nHost: h\r\n{many}\r\n");
            let twenty_one: String = (0..20).map(|i| format!("H{i}: v\r\n")).collect();
            let twenty_one = format!("GET / HTTP/1.1\r\n{twenty_one}Host: h\r\n\r\n");
            let cat: Vec<(&str, Vec<u8>)> = vec![
                ("no host", b"GET / HTTP/1.1\r\n\r\n".to_vec()),
                ("no host", b"GET / HTTP/1.1\r\nHostx: h\r\n\r\n".to_vec()),
                ("no host", b"GET / HTTP/1.1\r\nX-Host: h\r\nA: b\r\n\r\n".to_vec()),
                ("no version", b"GET /\r\nHost: h\r\n\r\n".to_vec()),
                ("no target", b"GET\r\nHost: h\r\n\r\n".to_vec()),
                ("no target", b"GET  HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("bad version", b"GET / HTTP/2.1\r\nHost: h\r\n\r\n".to_vec()),
                ("bad version", b"GET / HTTQ/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("bad version", b"GET / HTTP/1.1x\r\nHost: h\r\n\r\n".to_vec()),
                ("bad method", b"G\x01T / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("bad method", b"G(T / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("bad method", b" GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("control byte in target", b"GET /\x01 HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("bad target", b"GET foo HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("bad target", b"GET ftp://h/ HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("bad target", b"GET h/ HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("bad target", b"GET http:// HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("bad target", b"GET httpx://h/ HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("bad target", b"GET httpfoo HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("bad target", b"GET ws://h/ HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("bad target", b"GET mailto:a@b HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("bad target", b"GET ?q HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("bad target", b"GET #f HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("header without colon", b"GET / HTTP/1.1\r\nHost: h\r\nfoo\r\n\r\n".to_vec()),
                ("header without name", b"GET / HTTP/1.1\r\nHost: h\r\n: v\r\n\r\n".to_vec()),
                ("space in header name", b"GET / HTTP/1.1\r\nHost: h\r\nA b: v\r\n\r\n".to_vec()),
                ("space before colon", b"GET / HTTP/1.1\r\nHost: h\r\nA : v\r\n\r\n".to_vec()),
                ("control byte in header name", b"GET / HTTP/1.1\r\nHost: h\r\nA\x00: v\r\n\r\n".to_vec()),
                ("control byte in header value", b"GET / HTTP/1.1\r\nHost: h\r\nA: v\x00w\r\n\r\n".to_vec()),
                ("control byte in header value", b"GET / HTTP/1.1\r\nHost: h\r\nA: v\x7f\r\n\r\n".to_vec()),
                ("header value not UTF-8", b"GET / HTTP/1.1\r\nHost: h\r\nA: \xff\xfe\r\n\r\n".to_vec()),
                ("header value not UTF-8", b"GET / HTTP/1.1\r\nHost: \xe9\r\n\r\n".to_vec()),
                ("bare CR", b"GET / HTTP/1.1\r\nHost: h\r\nA: v\rw\r\n\r\n".to_vec()),
                ("too many headers", many_host.into_bytes()),
                ("too many headers", twenty_one.into_bytes()),
                ("empty host", b"GET /evil HTTP/1.1\r\nHost: \r\n\r\n".to_vec()),
                ("empty host", b"GET / HTTP/1.1\r\nHost:\r\n\r\n".to_vec()),
                ("host is not an authority", b"GET /c HTTP/1.1\r\nHost: a/b\r\n\r\n".to_vec()),
                ("host is not an authority", b"GET /c HTTP/1.1\r\nHost: a?b\r\n\r\n".to_vec()),
                ("host is not an authority", b"GET /c HTTP/1.1\r\nHost: a#b\r\n\r\n".to_vec()),
                ("host is not an authority", b"GET /c HTTP/1.1\r\nHost: a\\b\r\n\r\n".to_vec()),
                ("host is not an authority", b"GET /c HTTP/1.1\r\nHost: u@b\r\n\r\n".to_vec()),
                ("host is not an authority", b"GET /c HTTP/1.1\r\nHost: a b\r\n\r\n".to_vec()),
                ("host is not an authority", b"GET /c HTTP/1.1\r\nHost: a:99999\r\n\r\n".to_vec()),
                ("several hosts", b"GET / HTTP/1.1\r\nHost: a\r\nHost: b\r\n\r\n".to_vec()),
                ("several hosts", b"GET / HTTP/1.1\r\nHost: a\r\nhost: b\r\n\r\n".to_vec()),
                ("several content lengths", b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: 1\r\nContent-Length: 2\r\n\r\nabc".to_vec()),
                ("several content lengths", b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: 1\r\ncontent-length: 2\r\n\r\nabc".to_vec()),
                ("bad content length", b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: x\r\n\r\nabc".to_vec()),
                ("bad content length", b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: -1\r\n\r\nabc".to_vec()),
                ("bad content length", b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: +1\r\n\r\nabc".to_vec()),
                ("bad content length", b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: 1 2\r\n\r\nabc".to_vec()),
                ("bad content length", b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: 0x1\r\n\r\nabc".to_vec()),
                ("bad content length", b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: 99999999999999999999999\r\n\r\nabc".to_vec()),
                ("bad content length", b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length:\r\n\r\nabc".to_vec()),
                ("garbage", b"\r\n\r\n".to_vec()),
                ("garbage", b"\n\n\r\n\r\n".to_vec()),
                ("garbage", b"\x16\x03\x01\x02\x00\x01\x00\r\n\r\n".to_vec()),
                ("garbage", b"\x00\r\n\r\n".to_vec()),
                ("response instead of request", b"HTTP/1.1 200 OK\r\nHost: h\r\n\r\n".to_vec()),
                ("empty", b"".to_vec()),
            ];
            let (why, b) = pick(&cat);
            reject_request(b, Env::SHORT, why);
        }),
        scenario("many", "hundreds of requests which violate the grammar, among good ones", Config::bound(0), || {
            let v = various();
            let good = pick(&v);
            let cat: [&[u8]; 5] = [b"GET / HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\nHost: a\r\nHost: b\r\n\r\n", b"GET foo HTTP/1.1\r\nHost: h\r\n\r\n", b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: x\r\n\r\nabc", b"GET / HTTP/1.1\r\nHo"];
            let bad = *pick(&cat);
            let every = *pick(&[1usize, 2, 50]);
            for i in 0..ROUNDS {
                if i % every == 0 {
                    reject_request(bad, Env::WHOLE, "one of many");
                }
                run_request(good, Env::WHOLE, 0);
            }
        }),
        scenario("corrupted", "every byte of the head replaced by a byte that is illegal there", Config::bound(1), || {
            let base = b"POST /a?b HTTP/1.1\r\nHost: h\r\nX-Y: zz\r\n\r\nbody".to_vec();
            let head = base.len() - 4;
            let i = choose(head);
            // control bytes are illegal everywhere in a head; HTAB, CR and LF have their own places
            let x = *pick(&[0u8, 1, 8, 0x0b, 0x1f, 0x7f]);
            let mut b = base.clone();
            // a corrupted line end may leave the head unterminated: also a rejection
            b[i] = x;
            reject_request(&b, Env::SHORT, "control byte in the head");
        }),
        scenario("any-bytes", "every string of at most 5 symbols of a hostile alphabet before the end of the head: no trap, and nothing accepted but what the lines say", Config::bound(0), move || {
            let alpha: &[&[u8]] = &[b"GET", b" ", b"/", b"HTTP/1.1", b"\r\n", b"\n", b"\r", b":", b"Host:h", b"\xff", b"\0", b"Content-Length:"];
            let n = choose(if t { 7 } else { 6 });
            let mut b = pick::<&[u8]>(&[b"", b"GET / HTTP/1.1\r\n", b"POST /x HTTP/1.1\r\nHost: a\r\n"]).to_vec();
            for _ in 0..n {
                b.extend_from_slice(*pick::<&[u8]>(alpha));
            }
            b.extend(b"\r\n\r\n");
            note(|| show(&b));
            let src = Src::new(&b, Env::WHOLE);
            if let Ok(Some(r)) = parse_request(src) {
                // what is accepted is what the lines say, as leniently as anyone could read them
                let Some((start, hs)) = lenient_head(&b) else { fail(format!("accepted: {}", show(&b))) };
                let hosts: Vec<&String> = hs.iter().filter(|(k, _)| k.eq_ignore_ascii_case("host")).map(|(_, v)| v).collect();
                ensure!(hosts.len() == 1 && !hosts[0].is_empty(), "accepted with hosts {hosts:?}: {}", show(&b));
                let words: Vec<&str> = start.split(' ').collect();
                ensure!(words.len() == 3 && words[2] == "HTTP/1.1" && method_of(words[0]) == *r.method(), "accepted with start line {start:?}: {}", show(&b));
                let got: BTreeMap<String, String> = r.headers().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                let want = by_name(hs.iter().map(|(k, v)| (k, v)));
                ensure!(by_name(&got) == want, "headers {got:?} instead of {want:?} parsed from {}", show(&b));
                // and the body is what follows the head
                let at = b.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
                let rest = b[at..].to_vec();
                let cl = got.iter().find(|(k, _)| k.eq_ignore_ascii_case("content-length")).map(|(_, v)| v.parse::<usize>());
                let want = match cl { None => rest.clone(), Some(Ok(n)) => rest[..n.min(rest.len())].to_vec(), Some(Err(_)) => fail(format!("accepted: {}", show(&b))) };
                let body = read_all({ let mut r = r; r.take_body() }, 0).unwrap_or_else(|e| fail(e.to_string()));
                ensure!(body == want, "body {} read from {}", show(&body), show(&b));
                outcome(&b);
            }
        }),
        scenario("deterministic", "the same bytes are always understood in the same way", Config::bound(0).fresh(), || {
            // hash map iteration order is the hidden input: repeat within one execution
            let cat: Vec<Vec<u8>> = vec![
                b"GET / HTTP/1.1\r\nHost: a\r\nhost: b\r\nHOST: c\r\n\r\n".to_vec(),
                b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: 1\r\ncontent-length: 2\r\nContent-length: 3\r\n\r\nabcd".to_vec(),
                b"GET / HTTP/1.1\r\nHost: a\r\nA: 1\r\nB: 2\r\nContent-Length: 2\r\nC: 1\r\nD: 2\r\n\r\nabcd".to_vec(),
                b"GET /x?y HTTP/1.1\r\nA: 1\r\nX-Host: 2\r\nHost: h:1\r\nHosts: 1\r\nD: 2\r\n\r\n".to_vec(),
            ];
            let b = pick(&cat).clone();
            note(|| show(&b));
            let mut first: Option<String> = None;
            for _ in 0..48 {
                let src = Src::new(&b, Env::WHOLE);
                let r = match parse_request(src) {
                    Ok(Some(mut r)) => {
                        let u = r.url().to_string();
                        let body = read_all(r.take_body(), 0).map_err(|e| e.to_string());
                        format!("{u} {body:?}")
                    }
                    Ok(None) => s("none"),
                    Err(e) => format!("error {e}"),
                };
                match &first {
                    None => first = Some(r),
                    Some(f) => ensure!(*f == r, "{} is understood as {f} and as {r}", show(&b)),
                }
            }
            outcome(&first);
        }),
    ]
}

fn h03(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    vec![
        scenario("histories", "every history of reads over bodies of every declared and actual length", Config::bound(if t { 2 } else { 1 }), move || {
            let avail = choose(8);
            let len = match choose(11) {
                0 => None,
                10 => Some(usize::MAX),
                k => Some(k - 1),
            };
            let data: Vec<u8> = (0..avail as u8).map(|i| b'a' + i).collect();
            let src = Src::new(&data, Env { short: true, fail: false, interrupt: true });
            let want: &[u8] = &data[..len.unwrap_or(avail).min(avail)];
            note(|| format!("body of declared length {len:?} over {} bytes", avail));
            let mut body = Body::from_reader(BufSrc::new(src), len);
            let mut got = vec![];
            let mut ended = false;
            for _ in 0..choose(if t { 5 } else { 4 }) {
                let n = *pick(&[0usize, 1, 2, 3, 16]);
                let mut buf = vec![0xEEu8; n + 2];
                step();
                let r = guarded(|| body.read(&mut buf[..n]));
                let k = match r {
                    Err(t) => fail(format!("read trapped: {t}")),
                    Ok(Err(e)) if e.kind() == std::io::ErrorKind::Interrupted => 0,
                    Ok(Err(e)) => fail(format!("read failed although the source did not: {e}")),
                    Ok(Ok(k)) => {
                        ensure!(k <= n, "read of {n} bytes returned {k}");
                        if n > 0 && k == 0 {
                            ended = true;
                            ensure!(got.len() == want.len(), "the body of {} bytes ended after {}", want.len(), got.len());
                        }
                        if ended {
                            ensure!(k == 0, "bytes after the end of the body");
                        }
                        k
                    }
                };
                ensure!(buf[n..] == [0xEE, 0xEE], "the read went beyond the buffer");
                got.extend_from_slice(&buf[..k]);
                ensure!(want.starts_with(&got), "read {} from a body that is {}", show(&got), show(want));
            }
            // the rest, in one of the ways the API offers
            let mode = choose(6);
            match read_all(body, mode) {
                Ok(rest) => {
                    got.extend(rest);
                    ensure!(got == want, "body is {} instead of {} (declared {len:?}, available {avail})", show(&got), show(want));
                }
                Err(e) => fail(format!("reading the rest failed: {e}")),
            }
            outcome(&(got, len, mode));
        }),
        scenario("from-string", "bodies made from strings read back as those strings", Config::bound(0), || {
            let x = *pick(&["", "a", "h\u{e9}llo", "\r\n\r\n", "\0", "\u{1F980}\u{1F980}"]);
            let mode = choose(6);
            let b = match choose(4) {
                0 => Body::from_string(x),
                1 => Body::from(x),
                2 => Body::from(x.to_string()),
                _ => Body::from_reader(std::io::Cursor::new(x), Some(x.len())),
            };
            match read_all(b, mode) {
                Ok(g) => ensure!(g == x.as_bytes(), "{x:?} read back as {}", show(&g)),
                Err(e) => fail(format!("{x:?} does not read back: {e}")),
            }
            let e = read_all(Body::empty(), mode);
            ensure!(matches!(&e, Ok(v) if v.is_empty()), "the empty body reads as {e:?}");
            outcome(&(x, mode));
        }),
        scenario("large", "bodies around the sizes of the copy buffers", Config::bound(1), || {
            let n = *pick(&[1023usize, 1024, 1025, 8191, 8192, 8193, 20_000]);
            let extra = *pick(&[0usize, 1, 5000]);
            let short = *pick(&[0usize, 1]);
            let data: Vec<u8> = (0..n + extra).map(|i| (i % 253 % 128) as u8).collect();
            let len = *pick(&[Some(n), None]);
            let want = &data[..len.unwrap_or(n + extra)];
            let src = Src::new(&data, Env::SHORT);
            let b = if short == 0 {
                Body::from_reader(BufSrc::new(src), len)
            } else {
                Body::from_reader(std::io::BufReader::with_capacity(1000, src), len)
            };
            let mode = *pick(&[0usize, 1, 5]);
            match read_all(b, mode) {
                Ok(g) => ensure!(g == want, "{} bytes instead of {}", g.len(), want.len()),
                Err(e) => fail(format!("failed: {e}")),
            }
            outcome(&(n, extra, len, mode));
        }),
        scenario("sizes", "bodies of up to 2 MiB", Config::bound(0), || {
            let n = *pick(SIZES);
            let extra = *pick(&[0usize, 1, 70_000]);
            let data = bulk(n + extra);
            let len = *pick(&[Some(n), None]);
            let want = &data[..len.unwrap_or(n + extra)];
            let mode = choose(6);
            let b = match choose(3) {
                0 => Body::from_reader(std::io::BufReader::with_capacity(*pick(&[100, 8192, 100_000]), Src::new(&data, Env::WHOLE)), len),
                1 => Body::from_reader(std::io::Cursor::new(data.clone()), len),
                _ => Body::from_string(String::from_utf8(want.to_vec()).unwrap()),
            };
            match read_all(b, mode) {
                Ok(g) => ensure!(g == want, "{} bytes instead of {}", g.len(), want.len()),
                Err(e) => fail(format!("failed: {e}")),
            }
            outcome(&(n, extra, len, mode));
        }),
        scenario("errors", "a failing source surfaces as an error after exactly the bytes before it", Config::bound(2), || {
            let data = b"abcdef";
            let len = *pick(&[None, Some(3), Some(6), Some(9)]);
            let src = Src::new(data, Env::ALL);
            let want = &data[..len.unwrap_or(6).min(6)];
            let mut body = Body::from_reader(BufSrc::new(src.clone()), len);
            let mut got = vec![];
            loop {
                let mut buf = [0u8; 4];
                step();
                match body.read(&mut buf) {
                    Ok(0) => {
                        ensure!(got == want, "the body ended after {} instead of {}", show(&got), show(want));
                        break;
                    }
                    Ok(k) => got.extend_from_slice(&buf[..k]),
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                    Err(_) => {
                        ensure!(src.failed(), "an error although the source did not fail");
                        break;
                    }
                }
                ensure!(want.starts_with(&got), "read {} from {}", show(&got), show(want));
            }
            outcome(&(got, len));
        }),
        scenario("not-utf8", "into_string refuses what is not UTF-8 and nothing else", Config::bound(1), || {
            let data = *pick(&[&b"a\xffb"[..], b"\xc3", b"\xc3\xa9", b"\xf0\x9f\xa6\x80"]);
            let len = *pick(&[None, Some(1usize), Some(2), Some(4)]);
            let want = &data[..len.unwrap_or(data.len()).min(data.len())];
            let b = Body::from_reader(BufSrc::new(Src::new(data, Env::SHORT)), len);
            let r = match guarded(move || b.into_string()) { Ok(r) => r, Err(t) => fail(format!("into_string trapped: {t}")) };
            match (r, std::str::from_utf8(want)) {
                (Ok(a), Ok(b)) => ensure!(a == b, "{a:?} instead of {b:?}"),
                (Err(_), Err(_)) => {}
                (a, b) => fail(format!("into_string gave {a:?} for {b:?}")),
            }
            outcome(&(data, len));
        }),
        scenario("swap", "taking or replacing the body of a message yields the old body and installs the new one", Config::bound(0), || {
            let old = *pick(&["", "old", "x\r\n\r\ny"]);
            let new = *pick(&["", "new!"]);
            let kind = choose(4);
            let mode = choose(3);
            // the type of the message becomes that of the body it has now; the rest stays
            let typed = *pick(&[None, Some("text/x")]);
            let mut hs = hv(&[("Host", "h"), ("Content-Length", "7"), ("X", "y")]);
            if let Some(x) = typed {
                hs.push((s("Content-Type"), s(x)));
            }
            let see = |got: &std::collections::HashMap<String, String>, n: usize| {
                let mut want: BTreeMap<String, String> = hs.iter().cloned().collect();
                want.insert(s("Content-Type"), s("application/octet-stream"));
                let got: BTreeMap<String, String> = got.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                ensure!(got == want, "headers {got:?} instead of {want:?} after {n} changes of the body");
            };
            let (a, b) = if kind < 2 {
                let mut r = Request::build("http://h/").method(Method::Post).headers(hs.clone()).body(old).build();
                let a = if kind == 0 { r.take_body() } else { r.replace_body(new) };
                see(r.headers(), 1);
                let b = r.take_body();
                see(r.headers(), 2);
                (a, b)
            } else {
                let mut r = Response::build().status(404, "r").headers(hs.clone()).body(old).build();
                let a = if kind == 2 { r.take_body() } else { r.replace_body(new) };
                see(r.headers(), 1);
                let b = r.take_body();
                see(r.headers(), 2);
                ensure!(*r.status() == 404 && r.reason() == "r", "the status changed");
                (a, b)
            };
            let want_b = if kind % 2 == 0 { "" } else { new };
            let a = read_all(a, mode).unwrap_or_else(|e| fail(e.to_string()));
            let b = read_all(b, mode).unwrap_or_else(|e| fail(e.to_string()));
            ensure!(a == old.as_bytes(), "took {} instead of {old:?}", show(&a));
            ensure!(b == want_b.as_bytes(), "left {} instead of {want_b:?}", show(&b));
            outcome(&(old, new, kind));
        }),
    ]
}

fn check_encoded(out: &[u8], status: u16, reason: &str, headers: &[(String, String)], body: &[u8]) {
    let Some((start, hs, b)) = split_message(out) else {
        fail(format!("not a message: {}", show(out)))
    };
    ensure!(start == format!("HTTP/1.1 {status} {reason}"), "start line {start:?}");
    let mut hs = hs;
    hs.sort();
    let mut want: Vec<(String, String)> = headers.to_vec();
    want.sort();
    ensure!(hs == want, "headers {hs:?} instead of {want:?}");
    ensure!(b == body, "body {} instead of {}", show(&b), show(body));
}

fn encode_case(status: u16, reason: &str, headers: &[(String, String)], body: Body, want_body: &[u8], env: Env) {
    let mut b = Response::build().status(status, reason).body(body);
    if choose(2) == 0 {
        for (k, v) in headers {
            b = b.header(k, v);
        }
    } else {
        b = b.headers(headers.to_vec());
    }
    let res = b.build();
    let sink = Sink::new(env);
    let s2 = sink.clone();
    step();
    let r = guarded(move || puck::response::encoder::Encoder::new(res).write_tcp_stream(s2));
    let out = sink.data();
    match r {
        Err(t) => fail(format!("encoding trapped: {t}")),
        Ok(Ok(())) => {
            ensure!(!sink.failed(), "a failed write was reported as success");
            check_encoded(&out, status, reason, headers, want_body);
            outcome(&out);
        }
        Ok(Err(e)) => {
            ensure!(sink.failed(), "encoding failed although every write succeeded: {e}");
            // what was sent is a prefix of the message
            let whole = Sink::new(Env::WHOLE);
            let res = {
                let mut b = Response::build().status(status, reason).body(Body::from_reader(std::io::Cursor::new(want_body.to_vec()), Some(want_body.len())));
                for (k, v) in headers {
                    b = b.header(k, v);
                }
                b.build()
            };
            puck::response::encoder::Encoder::new(res).write_tcp_stream(whole.clone()).unwrap();
            ensure!(whole.data().starts_with(&out), "sent {} which is no prefix of {}", show(&out), show(&whole.data()));
            outcome(&(out, 1));
        }
    }
}

fn res_headers() -> Vec<Vec<(String, String)>> {
    vec![
        vec![],
        hv(&[("Content-Type", "text/html;charset=utf-8")]),
        hv(&[("b", "2"), ("A", "1"), ("a", "3"), ("Content-Length", "3")]),
        hv(&[("X", ""), ("Y", "h\u{e9}: \u{1F980}"), ("Set-Cookie", "a=b; Path=/")]),
    ]
}

fn h04(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    vec![
        scenario("grid", "every combination of status, reason, headers and body", Config::bound(if t { 2 } else { 1 }), || {
            let status = *pick(&[100u16, 101, 200, 204, 404, 500, 999]);
            let reason = *pick(&["", "OK", "not found", "h\u{e9}"]);
            let hs = res_headers();
            let hs = pick(&hs);
            let body = *pick(&["", "x", "a\r\n\r\nb", "h\u{e9}llo"]);
            encode_case(status, reason, hs, Body::from_string(body), body.as_bytes(), Env::ALL);
        }),
        scenario("faults", "one response under every placement of short, failing and interrupted writes", Config::bound(if t { 4 } else { 3 }), || {
            let hs = hv(&[("A", "1"), ("B", "2")]);
            encode_case(200, "OK", &hs, Body::from_string("body"), b"body", Env::ALL);
        }),
        scenario("many", "hundreds of responses, one after the other, of two kinds", Config::bound(0), || {
            let all: [(u16, &str, Vec<(String, String)>, &str); 4] = [
                (200, "OK", vec![], "body"),
                (404, "", hv(&[("A", "1"), ("Content-Length", "0")]), ""),
                (304, "Not Modified", hv(&[("A", "2"), ("Empty", "")]), "h\u{e9}llo"),
                (999, "x", (0..30).map(|i| (format!("H{i}"), format!("v{i}"))).collect(), "\r\n\r\n"),
            ];
            let (a, b) = (pick(&all), pick(&all));
            let one_call = choose(2) == 1;
            for i in 0..ROUNDS {
                let (status, reason, hs, body) = if i % 2 == 0 { a } else { b };
                let r = Response::build().status(*status, *reason).body(*body);
                let r = if one_call { r.headers(hs.clone()) } else { hs.iter().fold(r, |r, (k, v)| r.header(k, v)) };
                let sink = Sink::new(Env::WHOLE);
                puck::response::encoder::Encoder::new(r.build()).write_tcp_stream(sink.clone()).unwrap_or_else(|e| fail(format!("refused: {e}")));
                check_encoded(&sink.data(), *status, reason, hs, body.as_bytes());
            }
            outcome(&(a, b));
        }),
        scenario("sources", "bodies of every declared and actual length, read in pieces", Config::bound(2), || {
            let avail = choose(6);
            let len = match choose(8) { 0 => None, k => Some(k - 1) };
            let data: Vec<u8> = b"abcdef"[..avail].to_vec();
            let want = data[..len.unwrap_or(avail).min(avail)].to_vec();
            let src = Src::new(&data, Env { short: true, fail: false, interrupt: true });
            encode_case(200, "OK", &[], Body::from_reader(BufSrc::new(src), len), &want, Env::ALL);
        }),
        scenario("large", "bodies beyond the copy buffer", Config::bound(1), || {
            let n = *pick(&[8191usize, 8192, 8193, 30_000]);
            let data: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
            let src = Src::new(&data, Env::SHORT);
            encode_case(200, "OK", &hv(&[("A", "b")]), Body::from_reader(BufSrc::new(src), Some(n)), &data, Env::SHORT);
        }),
        scenario("sizes", "bodies of up to 2 MiB, values of up to 70 000 bytes, a hundred headers", Config::bound(0), || {
            let n = *pick(SIZES);
            let data = bulk(n);
            let body = match choose(3) {
                0 => Body::from_reader(std::io::BufReader::with_capacity(*pick(&[100, 100_000]), Src::new(&data, Env::WHOLE)), *pick(&[Some(n), None])),
                1 => Body::from_reader(std::io::Cursor::new(bulk(n + 9)).take(n as u64), Some(n)),
                _ => Body::from_string(String::from_utf8(data.clone()).unwrap()),
            };
            let hs: Vec<(String, String)> = match choose(3) {
                0 => vec![],
                1 => hv(&[("Long", &"x".repeat(70_000))]),
                _ => (0..100).map(|i| (format!("H{i}"), format!("v{i}"))).collect(),
            };
            encode_case(200, "OK", &hs, body, &data, Env::WHOLE);
        }),
        scenario("canned", "the canned error responses are complete messages", Config::bound(2), || {
            let which = choose(2);
            let sink = Sink::new(Env { short: true, fail: false, interrupt: true });
            let s2 = sink.clone();
            step();
            let r = guarded(move || puck::write_response(if which == 0 { puck::err_404() } else { puck::err_400() }, s2));
            if let Err(t) = r {
                fail(format!("write_response trapped: {t}"));
            }
            let out = sink.data();
            let Some((start, hs, body)) = split_message(&out) else { fail(format!("not a message: {}", show(&out))) };
            let code = if which == 0 { "404" } else { "400" };
            ensure!(start.starts_with(&format!("HTTP/1.1 {code} ")), "start line {start:?}");
            ensure!(hs == hv(&[("Content-Type", "text/html;charset=utf-8")]), "headers {hs:?}");
            ensure!(!body.is_empty(), "no body");
            outcome(&out);
        }),
        scenario("long-texts", "reasons, header names and values of up to 65 536 bytes, as they are", Config::bound(0), || {
            let (mut r, mut k, mut v) = (s("OK"), s("A"), s("b"));
            match choose(3) {
                0 => v = long_text(LINES),
                1 => k = long_text(TOKENS),
                _ => r = long_text(LINES),
            }
            encode_case(200, &r, &hv(&[(&k, &v), ("Zz", "next")]), Body::from_string("b"), b"b", Env::WHOLE);
        }),
        scenario("texts", "every reason and header value of up to five symbols, as it is", Config::bound(0), move || {
            let x = awkward(if t { 6 } else { 5 });
            let (r, v) = if choose(2) == 0 { (x, s("v")) } else { (s("OK"), x) };
            let res = Response::build().status(200, &r).header("A", &v).body("b").build();
            let sink = Sink::new(Env::WHOLE);
            puck::response::encoder::Encoder::new(res).write_tcp_stream(sink.clone()).unwrap_or_else(|e| fail(format!("refused: {e}")));
            // what surrounds the value does not count
            check_encoded(&sink.data(), 200, &r, &hv(&[("A", v.trim_matches([' ', '\t']))]), b"b");
            outcome(&sink.data());
        }),
        scenario("header-calls", "every series of up to four calls of header and headers: the last value of every name", Config::bound(0), move || {
            let b = std::cell::RefCell::new(Some(Response::build()));
            let set = |f: &dyn Fn(puck::response::builder::ResponseBuilder) -> puck::response::builder::ResponseBuilder| {
                let x = b.borrow_mut().take().unwrap();
                *b.borrow_mut() = Some(f(x));
            };
            let want = header_calls(if t { 5 } else { 4 }, |k, v| set(&|b| b.header(k, v)), |hs| set(&|b| b.headers(hs.clone())));
            let res = b.into_inner().unwrap().body("b").build();
            let got: BTreeMap<String, String> = res.headers().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            ensure!(got == want.iter().cloned().collect::<BTreeMap<_, _>>(), "headers {got:?} instead of {want:?}");
            let sink = Sink::new(Env::WHOLE);
            puck::response::encoder::Encoder::new(res).write_tcp_stream(sink.clone()).unwrap_or_else(|e| fail(format!("refused: {e}")));
            check_encoded(&sink.data(), 200, "", &want, b"b");
            outcome(&want);
        }),
        scenario("statuses", "every status code of three digits", Config::bound(0), || {
            let code = 100 + choose(900) as u16;
            let (reason, body) = (*pick(&["r", ""]), *pick(&["", "a body"]));
            let res = Response::build().status(code, reason).header("A", "b").body(body).build();
            ensure!(*res.status() == code, "status {} instead of {code}", res.status());
            let sink = Sink::new(Env::WHOLE);
            puck::response::encoder::Encoder::new(res).write_tcp_stream(sink.clone()).unwrap_or_else(|e| fail(format!("refused: {e}")));
            check_encoded(&sink.data(), code, reason, &hv(&[("A", "b")]), body.as_bytes());
            outcome(&(code, reason, body));
        }),
        scenario("types", "the types of bodies as header values", Config::bound(0), || {
            use puck::body::mime::{BYTE_STREAM, HTML, PLAIN};
            let (m, w) = [(HTML, "text/html;charset=utf-8"), (PLAIN, "text/plain;charset=utf-8"), (BYTE_STREAM, "application/octet-stream")][choose(3)].clone();
            let sink = Sink::new(Env::WHOLE);
            puck::response::encoder::Encoder::new(Response::build().header("Content-Type", m.clone()).body("b").build()).write_tcp_stream(sink.clone()).unwrap_or_else(|e| fail(format!("refused: {e}")));
            check_encoded(&sink.data(), 200, "", &hv(&[("Content-Type", w)]), b"b");
            outcome(&w);
        }),
        scenario("builder", "defaults and overwrites of the response builder", Config::bound(0), || {
            let which = choose(4);
            let res = match which {
                0 => Response::build().build(),
                1 => Response::build().header("A", "1").header("A", 2).build(),
                2 => Response::build().status(1, "x").status(201, "made").body("a").body("b").build(),
                _ => Response::build().header("A", "1").headers(hv(&[("A", "3"), ("B", "4")])).build(),
            };
            ensure!(*res.status() == [200, 200, 201, 200][which], "status {}", res.status());
            ensure!(res.reason() == ["", "", "made", ""][which], "reason {}", res.reason());
            let sink = Sink::new(Env::WHOLE);
            puck::response::encoder::Encoder::new(res).write_tcp_stream(sink.clone()).unwrap();
            let (st, rs, hs, b): (u16, &str, Vec<(String, String)>, &str) = match which {
                0 => (200, "", vec![], ""),
                1 => (200, "", hv(&[("A", "2")]), ""),
                2 => (201, "made", vec![], "b"),
                _ => (200, "", hv(&[("A", "3"), ("B", "4")]), ""),
            };
            check_encoded(&sink.data(), st, rs, &hs, b.as_bytes());
            outcome(&which);
        }),
    ]
}

fn response_bytes(status: &str, reason: &str, headers: &[(String, String)], body: &[u8]) -> Vec<u8> {
    let mut v = format!("HTTP/1.1 {status} {reason}\r\n").into_bytes();
    for (k, x) in headers {
        v.extend(format!("{k}: {x}\r\n").bytes());
    }
    v.extend(b"\r\n");
    v.extend(body);
    v
}

fn run_response(status: u16, reason: &str, headers: &[(String, String)], body: &[u8], want: &[u8], env: Env, mode: usize) {
    let b = response_bytes(&status.to_string(), reason, headers, body);
    note(|| format!("response {}", show(&b)));
    let src = Src::new(&b, env);
    match parse_response(src) {
        Ok(Some(mut r)) => {
            ensure!(*r.status() == status, "status {} parsed from {}", r.status(), show(&b));
            ensure!(r.reason() == reason, "reason {:?} parsed from {}", r.reason(), show(&b));
            let got: BTreeMap<String, String> = r.headers().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            let wanth: BTreeMap<String, String> = headers.iter().map(|(k, v)| (k.clone(), v.trim_matches([' ', '\t']).to_string())).collect();
            ensure!(got == wanth, "headers {got:?} instead of {wanth:?} parsed from {}", show(&b));
            match read_all(r.take_body(), mode) {
                Ok(g) => ensure!(g == want, "body {} instead of {} read from {}", show(&g), show(want), show(&b)),
                Err(e) => fail(format!("reading the body of {} failed: {e}", show(&b))),
            }
            outcome(&(b, mode));
        }
        Ok(None) => fail(format!("well formed response not recognised: {}", show(&b))),
        Err(e) => fail(format!("well formed response rejected ({e}): {}", show(&b))),
    }
}

fn h05(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    vec![
        chunked(false),
        scenario("grid", "every combination of status, reason, headers and framing, with short reads", Config::bound(if t { 2 } else { 1 }), || {
            let status = *pick(&[100u16, 200, 204, 404, 999]);
            let reason = *pick(&["OK", "", "Not Found at all"]);
            let sets = header_sets();
            let mut hs = pick(&sets).clone();
            let fr = framings();
            let f = pick(&fr);
            if let Some((k, v)) = &f.0 {
                hs.push((s(k), v.clone()));
            }
            if choose(2) == 1 {
                hs.insert(0, (s("Content-Type"), s("text/plain;charset=utf-8")));
            }
            let want = match &f.0 {
                Some((_, n)) => { let n: usize = n.parse().unwrap(); f.1[..n.min(f.1.len())].to_vec() }
                None => f.1.clone(),
            };
            run_response(status, reason, &hs, &f.1, &want, Env::SHORT, 0);
        }),
        scenario("many", "hundreds of responses, one after the other, of two kinds", Config::bound(0), || {
            let all: [(u16, &str, Vec<(String, String)>, &[u8], usize); 4] = [
                (200, "OK", hv(&[("Content-Length", "4")]), b"body and more", 4),
                (404, "", hv(&[("A", "1")]), b"to the end", 10),
                (304, "Not Modified", hv(&[("A", "2"), ("content-length", "0")]), b"x", 0),
                (999, "x", (0..20).map(|i| (format!("H{i}"), format!("v{i}"))).collect(), b"\r\n\r\n", 4),
            ];
            let (a, b) = (pick(&all), pick(&all));
            for i in 0..ROUNDS {
                let (status, reason, hs, body, n) = if i % 2 == 0 { a } else { b };
                run_response(*status, reason, hs, body, &body[..*n], Env::WHOLE, 0);
            }
        }),
        scenario("long-texts", "reasons, header names and values of up to 65 536 bytes", Config::bound(0), || {
            let (mut r, mut k, mut v) = (s("OK"), s("A"), s("b"));
            match choose(3) {
                0 => v = long_text(LINES),
                1 => k = long_text(TOKENS),
                _ => r = long_text(&["x", "word ", "a, "]),
            }
            run_response(200, &r, &hv(&[(&k, &v), ("Content-Length", "2"), ("B", "w")]), b"body", b"bo", Env::WHOLE, 0);
        }),
        scenario("texts", "every reason and header value of up to five symbols", Config::bound(0), move || {
            let x = awkward(if t { 6 } else { 5 });
            // a reason beyond ASCII is handed over as an empty one
            let (r, v) = if x.is_ascii() && choose(2) == 0 { (x, s("v")) } else { (s("OK"), x) };
            run_response(200, &r, &hv(&[("A", &v), ("Content-Length", "2"), ("B", "w")]), b"body", b"bo", Env::WHOLE, 0);
        }),
        scenario("statuses", "every status code of three digits", Config::bound(0), || {
            let code = 100 + choose(900) as u16;
            run_response(code, "r", &hv(&[("Content-Length", "2")]), b"body", b"bo", Env::WHOLE, 0);
        }),
        scenario("near-names", "headers that are nearly Content-Length are only headers", Config::bound(1), || {
            let (a, b) = (*pick(NEAR), *pick(NEAR));
            let (x, y) = (*pick(NEAR_VALUES), *pick(&["2", "evil"]));
            let mut hs = hv(&[(a, x), ("Zz", "1")]);
            if a != b {
                hs.push((s(b), s(y)));
            }
            let n = choose(2);
            if n == 1 {
                hs.insert(choose(2), (s("content-length"), s("4")));
            }
            run_response(200, "OK", &hs, b"abcdef", if n == 1 { b"abcd" } else { b"abcdef" }, Env::WHOLE, 0);
        }),
        scenario("repeated", "headers that are repeated, in any case of their names: no value is lost, and their order is kept", Config::bound(0).fresh(), move || {
            mc::hash_seed(choose(2));
            let mut hs = repeated(if t { 5 } else { 4 });
            hs.insert(choose(2).min(hs.len()), (s("content-length"), s("2")));
            let b = response_bytes("200", "OK", &hs, b"abc");
            note(|| show(&b));
            match parse_response(Src::new(&b, Env::WHOLE)) {
                Ok(Some(mut r)) => {
                    let want = by_name(hs.iter().map(|(k, v)| (k, v)));
                    let got = by_name(r.headers());
                    ensure!(got == want, "headers {got:?} parsed from {}", show(&b));
                    let x = read_all(r.take_body(), 0).unwrap_or_else(|e| fail(e.to_string()));
                    ensure!(x == b"ab", "the body {} of {}", show(&x), show(&b));
                }
                r => fail(format!("{r:?} instead of a response from {}", show(&b))),
            }
            outcome(&hs);
        }),
        scenario("lengths", "a declared length that is no length is not accepted", Config::bound(0), || {
            let ok = *pick(&["0", "3", "03", "9"]);
            let bad = *pick(&["", "abc", "+3", "-1", "3.0", "0x3", "3 3", "3;", "3,", "99999999999999999999999", "1e1", "\u{663}"]);
            let name = *pick(&["Content-Length", "content-length", "CONTENT-LENGTH"]);
            let hs = match choose(4) {
                0 => hv(&[(name, bad)]),
                1 => hv(&[(name, bad), (name, ok)]),
                2 => hv(&[(name, ok), ("A", "b"), ("Content-length", bad)]),
                _ => hv(&[(name, ok), ("Content-length", if ok == "9" { "0" } else { "9" })]),
            };
            let b = response_bytes("200", "OK", &hs, b"abcdefghijklm");
            note(|| show(&b));
            match parse_response(Src::new(&b, Env::WHOLE)) {
                Ok(Some(r)) => fail_key("accepted length", format!("{} was accepted as {r:?}", show(&b))),
                _ => outcome(&hs),
            }
        }),
        scenario("numeric-type", "only Content-Length decides where the body ends", Config::bound(1), || {
            let ty = *pick(&["3", "0", "text/html", "5"]);
            let hs = hv(&[("Content-Type", ty), ("Content-Length", "4")]);
            run_response(200, "OK", &hs, b"abcdefgh", b"abcd", Env::SHORT, choose(6));
        }),
        scenario("segmentation", "a response under every placement of short reads", Config::bound(3), || {
            let hs = hv(&[("Content-Length", "6"), ("A", "")]);
            run_response(200, "OK", &hs, b"abc\r\n\r\n\r\n", b"abc\r\n\r", Env::SHORT, *pick(&[0, 2]));
        }),
        scenario("large", "heads and bodies beyond the reader's buffer", Config::bound(2), || {
            let hs = if choose(2) == 0 { hv(&[("Long", &"x".repeat(3000)), ("Content-Length", "5000")]) } else { (0..19).map(|i| (format!("H{i}"), s("v"))).chain([(s("Content-Length"), s("5000"))]).collect() };
            let body: Vec<u8> = (0..6000u32).map(|i| (i % 251) as u8).collect();
            run_response(200, "OK", &hs, &body, &body[..5000], Env::SHORT, 0);
        }),
        scenario("sizes", "bodies of up to 2 MiB, declared or to the end of the stream, with bytes after them or missing", Config::bound(0), || {
            let n = *pick(SIZES);
            let after = *pick(&[0usize, 5, 70_000]);
            let (cl, body) = match choose(3) {
                0 => (None, bulk(n)),
                1 => (Some(n), bulk(n + after)),
                _ => (Some(n + after), bulk(n)),
            };
            let hs = cl.map_or(vec![], |n| hv(&[("Content-Length", &n.to_string())]));
            let want = &body[..cl.unwrap_or(body.len()).min(body.len())];
            run_response(200, "OK", &hs, &body, want, Env::WHOLE, *pick(&[0usize, 1, 2, 5]));
        }),
        scenario("truncated", "every proper prefix of a head is not a response", Config::bound(1), || {
            let b = response_bytes("200", "OK", &hv(&[("A", "b"), ("Content-Length", "2")]), b"xy");
            let n = choose(b.len() - 2);
            note(|| show(&b[..n]));
            match parse_response(Src::new(&b[..n], Env::SHORT)) {
                Ok(Some(r)) => fail(format!("{} was accepted as {r:?}", show(&b[..n]))),
                _ => outcome(&n),
            }
        }),
        scenario("malformed", "responses that violate the grammar are not accepted", Config::bound(1), || {
            let many: String = (0..21).map(|i| format!("H{i}: v\r\n")).collect();
            let cat: Vec<(&str, Vec<u8>)> = vec![
                ("header without colon", b"HTTP/1.1 200 OK\r\nfoo\r\n\r\n".to_vec()),
                ("header without colon", b"HTTP/1.1 200 OK\r\nA: b\r\nfoo\r\n\r\n".to_vec()),
                ("control byte in header name", b"HTTP/1.1 200 OK\r\nA\x01: b\r\n\r\n".to_vec()),
                ("control byte in header value", b"HTTP/1.1 200 OK\r\nA: b\x01\r\n\r\n".to_vec()),
                ("header value not UTF-8", b"HTTP/1.1 200 OK\r\nA: \xff\r\n\r\n".to_vec()),
                ("too many headers", format!("HTTP/1.1 200 OK\r\n{many}\r\n").into_bytes()),
                ("no status", b"HTTP/1.1\r\nA: b\r\n\r\n".to_vec()),
                ("bad status", b"HTTP/1.1 20 OK\r\nA: b\r\n\r\n".to_vec()),
                ("bad status", b"HTTP/1.1 abc OK\r\nA: b\r\n\r\n".to_vec()),
                ("bad status", b"HTTP/1.1 2000 OK\r\nA: b\r\n\r\n".to_vec()),
                ("bad version", b"HTTP/3.1 200 OK\r\nA: b\r\n\r\n".to_vec()),
                ("bad version", b"HTTQ/1.1 200 OK\r\nA: b\r\n\r\n".to_vec()),
                ("request instead of response", b"GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
                ("garbage", b"\r\n\r\n".to_vec()),
                ("garbage", b"\x00\x01\x02\r\n\r\n".to_vec()),
                ("empty", b"".to_vec()),
            ];
            let (why, b) = pick(&cat);
            note(|| format!("{why}: {}", show(b)));
            match parse_response(Src::new(b, Env::SHORT)) {
                Ok(Some(r)) => fail_key(format!("accepted {why}"), format!("{why}: {} was accepted as {} {:?} {:?}", show(b), r.status(), r.reason(), r.headers())),
                Ok(None) => outcome(&(why, 0)),
                Err(_) => outcome(&(why, 1)),
            }
        }),
        scenario("round-trip", "an encoded response parses back to the response that was built", Config::bound(1), || {
            let status = *pick(&[100u16, 200, 404, 999]);
            let reason = *pick(&["OK", "", "not found"]);
            let hs = res_headers();
            let hs = pick(&hs);
            let body = *pick(&["", "xyz", "a\r\n\r\nb!"]);
            let mut b = Response::build().status(status, reason).body(body);
            for (k, v) in hs {
                b = b.header(k, v);
            }
            let sink = Sink::new(Env::SHORT);
            puck::response::encoder::Encoder::new(b.build()).write_tcp_stream(sink.clone()).unwrap_or_else(|e| fail(e.to_string()));
            let want = match hs.iter().find(|(k, _)| k == "Content-Length") { Some((_, n)) => { let n: usize = n.parse().unwrap(); body[..n.min(body.len())].as_bytes() } None => body.as_bytes() };
            match parse_response(Src::new(&sink.data(), Env::SHORT)) {
                Ok(Some(mut r)) => {
                    ensure!(*r.status() == status && r.reason() == reason, "status line changed");
                    let got: BTreeMap<String, String> = r.headers().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                    ensure!(if hs.len() == 4 { by_name(&got) == by_name(hs.iter().map(|(k, v)| (k, v))) } else { got == hs.iter().cloned().collect() }, "headers changed: {got:?}");
                    let g = read_all(r.take_body(), 0).unwrap_or_else(|e| fail(e.to_string()));
                    ensure!(g == want, "body {} instead of {}", show(&g), show(want));
                }
                r => fail(format!("does not parse back: {r:?} from {}", show(&sink.data()))),
            }
            outcome(&(status, reason, hs, body));
        }),
    ]
}

fn h06(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    let go = move |env_w: Env, env_r: Env| {
        mc::hash_seed(choose(if t { 4 } else { 1 }));
        let url = *pick(&[
            "http://example.com", "http://example.com/", "http://h:8080/a/b", "http://h/a?x=1&y=%20z",
            "http://h/?", "http://h/a//b/?q#frag", "http://h/%2F;p@x",
        ]);
        let method = choose(5);
        let m = match method {
            0 => Method::Get,
            1 => Method::Post,
            2 => Method::Head,
            3 => Method::OtherMethod(s("PUT")),
            _ => Method::OtherMethod(s("x-custom")),
        };
        let u = url::Url::parse(url).unwrap();
        let host = match u.port() {
            Some(p) => format!("{}:{p}", u.host_str().unwrap()),
            None => s(u.host_str().unwrap()),
        };
        let body = *pick(&["", "body", "\r\n\r\n", "h\u{e9}llo"]);
        let framed = choose(3);
        let mut hs = match choose(3) {
            0 => vec![],
            1 => hv(&[("X-A", "v: w"), ("b", "")]),
            _ => hv(&[("Accept", "*/*"), ("Uni", "\u{1F980}"), ("Z", "1"), ("Y", "2"), ("Cookie", "k=v; l=w")]),
        };
        hs.push((s("Host"), host));
        match framed {
            0 => {}
            1 => hs.push((s("Content-Length"), body.len().to_string())),
            _ => hs.push((s("content-length"), body.len().to_string())),
        }
        let mut b = match Request::try_build(url) {
            Ok(b) => b.method(m.clone()),
            Err(e) => fail(format!("{url} refused: {e}")),
        };
        if choose(2) == 0 {
            for (k, v) in &hs {
                b = b.header(k, v);
            }
        } else {
            b = b.headers(hs.clone());
        }
        let mut req = b.body(body).build();
        let sink = Sink::new(env_w);
        let mut w = sink.clone();
        step();
        let r = match guarded(move || req.write(&mut w)) {
            Ok(r) => r,
            Err(t) => fail(format!("Request::write trapped: {t}")),
        };
        if let Err(e) = r {
            ensure!(sink.failed(), "writing failed although every write succeeded: {e}");
            return;
        }
        ensure!(!sink.failed(), "a failed write was reported as success");
        let wire = sink.data();
        note(|| format!("wire {}", show(&wire)));
        // on the wire it is one request, as any recipient reads it
        let Some((start, wh, wb)) = split_message(&wire) else { fail(format!("not a message: {}", show(&wire))) };
        let mtext = match &m { Method::Get => "GET", Method::Post => "POST", Method::Head => "HEAD", Method::OtherMethod(x) => x };
        let target = match u.query() { Some(q) => format!("{}?{q}", u.path()), None => s(u.path()) };
        ensure!(start == format!("{mtext} {target} HTTP/1.1"), "request line {start:?} for {mtext} {url}");
        let mut wh = wh;
        wh.sort();
        let mut want = hs.clone();
        want.sort();
        ensure!(wh == want, "headers {wh:?} instead of {want:?}");
        ensure!(wb == body.as_bytes(), "body {} instead of {body:?}", show(&wb));
        // and it parses back
        match parse_request(Src::new(&wire, env_r)) {
            Ok(Some(mut r)) => {
                ensure!(*r.method() == m, "method {:?} came back as {:?}", m, r.method());
                let mut u2 = u.clone();
                u2.set_fragment(None);
                ensure!(*r.url() == u2, "{u2} came back as {}", r.url());
                let got: BTreeMap<String, String> = r.headers().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                ensure!(got == hs.iter().cloned().collect::<BTreeMap<_, _>>(), "headers came back as {got:?}");
                let g = read_all(r.take_body(), 0).unwrap_or_else(|e| fail(e.to_string()));
                ensure!(g == body.as_bytes(), "body came back as {}", show(&g));
            }
            r => fail(format!("{} does not parse back: {r:?}", show(&wire))),
        }
        outcome(&wire);
    };
    vec![
        scenario("grid", "every built request survives writing and parsing", Config::bound(if t { 2 } else { 1 }).fresh(), move || go(Env::ALL, Env::SHORT)),
        scenario("header-calls", "every series of up to four calls of header and headers: the last value of every name", Config::bound(0), move || {
            let b = std::cell::RefCell::new(Some(Request::build("http://h/x")));
            let set = |f: &dyn Fn(puck::request::builder::RequestBuilder) -> puck::request::builder::RequestBuilder| {
                let x = b.borrow_mut().take().unwrap();
                *b.borrow_mut() = Some(f(x));
            };
            let want = header_calls(if t { 5 } else { 4 }, |k, v| set(&|b| b.header(k, v)), |hs| set(&|b| b.headers(hs.clone())));
            let mut req = b.into_inner().unwrap().method(Method::Post).body("b").build();
            let got: BTreeMap<String, String> = req.headers().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            ensure!(got == want.iter().cloned().collect::<BTreeMap<_, _>>(), "headers {got:?} instead of {want:?}");
            let sink = Sink::new(Env::WHOLE);
            req.write(&mut sink.clone()).unwrap_or_else(|e| fail(format!("refused: {e}")));
            let Some((start, mut hs, body)) = split_message(&sink.data()) else { fail(format!("not a message: {}", show(&sink.data()))) };
            hs.sort();
            ensure!(start == "POST /x HTTP/1.1" && hs == want && body == b"b", "written as {}", show(&sink.data()));
            outcome(&want);
        }),
        scenario("long-texts", "targets, header names and values of up to 65 536 bytes", Config::bound(0), || {
            let (mut tg, mut k, mut v) = (s("/"), s("A"), s("b"));
            match choose(3) {
                0 => v = long_text(LINES),
                1 => k = long_text(TOKENS),
                _ => tg = format!("/{}", long_text(&["x", "a/", "a?b=c&", "%41"])),
            }
            let u = url::Url::parse(&format!("http://h{tg}")).unwrap();
            let mut req = Request::build(u.as_str()).method(Method::Post).header("Host", "h").header(&k, &v).body("body").build();
            let sink = Sink::new(Env::WHOLE);
            req.write(&mut sink.clone()).unwrap_or_else(|e| fail(format!("refused: {e}")));
            match parse_request(Src::new(&sink.data(), Env::WHOLE)) {
                Ok(Some(mut r)) => {
                    ensure!(*r.url() == u, "{u} came back as {}", r.url());
                    ensure!(r.headers().get(&k) == Some(&v), "{k}: {v} came back as {:?}", r.headers());
                    let b = r.take_body().into_string().unwrap_or_else(|e| fail(format!("body: {e}")));
                    ensure!(b == "body", "the body came back as {b:?}");
                }
                r => fail(format!("{} does not parse back: {r:?}", show(&sink.data()))),
            }
            outcome(&sink.data());
        }),
        scenario("targets", "every URL of up to five symbols after the first slash, with any header value of a few symbols", Config::bound(0), move || {
            const A: &[&str] = &["/", "a", "?", ".", "%2F", ":", "@", "&b=", "%", "#", "\u{e9}", " ", "\\"];
            let n = choose(if t { 6 } else { 5 });
            let text: String = std::iter::once("http://h/").chain((0..n).map(|_| *pick(A))).collect();
            let u = url::Url::parse(&text).unwrap();
            let v = *pick(&["v", "a b", "a: b", "\u{e9}"]);
            let mut req = Request::build(&text).method(Method::Get).header("Host", "h").header("A", v).build();
            ensure!(*req.url() == u, "{text} became {}", req.url());
            let sink = Sink::new(Env::WHOLE);
            req.write(&mut sink.clone()).unwrap_or_else(|e| fail(format!("refused: {e}")));
            let target = match u.query() { Some(q) => format!("{}?{q}", u.path()), None => s(u.path()) };
            let Some((start, mut hs, body)) = split_message(&sink.data()) else { fail(format!("not a message: {}", show(&sink.data()))) };
            hs.sort();
            ensure!(start == format!("GET {target} HTTP/1.1") && hs == hv(&[("A", v), ("Host", "h")]) && body.is_empty(), "written as {}", show(&sink.data()));
            let mut u2 = u;
            u2.set_fragment(None);
            match parse_request(Src::new(&sink.data(), Env::WHOLE)) {
                Ok(Some(r)) => ensure!(*r.url() == u2, "{u2} came back as {}", r.url()),
                r => fail(format!("{} does not parse back: {r:?}", show(&sink.data()))),
            }
            outcome(&sink.data());
        }),
        scenario("many", "hundreds of requests built, written and parsed, one after the other, of two kinds", Config::bound(0), || {
            let all: [(&str, &str, Vec<(String, String)>, &str); 4] = [
                ("GET", "http://h/", hv(&[("Host", "h")]), ""),
                ("POST", "http://h:81/a?b=c", hv(&[("Host", "h:81"), ("Content-Length", "5")]), "hello"),
                ("PUT", "http://example.com/x//y", hv(&[("host", "example.com"), ("A", "")]), "\r\n\r\n"),
                ("x-y", "http://h/?", (0..19).map(|i| (format!("H{i}"), format!("v{i}"))).chain(hv(&[("Host", "h")])).collect(), "b"),
            ];
            let (a, b) = (pick(&all), pick(&all));
            let one_call = choose(2) == 1;
            for i in 0..ROUNDS {
                let (m, url, hs, body) = if i % 2 == 0 { a } else { b };
                let r = Request::build(url).method(method_of(m)).body(*body);
                let mut req = if one_call { r.headers(hs.clone()) } else { hs.iter().fold(r, |r, (k, v)| r.header(k, v)) }.build();
                let sink = Sink::new(Env::WHOLE);
                req.write(&mut sink.clone()).unwrap_or_else(|e| fail(format!("refused: {e}")));
                let u = url::Url::parse(url).unwrap();
                let target = match u.query() { Some(q) => format!("{}?{q}", u.path()), None => s(u.path()) };
                run_request(&ReqSpec { method: s(m), target: target.clone(), headers: hs.clone(), body: body.as_bytes().to_vec() }, Env::WHOLE, 0);
                let Some((start, mut got, b)) = split_message(&sink.data()) else { fail(format!("not a message: {}", show(&sink.data()))) };
                got.sort();
                let mut want = hs.clone();
                want.sort();
                ensure!(start == format!("{m} {target} HTTP/1.1") && got == want && b == body.as_bytes(), "written as {}", show(&sink.data()));
                match parse_request(Src::new(&sink.data(), Env::WHOLE)) {
                    Ok(Some(mut r)) => {
                        ensure!(*r.method() == method_of(m) && *r.url() == u, "{:?} {} came back from {}", r.method(), r.url(), show(&sink.data()));
                        let g = read_all(r.take_body(), 0).unwrap_or_else(|e| fail(e.to_string()));
                        ensure!(g == body.as_bytes(), "{} came back from {}", show(&g), show(&sink.data()));
                    }
                    r => fail(format!("{} does not parse back: {r:?}", show(&sink.data()))),
                }
            }
            outcome(&(a, b));
        }),
        scenario("sizes", "bodies of up to 2 MiB, long values, targets and methods, up to twenty headers", Config::bound(0), || {
            let n = *pick(SIZES);
            let text = String::from_utf8(bulk(n)).unwrap();
            let (mut hs, path, m) = match choose(4) {
                0 => (vec![], s("/x"), s("POST")),
                1 => (hv(&[("Long", &"v".repeat(70_000))]), s("/x"), s("POST")),
                2 => ((0..18).map(|i| (format!("H{i}"), "w".repeat(5 * i))).collect(), s("/"), s("POST")),
                _ => (vec![], format!("/{}?{}", "a/b%20".repeat(2000), "k=v&".repeat(3000)), "LONG".repeat(20)),
            };
            hs.push((s("Host"), s("h")));
            if choose(2) == 1 {
                hs.push((s("Content-Length"), n.to_string()));
            }
            let body = match choose(3) {
                0 => Body::from_string(text.clone()),
                1 => Body::from_reader(std::io::BufReader::with_capacity(100, Src::new(text.as_bytes(), Env::WHOLE)), Some(n)),
                _ => Body::from_reader(std::io::Cursor::new(bulk(n)), None),
            };
            let name = m;
            let mut req = Request::build(format!("http://h{path}")).method(Method::OtherMethod(name.clone())).headers(hs.clone()).body(body).build();
            let url = req.url().clone();
            let sink = Sink::new(Env::WHOLE);
            req.write(&mut sink.clone()).unwrap_or_else(|e| fail(format!("refused: {e}")));
            match parse_request(Src::new(&sink.data(), Env::WHOLE)) {
                Ok(Some(mut r)) => {
                    ensure!(*r.method() == method_of(&name) && *r.url() == url, "{:?} {} came back", r.method(), r.url());
                    let got: BTreeMap<String, String> = r.headers().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                    ensure!(got == hs.iter().cloned().collect(), "headers came back as {got:?}");
                    let g = read_all(r.take_body(), 0).unwrap_or_else(|e| fail(e.to_string()));
                    ensure!(g == text.as_bytes(), "{} of {n} bytes came back", g.len());
                }
                r => fail(format!("does not parse back: {r:?}")),
            }
            outcome(&(n, hs.len()));
        }),
        scenario("builder", "builders report bad URLs and missing methods instead of trapping", Config::bound(0), || {
            let bad = *pick(&["", "example.com", "/a", "http://", "http://[", "h ttp://x"]);
            ensure!(Request::try_build(bad).is_err(), "{bad:?} was accepted as a URL");
            ensure!(Request::try_build("http://h/").unwrap().try_build().is_err(), "built without a method");
            let r = Request::build("http://h/a").header("A", "1").header("A", "2").headers(hv(&[("B", "3")])).method(Method::Get).build();
            let got: BTreeMap<_, _> = r.headers().iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
            ensure!(got == BTreeMap::from([("A", "2"), ("B", "3")]), "headers {got:?}");
            outcome(bad);
        }),
    ]
}

/// Reference matcher: the path is split at every slash after the first.
fn ref_match(pattern: &[usize], path: &str) -> bool {
    let Some(rest) = path.strip_prefix('/') else { return false };
    let segs: Vec<&str> = rest.split('/').collect();
    if segs.len() != pattern.len() {
        return false;
    }
    segs.iter().zip(pattern).all(|(sg, p)| match p {
        0 => *sg == "a",
        1 => *sg == "b",
        2 => sg.is_empty(),
        3 => *sg == "12",
        4 => true,
        _ => {
            let digits = sg.strip_prefix(['+', '-']).unwrap_or(sg);
            !digits.is_empty()
                && digits.bytes().all(|c| c.is_ascii_digit())
                && sg.parse::<i64>().is_ok_and(|v| v >= -(1 << 31) && v < 1 << 31)
        }
    })
}

fn h07(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    vec![
        scenario("exhaustive", "every pattern against every path", Config::bound(0), move || {
            let max = if t { 4 } else { 3 };
            let n = choose(max + 1);
            let pattern: Vec<usize> = (0..n).map(|_| choose(6)).collect();
            let mut m = Match::new();
            for p in &pattern {
                m = m.at(match p {
                    0 => path("a"),
                    1 => path("b"),
                    2 => path(""),
                    3 => Segment::Static("12"),
                    4 => anything(),
                    _ => any_integer(),
                });
            }
            let segs: &[&str] = &["a", "b", "", "12", "-3", "+7", "2147483647", "2147483648", "-2147483648", "-2147483649", "1a", "A", "%61", "-", "a b"];
            let k = choose(max + 1);
            let mut p = String::new();
            for _ in 0..k {
                p.push('/');
                p.push_str(*pick::<&str>(if k < 4 { segs } else { &segs[..6] }));
            }
            let tail = *pick(&["", "?a=/b/c", "#/a/b", "?"]);
            let text = format!("http://h{p}{tail}");
            let u = url::Url::parse(&text).unwrap();
            step();
            let got = match guarded(|| m.does_match(&u)) { Ok(g) => g, Err(t) => fail(format!("matching trapped: {t}")) };
            let want = ref_match(&pattern, u.path());
            note(|| format!("pattern {pattern:?} against {text}: {got}"));
            ensure!(got == want, "pattern {pattern:?} (0: a, 1: b, 2: empty, 3: 12, 4: anything, 5: any integer) against {text}: {got}");
            outcome(&(pattern, p, got));
        }),
        scenario("long", "patterns and paths of up to fifty segments, which differ in one of them or in length", Config::bound(0), || {
            let n = *pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 31, 32, 33, 34, 50]);
            let kinds = *pick::<&[usize]>(&[&[0], &[4], &[5], &[0, 4], &[0, 5, 1], &[4, 4, 1], &[1, 1, 1, 4]]);
            let pattern: Vec<usize> = (0..n).map(|i| kinds[i % kinds.len()]).collect();
            let m = pattern.iter().fold(Match::new(), |m, p| m.at(match p { 0 => path("a"), 1 => path("b"), 4 => anything(), _ => any_integer() }));
            let mut segs: Vec<&str> = pattern.iter().map(|p| match p { 0 => "a", 1 => "b", 4 => "x", _ => "12" }).collect();
            match choose(7) {
                0 => {}
                1 => segs.push(""),
                2 => segs.push("a"),
                3 => { segs.pop(); }
                4 => { let i = choose(n); segs[i] = "c" }
                5 => { let i = choose(n); segs[i] = "" }
                _ => { let i = choose(n); segs.insert(i, "") }
            }
            let p: String = segs.iter().flat_map(|x| ["/", x]).collect();
            let u = url::Url::parse(&format!("http://h{p}{}", pick(&["", "?a=/b/c", "#/a/b"]))).unwrap();
            let got = match guarded(|| m.does_match(&u)) { Ok(g) => g, Err(t) => fail(format!("matching trapped: {t}")) };
            ensure!(got == ref_match(&pattern, u.path()), "pattern {pattern:?} (0: a, 1: b, 4: anything, 5: any integer) against {u}: {got}");
            outcome(&(pattern, u.as_str(), got));
        }),
        scenario("one-segment", "every segment of up to four (five) symbols against every kind of pattern", Config::bound(0), move || {
            const A: &[&str] = &["a", "b", "1", "2", "0", "-", "+", "%61", "A", " ", "\u{661}", ":", ".", "e", "_", "x", "inf"];
            let n = choose(if t { 6 } else { 5 });
            let sg: String = (0..n).map(|_| *pick(A)).collect();
            let k = choose(6);
            let m = Match::new().at(match k { 0 => path("a"), 1 => path("b"), 2 => path(""), 3 => path("12"), 4 => anything(), _ => any_integer() });
            let u = url::Url::parse(&format!("http://h/{sg}")).unwrap();
            let got = match guarded(|| m.does_match(&u)) { Ok(g) => g, Err(t) => fail(format!("matching trapped: {t}")) };
            ensure!(got == ref_match(&[k], u.path()), "pattern {k} (0: a, 1: b, 2: empty, 3: 12, 4: anything, 5: any integer) against {u}: {got}");
            outcome(&(sg, k, got));
        }),
        scenario("no-path", "URLs without a path never match", Config::bound(0), || {
            let u = url::Url::parse(pick::<&str>(&["mailto:a@b", "data:text/plain,a", "urn:a:b"])).unwrap();
            let n = choose(3);
            let mut m = Match::new();
            for _ in 0..n {
                m = m.at(anything());
            }
            ensure!(!m.does_match(&u), "{u} matched {n} segments");
            outcome(&(u.as_str(), n));
        }),
        scenario("reuse", "a matcher gives the same answer every time it is asked", Config::bound(0), || {
            let m = Match::new().at(path("a")).at(any_integer());
            let us: Vec<url::Url> = ["http://h/a/1", "http://h/a/x", "http://h/a", "http://h/a/1/"].iter().map(|x| url::Url::parse(x).unwrap()).collect();
            for _ in 0..4 {
                let i = choose(4);
                ensure!(m.does_match(&us[i]) == (i == 0), "answer for {} changed", us[i]);
            }
            outcome(&0);
        }),
    ]
}

fn h08(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    let inj: &[&str] = &["\r\n", "\n", "\r", "\r\nX: y", "\r\n\r\nHTTP/1.1 200 OK\r\n", "\nX: y"];
    fn inject(base: &str, i: &str) -> String {
        let at = choose(base.len() + 1);
        format!("{}{i}{}", &base[..at], &base[at..])
    }
    // Bytes that any lenient recipient could take for a line end must only occur where the message
    // has its own line ends.
    fn lines_ok(out: &[u8], want_headers: usize) {
        let text = String::from_utf8_lossy(out).to_string();
        let head = match text.find("\r\n\r\n") {
            Some(i) => &text[..i],
            None => fail(format!("no complete head: {text:?}")),
        };
        let breaks = head.replace("\r\n", "\n");
        let n = breaks.matches(['\r', '\n']).count();
        ensure!(n == want_headers, "{n} header lines instead of {want_headers}: {text:?}");
        ensure!(text.len() == head.len() + 4 + 4, "bytes after the body: {text:?}");
    }
    vec![
        scenario("response", "line breaks inside a reason, header name or value never reach the wire", Config::bound(0), move || {
            let i = *pick(inj);
            let which = choose(3);
            let (mut r, mut k, mut v) = (s("OK"), s("Ab"), s("vw"));
            match which {
                0 => r = inject(&r, i),
                1 => k = inject(&k, i),
                _ => v = inject(&v, i),
            }
            note(|| format!("reason {r:?} header {k:?}: {v:?}"));
            let res = Response::build().status(200, &r).header(&k, &v).header("Zz", "1").body("body").build();
            let sink = Sink::new(Env::WHOLE);
            let s2 = sink.clone();
            step();
            let ret = guarded(move || puck::response::encoder::Encoder::new(res).write_tcp_stream(s2));
            match ret {
                Err(t) => fail(format!("encoding trapped: {t}")),
                Ok(Ok(())) => lines_ok(&sink.data(), 2),
                Ok(Err(_)) => {
                    let out = String::from_utf8_lossy(&sink.data()).to_string();
                    ensure!(!out.contains("X: y") && !out.contains("\r\n\r\n"), "refused after sending {out:?}");
                }
            }
            outcome(&(r, k, v));
        }),
        scenario("request", "line breaks inside a header name, value or method never reach the wire", Config::bound(0), move || {
            let i = *pick(inj);
            let which = choose(3);
            let (mut m, mut k, mut v) = (s("PUT"), s("Ab"), s("vw"));
            match which {
                0 => m = inject(&m, i),
                1 => k = inject(&k, i),
                _ => v = inject(&v, i),
            }
            note(|| format!("method {m:?} header {k:?}: {v:?}"));
            let mut req = Request::build("http://h/a").method(Method::OtherMethod(m.clone())).header(&k, &v).body("body").build();
            let sink = Sink::new(Env::WHOLE);
            let mut s2 = sink.clone();
            step();
            match guarded(move || req.write(&mut s2)) {
                Err(t) => fail(format!("writing trapped: {t}")),
                Ok(Ok(())) => lines_ok(&sink.data(), 1),
                Ok(Err(_)) => {
                    let out = String::from_utf8_lossy(&sink.data()).to_string();
                    ensure!(!out.contains("X: y") && !out.contains("\r\n\r\n"), "refused after sending {out:?}");
                }
            }
            outcome(&(m, k, v));
        }),
        scenario("texts", "every text of up to five (six) symbols in every position: on the wire one line, or refused", Config::bound(0), move || {
            const A: &[&str] = &["\r", "\n", "a", ":", " ", "\u{85}", "\u{10d}"];
            let n = choose(if t { 7 } else { 6 });
            let x: String = (0..n).map(|_| *pick(A)).collect();
            let bad = x.contains(['\r', '\n']);
            let sink = Sink::new(Env::WHOLE);
            let mut s2 = sink.clone();
            let (which, r) = match choose(5) {
                0 => (1, guarded(move || puck::response::encoder::Encoder::new(Response::build().status(200, &x).header("Zz", "1").body("body").build()).write_tcp_stream(s2))),
                1 => (1, guarded(move || puck::response::encoder::Encoder::new(Response::build().header("Zz", &x).body("body").build()).write_tcp_stream(s2))),
                2 => (0, guarded(move || puck::response::encoder::Encoder::new(Response::build().header(&x, "1").body("body").build()).write_tcp_stream(s2))),
                3 => (1, guarded(move || Request::build("http://h/a").method(Method::Get).header("Zz", &x).body("body").build().write(&mut s2))),
                _ => (0, guarded(move || Request::build("http://h/a").method(Method::Get).header(&x, "1").body("body").build().write(&mut s2))),
            };
            match r {
                Err(t) => fail(format!("writing trapped: {t}")),
                Ok(Ok(())) => {
                    lines_ok(&sink.data(), 1);
                    ensure!(!bad, "written: {}", show(&sink.data()));
                }
                Ok(Err(e)) => ensure!(bad || which == 0, "a text without line breaks is refused: {e}"),
            }
            outcome(&(sink.data(), bad));
        }),
        scenario("anywhere", "a line break in one of up to sixty headers, before or after up to 20 000 bytes, in requests and responses", Config::bound(0).fresh(), move || {
            mc::hash_seed(choose(if t { 8 } else { 2 }));
            let n = *pick(&[1usize, 2, 3, 5, 8, 9, 10, 16, 17, 20, 33, 60]);
            let at = choose(n);
            let brk = *pick(&["\r\n", "\n", "\r"]);
            let pad = "p".repeat(*pick(&[0usize, 1, 7, 100, 255, 256, 1023, 1024, 8191, 8192, 20_000]));
            let text = match choose(3) { 0 => format!("{brk}{pad}"), 1 => format!("{pad}{brk}"), _ => format!("{pad}{brk}X: y") };
            let name = choose(2) == 1;
            let hs: Vec<(String, String)> = (0..n).map(|i| if i != at { (format!("H{i}"), s("v")) } else if name { (format!("H{i}{text}"), s("v")) } else { (format!("H{i}"), text.clone()) }).collect();
            let sink = Sink::new(Env::WHOLE);
            let mut s2 = sink.clone();
            let many = choose(2) == 1;
            let r = if choose(2) == 0 {
                let b = Response::build().body("body");
                let res = if many { b.headers(hs) } else { hs.iter().fold(b, |b, (k, v)| b.header(k, v)) }.build();
                guarded(move || puck::response::encoder::Encoder::new(res).write_tcp_stream(s2))
            } else {
                let b = Request::build("http://h/a").method(Method::Get).body("body");
                let mut req = if many { b.headers(hs) } else { hs.iter().fold(b, |b, (k, v)| b.header(k, v)) }.build();
                guarded(move || req.write(&mut s2))
            };
            match r {
                Err(t) => fail(format!("writing trapped: {t}")),
                Ok(Ok(())) => fail(format!("a header with {brk:?} after {} bytes is written", text.find(brk).unwrap())),
                Ok(Err(_)) => {
                    let out = sink.data();
                    ensure!(!out.windows(4).any(|w| w == b"X: y") && !out.windows(4).any(|w| w == b"\r\n\r\n"), "refused after sending {}", show(&out));
                }
            }
            outcome(&(n, at, text.len(), brk, name));
        }),
        scenario("long-clean", "long texts and many headers without line breaks are not refused", Config::bound(0), || {
            let n = *pick(&[1usize, 2, 10, 17, 33, 60]);
            let v = "v".repeat(*pick(&[0usize, 1, 255, 1024, 8192, 70_000]));
            let hs: Vec<(String, String)> = (0..n).map(|i| (format!("H{i}"), v.clone())).collect();
            let sink = Sink::new(Env::WHOLE);
            let r = if choose(2) == 0 {
                puck::response::encoder::Encoder::new(Response::build().status(200, &v).headers(hs).body("body").build()).write_tcp_stream(sink.clone())
            } else {
                Request::build("http://h/a").method(Method::OtherMethod(s("LONG"))).headers(hs).body("body").build().write(&mut sink.clone())
            };
            ensure!(r.is_ok(), "refused: {r:?}");
            lines_ok(&sink.data(), n);
            outcome(&(n, v.len()));
        }),
        scenario("clean", "messages without line breaks are not refused", Config::bound(0), || {
            let v = *pick(&["", "v", "a b\tc", "\u{e9}", "x: y", "%0d%0a", "\\r\\n"]);
            let res = Response::build().status(200, v).header("A", v).body("body").build();
            let sink = Sink::new(Env::WHOLE);
            let r = puck::response::encoder::Encoder::new(res).write_tcp_stream(sink.clone());
            ensure!(r.is_ok(), "refused {v:?}: {r:?}");
            lines_ok(&sink.data(), 1);
            let mut req = Request::build("http://h/a").method(Method::Get).header("A", v).body("body").build();
            let sink = Sink::new(Env::WHOLE);
            let r = req.write(&mut sink.clone());
            ensure!(r.is_ok(), "refused {v:?}: {r:?}");
            lines_ok(&sink.data(), 1);
            let _ = choose_dev(1);
            outcome(v);
        }),
    ]
}
