//! Reference model of the WebSocket protocol (RFC 6455), independent of the code under test.

/// What the owner of a connection observes.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Ping(Vec<u8>),
    Pong(Vec<u8>),
    Text(String),
    Bin(Vec<u8>),
    /// The peer violated the protocol.
    Bad,
    /// The connection is closed.
    Closed,
}

pub const CONT: u8 = 0;
pub const TEXT: u8 = 1;
pub const BIN: u8 = 2;
pub const CLOSE: u8 = 8;
pub const PING: u8 = 9;
pub const PONG: u8 = 10;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct F {
    pub fin: bool,
    pub rsv: u8,
    pub op: u8,
    pub key: Option<[u8; 4]>,
    pub data: Vec<u8>,
}

pub const KEY: [u8; 4] = [0x37, 0xfa, 0x21, 0x3d];

pub fn f(op: u8, data: &[u8]) -> F {
    F { fin: true, rsv: 0, op, key: Some(KEY), data: data.to_vec() }
}

/// A fragment that is not the last one.
pub fn part(op: u8, data: &[u8]) -> F {
    F { fin: false, ..f(op, data) }
}

impl F {
    pub fn keyed(mut self, k: [u8; 4]) -> F {
        self.key = Some(k);
        self
    }
    pub fn head(&self) -> u8 {
        (self.fin as u8) << 7 | self.rsv << 4 | self.op
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![self.head()];
        let m = if self.key.is_some() { 0x80 } else { 0 };
        let n = self.data.len();
        if n < 126 {
            v.push(m | n as u8);
        } else if n < 65536 {
            v.push(m | 126);
            v.extend((n as u16).to_be_bytes());
        } else {
            v.push(m | 127);
            v.extend((n as u64).to_be_bytes());
        }
        match self.key {
            Some(k) => {
                v.extend(k);
                v.extend(self.data.iter().enumerate().map(|(i, b)| b ^ k[i & 3]));
            }
            None => v.extend(&self.data),
        }
        v
    }
}

pub fn bytes(fs: &[F]) -> Vec<u8> {
    fs.iter().flat_map(|f| f.bytes()).collect()
}

/// UTF-8 by the table of the Unicode standard (D92).
pub fn utf8(b: &[u8]) -> Option<String> {
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0..=0x7f => (0, 0, 0),
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee..=0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return None,
        };
        if i + n >= b.len() {
            return None;
        }
        let mut v = match n {
            0 => c as u32,
            1 => (c & 0x1f) as u32,
            2 => (c & 0x0f) as u32,
            _ => (c & 0x07) as u32,
        };
        for j in 1..=n {
            let x = b[i + j];
            let (l, h) = if j == 1 { (lo, hi) } else { (0x80, 0xbf) };
            if x < l || x > h {
                return None;
            }
            v = v << 6 | (x & 0x3f) as u32;
        }
        out.push(char::from_u32(v)?);
        i += n + 1;
    }
    Some(out)
}

/// How a server has to react to a sequence of frames.
#[derive(Clone, Debug, PartialEq)]
pub struct Reaction {
    pub events: Vec<Ev>,
    /// Payloads of the pongs it sends.
    pub pongs: Vec<Vec<u8>>,
    /// The frame that ended the connection, if one did.
    pub ended_by: Option<usize>,
    pub closed_by_peer: bool,
    /// A control frame arrived between the fragments of a message.
    pub interleaved: bool,
    /// A message is incomplete.
    pub pending: bool,
}

pub fn react(frames: &[F]) -> Reaction {
    let mut r = Reaction { events: vec![], pongs: vec![], ended_by: None, closed_by_peer: false, interleaved: false, pending: false };
    let mut open: Option<(u8, Vec<u8>)> = None;
    for (i, f) in frames.iter().enumerate() {
        let control = f.op & 8 != 0;
        let legal = f.rsv == 0
            && matches!(f.op, 0 | 1 | 2 | 8 | 9 | 10)
            && f.key.is_some()
            && (!control || (f.fin && f.data.len() <= 125))
            && match f.op {
                CONT => open.is_some(),
                TEXT | BIN => open.is_none(),
                _ => true,
            };
        if !legal {
            r.events.push(Ev::Bad);
            r.ended_by = Some(i);
            return r;
        }
        match f.op {
            CLOSE => {
                r.events.push(Ev::Closed);
                r.ended_by = Some(i);
                r.closed_by_peer = true;
                return r;
            }
            PING | PONG => {
                if open.is_some() {
                    r.interleaved = true;
                }
                if f.op == PING {
                    r.pongs.push(f.data.clone());
                    r.events.push(Ev::Ping(f.data.clone()));
                } else {
                    r.events.push(Ev::Pong(f.data.clone()));
                }
            }
            op => {
                let (kind, mut data) = open.take().unwrap_or((op, vec![]));
                data.extend(&f.data);
                if !f.fin {
                    open = Some((kind, data));
                } else if kind == BIN {
                    r.events.push(Ev::Bin(data));
                } else {
                    match utf8(&data) {
                        Some(s) => r.events.push(Ev::Text(s)),
                        None => {
                            r.events.push(Ev::Bad);
                            r.ended_by = Some(i);
                            return r;
                        }
                    }
                }
            }
        }
    }
    r.pending = open.is_some();
    r
}

/// The frames a conforming client finds in the bytes of a server, and the bytes left over.
pub fn server_frames(mut b: &[u8]) -> Result<(Vec<(u8, Vec<u8>)>, &[u8]), String> {
    let mut out = vec![];
    loop {
        if b.len() < 2 {
            return Ok((out, b));
        }
        let (h, l) = (b[0], b[1]);
        if h & 0xf0 != 0x80 {
            return Err(format!("frame {} has the first byte {h:#x}", out.len()));
        }
        if l & 0x80 != 0 {
            return Err(format!("frame {} of the server is masked", out.len()));
        }
        let (n, at) = match l {
            126 => {
                if b.len() < 4 {
                    return Ok((out, b));
                }
                let n = u16::from_be_bytes([b[2], b[3]]) as u64;
                if n < 126 {
                    return Err(format!("length {n} is not encoded in the shortest form"));
                }
                (n, 4)
            }
            127 => {
                if b.len() < 10 {
                    return Ok((out, b));
                }
                let n = u64::from_be_bytes(b[2..10].try_into().unwrap());
                if n < 65536 || n >> 63 != 0 {
                    return Err(format!("length {n} is not encoded in the shortest form"));
                }
                (n, 10)
            }
            n => (n as u64, 2),
        };
        if ((b.len() - at) as u64) < n {
            return Ok((out, b));
        }
        let end = at + n as usize;
        let op = h & 0x0f;
        if !matches!(op, 1 | 2 | 8 | 9 | 10) {
            return Err(format!("frame {} of the server has the op code {op}", out.len()));
        }
        if op & 8 != 0 && n > 125 {
            return Err("a control frame of the server is too long".into());
        }
        out.push((op, b[at..end].to_vec()));
        b = &b[end..];
    }
}

/// SHA-1 (FIPS 180-4).
pub fn sha1(msg: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend((msg.len() as u64 * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(c[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut cc, mut d, mut e] = h;
        for (i, x) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b & cc) | (!b & d), 0x5A827999),
                1 => (b ^ cc ^ d, 0x6ED9EBA1),
                2 => ((b & cc) | (b & d) | (cc & d), 0x8F1BBCDC),
                _ => (b ^ cc ^ d, 0xCA62C1D6u32),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*x);
            (e, d, cc, b, a) = (d, cc, b.rotate_left(30), a, t);
        }
        for (x, y) in h.iter_mut().zip([a, b, cc, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0; 20];
    for (i, x) in h.iter().enumerate() {
        out[4 * i..4 * i + 4].copy_from_slice(&x.to_be_bytes());
    }
    out
}

pub fn base64(b: &[u8]) -> String {
    let a = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(a[(n >> (18 - 6 * i) & 63) as usize] as char)
            } else {
                s.push('=')
            }
        }
    }
    s
}

pub fn accept_key(key: &str) -> String {
    base64(&sha1(format!("{key}258EAFA5-E914-47DA-95CA-C5AB0DC85B11").as_bytes()))
}
