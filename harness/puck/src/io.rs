//! Readers and writers whose answers are choices of the explorer.
use mc::{choose_dev, note, step};
use std::cell::RefCell;
use std::io::{BufRead, Error, ErrorKind, IoSlice, Read, Result, Write};
use std::rc::Rc;

#[derive(Clone, Copy, Default)]
pub struct Env {
    /// A read or write may transfer any smaller non-zero amount (deviation).
    pub short: bool,
    /// A read or write may fail (deviation); it then keeps failing.
    pub fail: bool,
    /// A read or write may be interrupted once (deviation).
    pub interrupt: bool,
}

impl Env {
    pub const WHOLE: Env = Env { short: false, fail: false, interrupt: false };
    pub const SHORT: Env = Env { short: true, fail: false, interrupt: false };
    pub const ALL: Env = Env { short: true, fail: true, interrupt: true };
}

enum Answer {
    Some(usize),
    Fail,
    Interrupt,
}

fn sizes(max: usize) -> Vec<usize> {
    if max <= 512 {
        (1..max).collect()
    } else {
        // interesting sizes around buffer and line boundaries
        let mut v = vec![1, 2, 3, 4, 63, 64, 999, 1000, 1001, 1023, 1024, 4095, 4096, 8191, 8192,
            9998, 9999, 10000, max / 2, max - 4, max - 3, max - 2, max - 1];
        v.retain(|x| *x > 0 && *x < max);
        v.sort();
        v.dedup();
        v
    }
}

fn answer(max: usize, env: Env) -> Answer {
    let sh = if env.short { sizes(max) } else { vec![] };
    let n = 1 + sh.len() + env.fail as usize + env.interrupt as usize;
    let c = choose_dev(n);
    if c == 0 {
        return Answer::Some(max);
    }
    if c <= sh.len() {
        return Answer::Some(sh[c - 1]);
    }
    let c = c - sh.len();
    if env.fail && c == 1 {
        Answer::Fail
    } else {
        Answer::Interrupt
    }
}

pub struct SrcState {
    pub data: Vec<u8>,
    pub pos: usize,
    pub env: Env,
    /// What happens after the data: end of stream, or a failure.
    pub reads: usize,
    pub failed: bool,
}

/// A byte source. Clones share the position, as clones of a socket do.
#[derive(Clone)]
pub struct Src(pub Rc<RefCell<SrcState>>);

impl Src {
    pub fn new(data: &[u8], env: Env) -> Src {
        Src(Rc::new(RefCell::new(SrcState {
            data: data.to_vec(),
            pos: 0,
            env,
            reads: 0,
            failed: false,
        })))
    }
    pub fn failed(&self) -> bool {
        self.0.borrow().failed
    }
    pub fn pos(&self) -> usize {
        self.0.borrow().pos
    }
}

impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        step();
        let mut s = self.0.borrow_mut();
        s.reads += 1;
        if s.reads > 100_000 {
            drop(s);
            mc::fail_key("read-loop", "the code keeps reading without making progress");
        }
        if s.failed {
            return Err(Error::new(ErrorKind::Other, "injected"));
        }
        let max = buf.len().min(s.data.len() - s.pos);
        if buf.is_empty() {
            return Ok(0);
        }
        let k = if max == 0 {
            if s.env.fail && choose_dev(2) == 1 {
                s.failed = true;
                note(|| "read: fails at the end".into());
                return Err(Error::new(ErrorKind::Other, "injected"));
            }
            0
        } else {
            match answer(max, s.env) {
                Answer::Some(k) => k,
                Answer::Fail => {
                    s.failed = true;
                    note(|| format!("read: fails after {} bytes", s.pos));
                    return Err(Error::new(ErrorKind::Other, "injected"));
                }
                Answer::Interrupt => {
                    note(|| "read: interrupted".into());
                    return Err(Error::new(ErrorKind::Interrupted, "injected"));
                }
            }
        };
        buf[..k].copy_from_slice(&s.data[s.pos..s.pos + k]);
        s.pos += k;
        note(|| format!("read of {} bytes returns {k}", buf.len()));
        Ok(k)
    }
}

/// A `BufRead` whose buffer refills are choices.
pub struct BufSrc {
    src: Src,
    buf: Vec<u8>,
    at: usize,
}

impl BufSrc {
    pub fn new(src: Src) -> BufSrc {
        BufSrc { src, buf: vec![], at: 0 }
    }
}

impl Read for BufSrc {
    fn read(&mut self, out: &mut [u8]) -> Result<usize> {
        if self.at < self.buf.len() {
            let k = out.len().min(self.buf.len() - self.at);
            out[..k].copy_from_slice(&self.buf[self.at..self.at + k]);
            self.at += k;
            return Ok(k);
        }
        self.src.read(out)
    }
}

impl BufRead for BufSrc {
    fn fill_buf(&mut self) -> Result<&[u8]> {
        if self.at == self.buf.len() {
            let mut b = vec![0; 64];
            let n = self.src.read(&mut b)?;
            b.truncate(n);
            self.buf = b;
            self.at = 0;
        }
        Ok(&self.buf[self.at..])
    }
    fn consume(&mut self, n: usize) {
        self.at += n;
    }
}

pub struct SinkState {
    pub data: Vec<u8>,
    pub env: Env,
    pub failed: bool,
    pub writes: usize,
}

#[derive(Clone)]
pub struct Sink(pub Rc<RefCell<SinkState>>);

impl Sink {
    pub fn new(env: Env) -> Sink {
        Sink(Rc::new(RefCell::new(SinkState {
            data: vec![],
            env,
            failed: false,
            writes: 0,
        })))
    }
    pub fn data(&self) -> Vec<u8> {
        self.0.borrow().data.clone()
    }
    pub fn failed(&self) -> bool {
        self.0.borrow().failed
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        step();
        let mut s = self.0.borrow_mut();
        s.writes += 1;
        if s.failed {
            return Err(Error::new(ErrorKind::Other, "injected"));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let k = match answer(buf.len(), s.env) {
            Answer::Some(k) => k,
            Answer::Fail => {
                s.failed = true;
                note(|| format!("write: fails after {} bytes", s.data.len()));
                return Err(Error::new(ErrorKind::Other, "injected"));
            }
            Answer::Interrupt => {
                note(|| "write: interrupted".into());
                return Err(Error::new(ErrorKind::Interrupted, "injected"));
            }
        };
        s.data.extend_from_slice(&buf[..k]);
        note(|| format!("write of {} bytes accepts {k}", buf.len()));
        Ok(k)
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> Result<usize> {
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        self.write(&all)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

pub fn show(b: &[u8]) -> String {
    let s: String = b
        .iter()
        .take(400)
        .flat_map(|c| std::ascii::escape_default(*c))
        .map(|c| c as char)
        .collect();
    if b.len() > 400 {
        format!("\"{s}\"... ({} bytes)", b.len())
    } else {
        format!("\"{s}\"")
    }
}
