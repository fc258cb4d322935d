//! Reference models for HTTP messages, independent of the code under test.

/// Split a message on the wire into its start line, header lines and the rest, the way any
/// conforming HTTP/1.1 recipient does. `None` if it is not a well formed message head.
pub fn split_message(b: &[u8]) -> Option<(String, Vec<(String, String)>, Vec<u8>)> {
    let end = b.windows(4).position(|w| w == b"\r\n\r\n")?;
    let head = &b[..end];
    let mut lines = vec![];
    let mut rest = head;
    while let Some(i) = rest.windows(2).position(|w| w == b"\r\n") {
        lines.push(&rest[..i]);
        rest = &rest[i + 2..];
    }
    lines.push(rest);
    let start = String::from_utf8(lines[0].to_vec()).ok()?;
    let mut headers = vec![];
    for l in &lines[1..] {
        let i = l.iter().position(|c| *c == b':')?;
        let name = String::from_utf8(l[..i].to_vec()).ok()?;
        if name.is_empty() || !name.bytes().all(is_token) {
            return None;
        }
        let v = std::str::from_utf8(&l[i + 1..]).ok()?;
        headers.push((name, v.trim_matches([' ', '\t']).to_string()));
    }
    Some((start, headers, b[end + 4..].to_vec()))
}

pub fn is_token(c: u8) -> bool {
    c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c)
}

#[derive(Clone, Debug)]
pub struct ReqSpec {
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl ReqSpec {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = format!("{} {} HTTP/1.1\r\n", self.method, self.target).into_bytes();
        for (k, x) in &self.headers {
            v.extend(format!("{k}: {x}\r\n").bytes());
        }
        v.extend(b"\r\n");
        v.extend(&self.body);
        v
    }
    pub fn head_len(&self) -> usize {
        self.bytes().len() - self.body.len()
    }
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers
            .iter()
            .find(|(k, _)| k.eq_ignore_ascii_case(name))
            .map(|(_, v)| v.as_str())
    }
    /// The bytes a recipient takes as the body when these bytes are followed by end of stream.
    pub fn expected_body(&self) -> Vec<u8> {
        match self.header("content-length").and_then(|v| v.parse::<usize>().ok()) {
            Some(n) => self.body[..n.min(self.body.len())].to_vec(),
            None => self.body.clone(),
        }
    }
    /// (scheme, host, port, path, query)
    pub fn expected_url(&self) -> (String, String, Option<u16>, String, Option<String>) {
        let (scheme, authority, rest) = if let Some(r) = self.target.strip_prefix("http://") {
            let (a, p) = split_authority(r);
            ("http", a, p)
        } else if let Some(r) = self.target.strip_prefix("https://") {
            let (a, p) = split_authority(r);
            ("https", a, p)
        } else if self.method.eq_ignore_ascii_case("connect") {
            ("http", self.header("host").unwrap().to_string(), "/".to_string())
        } else {
            ("http", self.header("host").unwrap().to_string(), self.target.clone())
        };
        let (host, port) = match authority.rsplit_once(':') {
            Some((h, p)) if !p.is_empty() && p.bytes().all(|c| c.is_ascii_digit()) => {
                (h.to_string(), p.parse::<u16>().ok())
            }
            _ => (authority, None),
        };
        let default = if scheme == "http" { 80 } else { 443 };
        let port = port.filter(|p| *p != default);
        let (path, query) = match rest.split_once('?') {
            Some((p, q)) => (p.to_string(), Some(q.to_string())),
            None => (rest, None),
        };
        let path = if path.is_empty() { "/".to_string() } else { path };
        (scheme.into(), host.to_ascii_lowercase(), port, path, query)
    }
}

fn split_authority(r: &str) -> (String, String) {
    match r.find(['/', '?']) {
        Some(i) => (r[..i].to_string(), r[i..].to_string()),
        None => (r.to_string(), "/".to_string()),
    }
}

/// The start line and headers of the head, read as leniently as any recipient would: lines end at
/// LF, with an optional CR, and empty lines before the start line are skipped.
pub fn lenient_head(b: &[u8]) -> Option<(String, Vec<(String, String)>)> {
    let text = String::from_utf8_lossy(b);
    let mut lines = text.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).skip_while(|l| l.is_empty());
    let start = lines.next()?.to_string();
    let mut hs = vec![];
    for l in lines {
        if l.is_empty() {
            return Some((start, hs));
        }
        let (k, v) = l.split_once(':')?;
        hs.push((k.to_string(), v.trim_matches([' ', '\t']).to_string()));
    }
    None
}
