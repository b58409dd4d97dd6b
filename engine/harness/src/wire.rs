//! The client's side of remote write and read: protobuf, snappy and HTTP, written apart from the
//! code under test.
use crate::oracle::*;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::time::Duration;

pub type Lab = Vec<(String, String)>;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Series {
    pub labels: Lab,
    /// time, value as bits
    pub samples: Vec<(i64, u64)>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Query {
    pub start: i64,
    pub end: i64,
    /// type, name, value
    pub matchers: Vec<(u64, String, String)>,
}

pub fn lab(l: &[(&str, &str)]) -> Lab {
    l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub fn varint(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        if v < 128 {
            o.push(v as u8);
            return o;
        }
        o.push(v as u8 | 128);
        v >>= 7;
    }
}

pub fn f_var(n: u64, v: u64) -> Vec<u8> {
    [varint(n << 3), varint(v)].concat()
}
pub fn f_64(n: u64, v: u64) -> Vec<u8> {
    [varint(n << 3 | 1), v.to_le_bytes().to_vec()].concat()
}
pub fn f_32(n: u64, v: u32) -> Vec<u8> {
    [varint(n << 3 | 5), v.to_le_bytes().to_vec()].concat()
}
pub fn f_len(n: u64, v: &[u8]) -> Vec<u8> {
    [varint(n << 3 | 2), varint(v.len() as u64), v.to_vec()].concat()
}

/// proto3: defaults are left out
fn opt(on: bool, v: Vec<u8>) -> Vec<u8> {
    if on {
        v
    } else {
        vec![]
    }
}

pub fn label(n: &str, v: &str) -> Vec<u8> {
    [opt(!n.is_empty(), f_len(1, n.as_bytes())), opt(!v.is_empty(), f_len(2, v.as_bytes()))].concat()
}
pub fn sample(t: i64, v: u64) -> Vec<u8> {
    [opt(v != 0, f_64(1, v)), opt(t != 0, f_var(2, t as u64))].concat()
}
pub fn series(s: &Series) -> Vec<u8> {
    let mut o = vec![];
    for (n, v) in &s.labels {
        o.extend(f_len(1, &label(n, v)));
    }
    for (t, v) in &s.samples {
        o.extend(f_len(2, &sample(*t, *v)));
    }
    o
}
pub fn write_request(s: &[Series]) -> Vec<u8> {
    s.iter().flat_map(|s| f_len(1, &series(s))).collect()
}
pub fn matcher(m: &(u64, String, String)) -> Vec<u8> {
    [opt(m.0 != 0, f_var(1, m.0)), opt(!m.1.is_empty(), f_len(2, m.1.as_bytes())), opt(!m.2.is_empty(), f_len(3, m.2.as_bytes()))].concat()
}
pub fn query(q: &Query) -> Vec<u8> {
    let mut o = [opt(q.start != 0, f_var(1, q.start as u64)), opt(q.end != 0, f_var(2, q.end as u64))].concat();
    for m in &q.matchers {
        o.extend(f_len(3, &matcher(m)));
    }
    o
}
pub fn read_request(q: &[Query]) -> Vec<u8> {
    q.iter().flat_map(|q| f_len(1, &query(q))).collect()
}

pub fn snap(b: &[u8]) -> Vec<u8> {
    snap::raw::Encoder::new().compress_vec(b).expect("snappy")
}

/// What the snappy header of `b` says about its length, for bodies nobody should allocate for.
pub fn claims(b: &[u8]) -> u64 {
    let mut v = 0u64;
    for (i, x) in b.iter().take(5).enumerate() {
        v |= ((x & 127) as u64) << (7 * i);
        if x & 128 == 0 {
            break;
        }
    }
    v
}

// ---- decoding ----

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    /// no protobuf parser may accept it
    Malformed,
    /// parsers differ
    Unclear,
}

pub enum F<'a> {
    Var(u64),
    Fix64(u64),
    Fix32,
    Len(&'a [u8]),
}

fn get_varint(b: &[u8], i: &mut usize) -> Result<u64, Bad> {
    let mut v = 0u64;
    for k in 0..10 {
        let x = *b.get(*i).ok_or(Bad::Malformed)?;
        *i += 1;
        if k == 9 && x > 1 {
            return Err(if x & 128 != 0 { Bad::Malformed } else { Bad::Unclear });
        }
        v |= ((x & 127) as u64) << (7 * k);
        if x & 128 == 0 {
            return Ok(v);
        }
    }
    Err(Bad::Malformed)
}

pub fn fields(b: &[u8]) -> Result<Vec<(u64, F<'_>)>, Bad> {
    let mut i = 0;
    let mut o = vec![];
    while i < b.len() {
        let tag = get_varint(b, &mut i)?;
        if tag > u32::MAX as u64 {
            return Err(Bad::Unclear);
        }
        if tag >> 3 == 0 {
            return Err(Bad::Malformed);
        }
        let take = |i: &mut usize, n: u64| -> Result<&[u8], Bad> {
            if n > (b.len() - *i) as u64 {
                return Err(Bad::Malformed);
            }
            let s = &b[*i..*i + n as usize];
            *i += n as usize;
            Ok(s)
        };
        let f = match tag & 7 {
            0 => F::Var(get_varint(b, &mut i)?),
            1 => F::Fix64(u64::from_le_bytes(take(&mut i, 8)?.try_into().unwrap())),
            2 => {
                let n = get_varint(b, &mut i)?;
                F::Len(take(&mut i, n)?)
            }
            3 => return Err(Bad::Unclear),
            5 => {
                take(&mut i, 4)?;
                F::Fix32
            }
            _ => return Err(Bad::Malformed),
        };
        o.push((tag >> 3, f));
    }
    Ok(o)
}

/// Goes on after something unclear, since something malformed may follow.
struct Acc(Option<Bad>);
impl Acc {
    fn ok<T>(&mut self, r: Result<T, Bad>) -> Option<T> {
        match r {
            Ok(v) => Some(v),
            Err(Bad::Malformed) => {
                self.0 = Some(Bad::Malformed);
                None
            }
            Err(Bad::Unclear) => {
                self.0 = self.0.or(Some(Bad::Unclear));
                None
            }
        }
    }
    fn end<T>(self, v: T) -> Result<T, Bad> {
        match self.0 {
            Some(b) => Err(b),
            None => Ok(v),
        }
    }
}

fn text(f: &F) -> Result<String, Bad> {
    match f {
        F::Len(b) => String::from_utf8(b.to_vec()).map_err(|_| Bad::Malformed),
        _ => Err(Bad::Unclear),
    }
}
fn num(f: &F) -> Result<u64, Bad> {
    match f {
        F::Var(v) => Ok(*v),
        _ => Err(Bad::Unclear),
    }
}
fn sub<'a>(f: &F<'a>) -> Result<&'a [u8], Bad> {
    match f {
        F::Len(b) => Ok(b),
        _ => Err(Bad::Unclear),
    }
}

pub fn de_series(b: &[u8]) -> Result<Series, Bad> {
    let mut a = Acc(None);
    let mut s = Series::default();
    for (n, f) in fields(b)? {
        match n {
            1 => {
                let mut p = (String::new(), String::new());
                if let Some(fs) = a.ok(sub(&f).and_then(fields)) {
                    for (n, f) in fs {
                        match n {
                            1 => p.0 = a.ok(text(&f)).unwrap_or_default(),
                            2 => p.1 = a.ok(text(&f)).unwrap_or_default(),
                            _ => {}
                        }
                    }
                }
                s.labels.push(p);
            }
            2 => {
                let mut p = (0i64, 0u64);
                if let Some(fs) = a.ok(sub(&f).and_then(fields)) {
                    for (n, f) in fs {
                        match (n, f) {
                            (1, F::Fix64(v)) => p.1 = v,
                            (2, F::Var(v)) => p.0 = v as i64,
                            (1, _) | (2, _) => {
                                a.ok::<()>(Err(Bad::Unclear));
                            }
                            _ => {}
                        }
                    }
                }
                s.samples.push(p);
            }
            _ => {}
        }
    }
    a.end(s)
}

pub fn de_write(b: &[u8]) -> Result<Vec<Series>, Bad> {
    let mut a = Acc(None);
    let mut o = vec![];
    for (n, f) in fields(b)? {
        if n == 1 {
            if let Some(s) = a.ok(sub(&f).and_then(de_series)) {
                o.push(s);
            }
        }
    }
    a.end(o)
}

pub fn de_read(b: &[u8]) -> Result<Vec<Query>, Bad> {
    let mut a = Acc(None);
    let mut o = vec![];
    for (n, f) in fields(b)? {
        if n == 2 {
            // accepted response types: enum values this check does not know the meaning of
            a.ok::<()>(Err(Bad::Unclear));
        }
        if n != 1 {
            continue;
        }
        let mut q = Query::default();
        if let Some(fs) = a.ok(sub(&f).and_then(fields)) {
            for (n, f) in fs {
                match n {
                    1 => q.start = a.ok(num(&f)).unwrap_or(0) as i64,
                    2 => q.end = a.ok(num(&f)).unwrap_or(0) as i64,
                    3 => {
                        let mut m = (0, String::new(), String::new());
                        if let Some(fs) = a.ok(sub(&f).and_then(fields)) {
                            for (n, f) in fs {
                                match n {
                                    1 => m.0 = a.ok(num(&f)).unwrap_or(0),
                                    2 => m.1 = a.ok(text(&f)).unwrap_or_default(),
                                    3 => m.2 = a.ok(text(&f)).unwrap_or_default(),
                                    _ => {}
                                }
                            }
                        }
                        q.matchers.push(m);
                    }
                    4 => {
                        a.ok::<()>(Err(Bad::Unclear));
                    }
                    _ => {}
                }
            }
        }
        o.push(q);
    }
    a.end(o)
}

/// The results of a read, one answer per query.
pub fn de_response(body: &[u8]) -> Result<Vec<Answer>, String> {
    let p = snap::raw::Decoder::new().decompress_vec(body).map_err(|e| format!("the answer is not snappy: {}", e))?;
    let bad = |b: Bad| format!("the answer is not a ReadResponse ({:?})", b);
    let mut out = vec![];
    for (n, f) in fields(&p).map_err(bad)? {
        if n != 1 {
            return Err(format!("field {} in the answer", n));
        }
        let mut a = Answer::new();
        for (n, f) in fields(sub(&f).map_err(bad)?).map_err(bad)? {
            if n != 1 {
                return Err(format!("field {} in a result of the answer", n));
            }
            let s = de_series(sub(&f).map_err(bad)?).map_err(bad)?;
            let k: Set = s.labels.iter().cloned().collect();
            if k.len() != s.labels.len() {
                return Err(format!("a label occurs twice in {:?}", s.labels));
            }
            if a.insert(k, s.samples.iter().map(|(t, v)| (*t as u64, *v)).collect()).is_some() {
                return Err(format!("series {:?} occurs twice in one result", s.labels));
            }
        }
        out.push(a);
    }
    Ok(out)
}

// ---- HTTP ----

pub struct Resp {
    pub status: u32,
    pub body: Vec<u8>,
}

pub fn connect(port: u16) -> Result<TcpStream, String> {
    for k in 0.. {
        match TcpStream::connect(("127.0.0.1", port)) {
            Ok(c) => {
                c.set_nodelay(true).unwrap();
                c.set_read_timeout(Some(Duration::from_secs(30))).unwrap();
                c.set_write_timeout(Some(Duration::from_secs(30))).unwrap();
                return Ok(c);
            }
            // out of client ports, which is not the server's doing
            Err(e) if e.kind() == std::io::ErrorKind::AddrNotAvailable && k < 300 => std::thread::sleep(Duration::from_millis(200)),
            Err(e) => return Err(format!("the server does not take connections: {}", e)),
        }
    }
    unreachable!()
}

pub fn frame(method: &str, path: &str, headers: &[&str], body: &[u8]) -> Vec<u8> {
    let mut o = format!("{} {} HTTP/1.1\r\nHost: x\r\nContent-Type: application/x-protobuf\r\nContent-Encoding: snappy\r\n", method, path);
    for h in headers {
        o += h;
        o += "\r\n";
    }
    if !headers.iter().any(|h| h.starts_with("Transfer-Encoding") || h.starts_with("Content-Length")) {
        o += &format!("Content-Length: {}\r\n", body.len());
    }
    o += "\r\n";
    let mut o = o.into_bytes();
    o.extend_from_slice(body);
    o
}

fn fill(c: &mut TcpStream, buf: &mut Vec<u8>) -> Result<(), String> {
    let mut t = [0u8; 16384];
    match c.read(&mut t) {
        Ok(0) => Err("the connection was closed without an answer".into()),
        Ok(n) => {
            buf.extend_from_slice(&t[..n]);
            Ok(())
        }
        Err(e) => Err(format!("no answer: {}", e)),
    }
}

/// Reads one answer. `head`: to a HEAD request.
pub fn response(c: &mut TcpStream, head: bool) -> Result<Resp, String> {
    let mut buf = vec![];
    loop {
        let end = loop {
            if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break p + 4;
            }
            fill(c, &mut buf)?;
        };
        let top = String::from_utf8_lossy(&buf[..end]).to_string();
        buf.drain(..end);
        let mut lines = top.split("\r\n");
        let status: u32 = lines.next().and_then(|l| l.split(' ').nth(1)).and_then(|s| s.parse().ok()).ok_or("the answer is not HTTP")?;
        if status == 100 {
            continue;
        }
        let hs: BTreeMap<String, String> = lines.filter_map(|l| l.split_once(':')).map(|(a, b)| (a.trim().to_lowercase(), b.trim().to_string())).collect();
        let mut body = vec![];
        if head || status == 204 || status == 304 {
        } else if hs.get("transfer-encoding").map_or(false, |v| v.contains("chunked")) {
            loop {
                let p = loop {
                    if let Some(p) = buf.windows(2).position(|w| w == b"\r\n") {
                        break p;
                    }
                    fill(c, &mut buf)?;
                };
                let n = usize::from_str_radix(String::from_utf8_lossy(&buf[..p]).trim(), 16).map_err(|_| "bad chunk in the answer")?;
                while buf.len() < p + 2 + n + 2 {
                    fill(c, &mut buf)?;
                }
                body.extend_from_slice(&buf[p + 2..p + 2 + n]);
                buf.drain(..p + 2 + n + 2);
                if n == 0 {
                    break;
                }
            }
        } else {
            let n: usize = hs.get("content-length").and_then(|v| v.parse().ok()).ok_or("the answer does not say how long it is")?;
            while buf.len() < n {
                fill(c, &mut buf)?;
            }
            body = buf.drain(..n).collect();
        }
        if !buf.is_empty() {
            return Err(format!("{} bytes follow the answer", buf.len()));
        }
        return Ok(Resp { status, body });
    }
}

pub fn send(c: &mut TcpStream, b: &[u8], half_close: bool) -> Result<(), String> {
    c.write_all(b).map_err(|e| format!("the server does not take the request: {}", e))?;
    if half_close {
        let _ = c.shutdown(Shutdown::Write);
    }
    Ok(())
}
