use crate::ctx::*;
use crate::refs::*;
use lunatic::net::{TcpListener, TcpStream};
use lunatic::stub;
use puck::body::Body;
use puck::core::router::match_url::{any_integer, anything, path, Match};
use puck::core::router::{Route, Router};
use puck::core::{Core, Stream, UsedStream};
use puck::request::Method;
use puck::response::encoder::Encoder;
use puck::{Request, Response};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufReader, Cursor, Read, Write};
use url::Url;

pub fn e<T: std::fmt::Debug>(what: &str) -> impl FnOnce(T) -> String + '_ {
    move |x| format!("{}: {:?}", what, x)
}
/// A reader handing out `data` in the given chunk sizes.
pub struct Chunked {
    pub data: Vec<u8>,
    pub pos: usize,
    pub chunks: Vec<usize>,
    pub k: usize,
    pub fail: bool,
}
impl Read for Chunked {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let left = self.data.len() - self.pos;
        if left == 0 || b.is_empty() {
            if left == 0 && self.fail && !b.is_empty() {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "fault"));
            }
            return Ok(0);
        }
        let mut n = left.min(b.len());
        if !self.chunks.is_empty() {
            n = n.min(self.chunks[self.k % self.chunks.len()].max(1));
            self.k += 1;
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub fn chunked(data: &[u8], chunks: &[usize]) -> Chunked {
    Chunked { data: data.to_vec(), pos: 0, chunks: chunks.to_vec(), k: 0, fail: false }
}
pub const TOKEN: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~";
pub fn header_name(r: &mut Rng, i: usize) -> String {
    if i == 0 {
        if let Some(s) = r.dict_str(1, 3, |c| TOKEN.contains(c)) {
            let l = s.to_ascii_lowercase();
            let meant = ["", "host", "content-length", "content-type", "upgrade", "connection", "transfer-encoding"].contains(&l.as_str());
            // none of the names made up below
            let body = l.trim_start_matches("x-").trim_start_matches(|c: char| c.is_ascii_lowercase() || c == '-');
            let made = body.starts_with(|c: char| c.is_ascii_digit());
            if !meant && !made && !l.starts_with("sec-websocket") && !NEAR.iter().any(|n| n.eq_ignore_ascii_case(s)) {
                return if r.bool() { flip_case(r, s) } else { s.to_string() };
            }
        }
    }
    match r.below(4) {
        0 => format!("X-{}-{}", i, r.text("abcXYZ09", 0, 5)),
        1 => format!("h{}.{}", i, r.text(TOKEN, 0, 8)),
        2 => format!("{}{}q", r.text("AbC", 1, 4), i),
        _ => r.pick(&["Accept", "User-Agent", "Cookie", "Origin", "X-Type"]).to_string() + &i.to_string(),
    }
}
pub fn header_value(r: &mut Rng) -> String {
    if r.chance(1, 200) {
        let n = r.range(300, 9000);
        return r.text(TOKEN, n, n);
    }
    if let Some(n) = r.dict_num(1, 12).filter(|n| *n < 70_000) {
        return r.text(TOKEN, n, n);
    }
    match r.below(5) {
        0 => String::new(),
        1 => r.text("abc: ;=,/\"\t\\'", 0, 12).trim().to_string(),
        2 => r.text("aé€z", 1, 6),
        3 => r.text("0123456789", 1, 4),
        _ => r.text(TOKEN, 1, 30),
    }
}
fn flip_case(r: &mut Rng, s: &str) -> String {
    s.chars()
        .map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
        .collect()
}

// ---------------------------------------------------------------- C08 body
fn read_odd(mut b: Body, sizes: &[usize]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let mut k = 0;
    let mut zeros = 0;
    loop {
        let n = sizes[k % sizes.len()];
        k += 1;
        let mut buf = vec![0xEEu8; n];
        let got = b.read(&mut buf).map_err(e("read"))?;
        ensure(got <= n, || format!("read returned {} for a buffer of {}", got, n))?;
        ensure(buf[got..].iter().all(|&x| x == 0xEE), || "bytes beyond the returned count were written".into())?;
        out.extend_from_slice(&buf[..got]);
        if got == 0 && n > 0 {
            zeros += 1;
            if zeros > 2 {
                return Ok(out);
            }
        } else if n > 0 && zeros > 0 {
            return Err("data after the end was reported".into());
        }
        if k > 3_000_000 {
            return Err("no end".into());
        }
    }
}
pub fn c08(c: &mut Ctx) {
    c.family("from_reader", 3000, |case, r, i| {
        let n = match r.below(6) {
            0 => 0,
            1 => r.range(1, 5),
            2 => r.range(1020, 1030),
            3 => r.range(8190, 8200),
            _ => r.size(0, 299),
        };
        let data = r.bytes(n);
        let len = match r.below(6) {
            0 => None,
            1 => Some(n),
            2 => Some(0),
            3 => Some(r.below(n + 1)),
            4 => Some(n + r.below(50)),
            _ => Some(*r.pick(&[usize::MAX, 1 << 40, usize::MAX - 1, 1 << 33])),
        };
        let ch = r.chunks();
        let bufcap = *r.pick(&[1usize, 3, 16, 1000, 10000]);
        let mode = i % 3;
        case.input(format!("data={} length={:?} chunks={:?} bufcap={} mode={} hex={}", show(&data), len, ch, bufcap, mode, hex(&data)));
        let want = &data[..len.unwrap_or(n).min(n)];
        let b = Body::from_reader(BufReader::with_capacity(bufcap, chunked(&data, &ch)), len);
        let got = match mode {
            0 => b.into_bytes().map_err(e("into_bytes"))?,
            1 => {
                let s: Vec<usize> = (0..r.range(1, 4)).map(|_| r.range(0, 20)).collect();
                let s = if s.iter().all(|x| *x == 0) { vec![1] } else { s };
                read_odd(b, &s)?
            }
            _ => match (b.into_string(), std::str::from_utf8(want)) {
                (Ok(s), Ok(w)) => {
                    ensure(s == w, || "string differs".into())?;
                    s.into_bytes()
                }
                (Err(_), Err(_)) => return Ok(()),
                (g, w) => return Err(format!("into_string gave {:?}, utf8 check gives {:?}", g.map(|x| x.len()), w.map(|x| x.len()))),
            },
        };
        ensure(got == want, || format!("body delivered {} instead of {}", show(&got), show(want)))
    });
    // more than any buffer holds, in one call and in many
    c.enumerate("large", 24, |case, r, i| {
        let n = [65535usize, 65536, 65537, 131072, 200_000, 1 << 20, 70_000, 17 << 20][i as usize % 8];
        let data = r.bytes(n);
        let len = match i / 8 {
            0 => None,
            1 => Some(n),
            _ => Some(n - r.range(0, 9)),
        };
        case.input(format!("data={} length={:?} hex={}", show(&data), len, hex(&data)));
        let want = &data[..len.unwrap_or(n)];
        let mut b = Body::from_reader(BufReader::with_capacity(*r.pick(&[10usize, 8192, 300_000]), Cursor::new(data.clone())), len);
        if i % 3 == 0 {
            let got = b.into_bytes().map_err(e("into_bytes"))?;
            return ensure(got == want, || format!("body delivered {} instead of {}", show(&got), show(want)));
        }
        let k = *r.pick(&[65536usize, 65537, 100_000, 250_000, 1 << 20]);
        let mut buf = vec![0u8; k];
        let mut got = vec![];
        loop {
            let m = b.read(&mut buf).map_err(e("read"))?;
            if m == 0 {
                break;
            }
            got.extend_from_slice(&buf[..m]);
        }
        ensure(got == want, || format!("body delivered {} instead of {} (reads of {} bytes)", show(&got), show(want), k))
    });
    c.family("text", 400, |case, r, i| {
        let mut s = r.text("aé€𐍈 \r\n\u{0}", 0, 40);
        if r.chance(1, 20) {
            let n = r.dict_len().unwrap_or(*r.pick(&[8191, 8192, 65535, 65536, 65537, 131071]));
            s = "b".repeat(n);
        }
        if r.chance(1, 10) {
            s.insert(r.pick(&[0, s.len()]).clone(), '\u{feff}');
        }
        case.input(format!("{:?} mode {}", s, i % 5));
        let b = match i % 5 {
            0 => Body::from(s.clone()),
            1 => Body::from(s.as_str()),
            2 => Body::from_string(&s),
            3 => {
                let x = r.next();
                let b = Body::from_string(x).into_string().map_err(e("into_string"))?;
                return ensure(b == x.to_string(), || format!("{} from {}", b, x));
            }
            _ => Body::from_reader(Cursor::new(s.clone().into_bytes()), Some(s.len())),
        };
        if r.bool() {
            let got = b.into_string().map_err(e("into_string"))?;
            ensure(got == s, || format!("{:?}", got))
        } else {
            let got = b.into_bytes().map_err(e("into_bytes"))?;
            ensure(got == s.as_bytes(), || format!("{:?}", got))
        }
    });
    c.enumerate("empty", 2, |case, _, i| {
        case.input(format!("Body::empty {}", i));
        let b = Body::empty();
        let got = if i == 0 { b.into_bytes().map_err(e("into_bytes"))? } else { b.into_string().map_err(e("into_string"))?.into_bytes() };
        ensure(got.is_empty(), || show(&got))
    });
    c.enumerate("read-fault", 30, |case, r, i| {
        let n = r.size(0, 39);
        let data = r.bytes(n);
        case.input(format!("reader fails after {} bytes, length {}", n, if i % 2 == 0 { "none" } else { "larger" }));
        let mut ck = chunked(&data, &[]);
        ck.fail = true;
        let b = Body::from_reader(BufReader::new(ck), if i % 2 == 0 { None } else { Some(n + 5) });
        ensure(b.into_bytes().is_err(), || "an io error was swallowed".into())
    });
}

// ---------------------------------------------------------------- C09 request parsing
struct Req {
    text: Vec<u8>,
    method: String,
    headers: Vec<(String, String)>,
    url: String,
    body: Vec<u8>,
}
const PATHC: &str = "abcXYZ019-_.~";
fn target(r: &mut Rng) -> String {
    let k = r.below(4);
    let mut s = String::from("/");
    for j in 0..k {
        if j > 0 {
            s.push('/');
        }
        s.push_str(&r.text(PATHC, 1, 8));
        if s.ends_with("/.") || s.ends_with("/..") {
            s.push('a');
        }
    }
    if r.chance(1, 3) {
        s.push('?');
        s.push_str(&r.text("abc019=&-_", 0, 12));
    }
    s
}
/// header names which are nearly those that mean something
const NEAR: &[&str] = &["X-Forwarded-Host", "Hostname", "X-Host", "Host-", "Forwarded", "X-Content-Length", "Content-Length-X", "Content-Lengt", "ContentLength", "Content_Length", "Transfer-Encoding", "Connection", "Expect", "Range", "Upgrade"];
/// a header line: white space may surround the value
fn line(r: &mut Rng, k: &str, v: &str) -> String {
    let pre = *r.pick(&[" ", " ", " ", " ", " ", "", "  ", "\t", " \t "]);
    let post = if v.is_empty() { "" } else { *r.pick(&["", "", "", "", "", "", " ", "\t", " \t "]) };
    format!("{}:{}{}{}\r\n", k, pre, v, post)
}
/// a target which only reads like something else
fn odd_target(r: &mut Rng) -> String {
    r.pick(&["/a#", "/#", "/a#b", "/r?u=http://x/", "/http://x/y", "/https://x", "/a?b?c", "/?", "/a;b=c", "/a@b", "/a:80/", "/%2F", "/%41%zz", "/a//b", "/..", "/./a", "/a\\b", "/[x]", "/a|b^c`d{e}", "/'\"", "/HTTP/1.1", "/?x=a%20b+c", "//x/y", "//x", "/a:b", "/?", "/a?", "/a??", "///x"]).to_string()
}
fn gen_request(r: &mut Rng) -> Req {
    let method = match r.below(6) {
        0 | 1 => "GET".to_string(),
        2 => "POST".to_string(),
        3 => "HEAD".to_string(),
        4 => r.pick(&["PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "get", "gEt", "pOST", "subscribe", "Checkout", "version-Control", "put", "Heads"]).to_string(),
        _ => r.dict_str(1, 2, |c| TOKEN.contains(c)).map_or_else(|| String::new(), |s| s.to_string()),
    };
    let method = if method.is_empty() { r.text("ABCDEFXYZ-", 1, 10) } else { method };
    let host = match r.below(4) {
        0 => "example.com".to_string(),
        1 => format!("localhost:{}", r.range(1, 65535)),
        2 => format!("{}.org", r.text("abcxyz09", 1, 10)),
        _ => "127.0.0.1:8080".to_string(),
    };
    let t = if r.chance(1, 6) { odd_target(r) } else { target(r) };
    let (tgt, url) = match r.below(6) {
        0 => {
            let s = if r.bool() { "http" } else { "https" };
            let u = format!("{}://abs.example{}", s, t);
            (u.clone(), u)
        }
        _ => (t.clone(), format!("http://{}{}", host, t)),
    };
    // 20 at most, with the host and a length
    let n = r.below(6) + if r.chance(1, 20) { 12 } else { 0 } + if r.chance(1, 40) { 1 } else { 0 };
    let mut headers: Vec<(String, String)> = (0..n).map(|i| (header_name(r, i), header_value(r))).collect();
    if r.chance(1, 4) {
        headers.truncate(17);
        let v = match r.below(4) {
            0 => "other.example".to_string(),
            1 => "3".into(),
            2 => "chunked".into(),
            _ => header_value(r),
        };
        headers.push((r.pick(NEAR).to_string(), v));
    }
    let hn = flip_case(r, "host");
    let at = r.below(headers.len() + 1);
    headers.insert(at, (hn, host));
    let blen = match r.below(4) {
        0 => 0,
        1 if r.chance(1, 20) => r.range(65530, 70000),
        1 => r.range(10000, 12000),
        _ => r.size(0, 199),
    };
    let body = r.bytes(blen);
    let mut sent = body.clone();
    let mut want = body.clone();
    match r.below(4) {
        0 => {} // no length: everything up to the end
        1 => {
            let l = r.below(body.len() + 1);
            want.truncate(l);
            headers.push((flip_case(r, "content-length"), l.to_string()));
        }
        2 => {
            headers.push((flip_case(r, "content-length"), (body.len() + r.below(30)).to_string()));
        }
        _ => {
            headers.push((flip_case(r, "Content-Length"), body.len().to_string()));
            let x = r.below(40);
            sent.extend(r.bytes(x));
        }
    }
    let mut text = format!("{} {} HTTP/1.{}\r\n", method, tgt, if r.chance(1, 10) { 0 } else { 1 });
    for (k, v) in &headers {
        text.push_str(&line(r, k, v));
    }
    text.push_str("\r\n");
    let mut text = text.into_bytes();
    text.extend(sent);
    Req { text, method, headers, url, body: want }
}
fn method_is(m: &Method, s: &str) -> bool {
    let l = s.to_ascii_lowercase();
    match m {
        Method::Get => l == "get",
        Method::Post => l == "post",
        Method::Head => l == "head",
        Method::OtherMethod(x) => x == s && !["get", "post", "head"].contains(&l.as_str()),
    }
}
fn headers_are(got: &std::collections::HashMap<String, String>, want: &[(String, String)]) -> Result<(), String> {
    let g: BTreeMap<_, _> = got.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    let w: BTreeMap<_, _> = want.iter().cloned().collect();
    ensure(g == w, || format!("headers {:?} instead of {:?}", g, w))
}
pub fn c09(c: &mut Ctx) {
    let parse = |text: &[u8], ch: &[usize]| Request::parse(chunked(text, ch));
    c.family("not-utf8", 200, |case, r, _| {
        let bad: &[&[u8]] = &[b"\xff\xfe", b"\x80", b"a\xc3", b"\xe2\x82", b"\xed\xa0\x80 x", b"ok\xf8ok"];
        let n = r.range(1, 6);
        let at = r.below(n);
        let mut t = b"GET / HTTP/1.1\r\nHost: h\r\n".to_vec();
        for k in 0..n {
            t.extend(format!("H{}: ", k).as_bytes());
            if k == at { t.extend(*r.pick(bad)) } else { t.extend(b"v") }
            t.extend(b"\r\n");
        }
        t.extend(b"\r\n");
        let ch = r.chunks();
        case.input(format!("head={} chunks={:?} hex={}", show(&t), ch, hex(&t)));
        let g = parse(&t, &ch);
        ensure(g.is_err(), || format!("a header value which is not UTF-8 was accepted: {:?}", g))
    });
    c.family("well-formed", 2500, |case, r, _| {
        let q = gen_request(r);
        let ch = r.chunks();
        case.input(format!("request={} chunks={:?} hex={}", show(&q.text), ch, hex(&q.text)));
        let mut got = Request::parse(chunked(&q.text, &ch)).map_err(e("rejected"))?.ok_or("no request")?;
        ensure(method_is(got.method(), &q.method), || format!("method {:?} for {}", got.method(), q.method))?;
        headers_are(got.headers(), &q.headers)?;
        let u = Url::parse(&q.url).map_err(e("oracle url"))?;
        ensure(*got.url() == u, || format!("url {} instead of {}", got.url(), u))?;
        let b = got.take_body().into_bytes().map_err(e("body"))?;
        ensure(b == q.body, || format!("body {} instead of {}", show(&b), show(&q.body)))
    });
    c.family("repeated-header", 200, |case, r, _| {
        let n = r.range(2, 8);
        let names = ["A", "X-Y", "a", "Via"];
        let hs: Vec<(String, String)> = (0..n).map(|i| (names[r.below(4)].to_string(), if r.chance(1, 6) { String::new() } else { i.to_string() })).collect();
        let mut t = String::from("GET / HTTP/1.1\r\nHost: a.b\r\n");
        for (k, v) in &hs {
            t.push_str(&line(r, k, v));
        }
        t.push_str("\r\n");
        let ch = r.chunks();
        case.input(format!("request={:?} chunks={:?}", t, ch));
        let got = Request::parse(chunked(t.as_bytes(), &ch)).map_err(e("rejected"))?.ok_or("none")?;
        let want: BTreeMap<String, String> = hs.into_iter().collect();
        for (k, v) in &want {
            ensure(got.headers().get(k) == Some(v), || format!("{} is {:?} instead of its last value {:?}", k, got.headers().get(k), v))?;
        }
        Ok(())
    });
    c.family("same-connection", 300, |case, r, _| {
        let q = gen_request(r);
        let ch = r.chunks();
        case.input(format!("request={} over a connection, chunks={:?} hex={}", show(&q.text), ch, hex(&q.text)));
        let s = TcpStream::script(&q.text, &ch);
        let mut got = Request::parse(s).map_err(e("rejected"))?.ok_or("no request")?;
        let b = got.take_body().into_string();
        match (b, String::from_utf8(q.body.clone())) {
            (Ok(a), Ok(b)) => ensure(a == b, || "body text differs".into()),
            (Err(_), Err(_)) => Ok(()),
            (a, _) => Err(format!("into_string {:?}", a.is_ok())),
        }
    });
    c.family("truncated-head", 700, |case, r, _| {
        let q = gen_request(r);
        let head = q.text.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
        let cut = r.below(head);
        let ch = r.chunks();
        let t = &q.text[..cut];
        case.input(format!("truncated request={} chunks={:?} hex={}", show(t), ch, hex(t)));
        match Request::parse(chunked(t, &ch)) {
            Ok(None) => Ok(()),
            x => Err(format!("an incomplete head gave {:?} instead of no request", x)),
        }
    });
    // only an empty line ends the head
    c.enumerate("other-line-ends", 13, |case, _, i| {
        let t = ["GET / HTTP/1.1\nHost: h\n\n", "GET / HTTP/1.1\r\nHost: h\n\n", "GET / HTTP/1.1\r\nHost: h\r\r", "GET / HTTP/1.1\r\nHost: h\n\r\n", "GET / HTTP/1.1\r\nHost: h\r\n\n", "GET / HTTP/1.1\r\nHost: h\r\n\r", "\n\n", "GET / HTTP/1.1\r\nHost: h\r\n \r\n", "GET / HTTP/1.1\r\nHost: h\r\n\n\n", "GET / HTTP/1.1\nHost: h\n\n\n\n", "GET / HTTP/1.1\r\nHost: h\r\n\n\r", "GET / HTTP/1.1\r\nHost: h\n\n\r\n", "GET / HTTP/1.1\r\nHost: h\r\n\r\r"][i as usize];
        case.input(format!("{:?}", t));
        let g = parse(t.as_bytes(), &[]);
        ensure(matches!(g, Ok(None)), || format!("{:?} instead of no request", g))
    });
    c.enumerate("long", 6, |case, r, i| {
        let n = [9000usize, 65536, 70000, 300_000, 65000, 10001][i as usize];
        let v = r.text(TOKEN, n, n + 1);
        let (t, url) = if i % 2 == 0 { (format!("GET /x HTTP/1.1\r\nHost: h\r\nA: {}\r\n\r\nbody", v), "http://h/x".to_string()) } else { (format!("GET /{0} HTTP/1.1\r\nHost: h\r\nA: x\r\n\r\nbody", v.replace('%', "")), format!("http://h/{}", v.replace('%', ""))) };
        let ch = r.chunks();
        case.input(format!("{} of {} bytes, chunks {:?}: {}", if i % 2 == 0 { "header" } else { "target" }, n, ch, t));
        let mut q = parse(t.as_bytes(), &ch).map_err(e("rejected"))?.ok_or("none")?;
        ensure(*q.url() == Url::parse(&url).unwrap(), || format!("url {}", clip(&q.url().to_string(), 80)))?;
        headers_are(q.headers(), &[("Host".into(), "h".into()), ("A".into(), if i % 2 == 0 { v.clone() } else { "x".into() })])?;
        ensure(q.take_body().into_bytes().map_err(e("body"))? == b"body", || "body differs".into())
    });
    c.enumerate("big-body", 2, |case, r, i| {
        let n = 17 << 20;
        let body = r.bytes(n);
        let mut t = format!("POST / HTTP/1.1\r\nHost: h\r\n{}\r\n", if i == 0 { format!("Content-Length: {}\r\n", n) } else { String::new() }).into_bytes();
        t.extend(&body);
        case.input(format!("a body of {} bytes {}", n, if i == 0 { "with Content-Length" } else { "up to the end" }));
        let b = parse(&t, &[]).map_err(e("rejected"))?.ok_or("none")?.take_body().into_bytes().map_err(e("body"))?;
        ensure(b == body, || format!("body {} instead of {}", show(&b), show(&body)))
    });
    c.enumerate("io-fault", 60, |case, r, _| {
        let q = gen_request(r);
        let head = q.text.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
        let cut = r.below(head);
        case.input(format!("stream fails after {}", show(&q.text[..cut])));
        let mut ck = chunked(&q.text[..cut], &[]);
        ck.fail = true;
        ensure(Request::parse(ck).is_err(), || "an io error was not reported".into())
    });
    c.enumerate("missing-host", 40, |case, r, i| {
        let t = format!("GET /{} HTTP/1.1\r\n{}\r\n", r.text(PATHC, 0, 5), if i % 2 == 0 { "Accept: x\r\n" } else { "" });
        case.input(t.clone());
        ensure(Request::parse(chunked(t.as_bytes(), &[])).is_err(), || "accepted without a Host header".into())
    });
    c.enumerate("bad-target", 60, |case, r, i| {
        let near = ["http:/x", "https:/x", "http:x", "https:", "http:", "ftp://a/x", "httpx://a/", "x/y", "http://", "https://:80/", "http://[::1", "http:///", "*", "a:80", "h/ttp://a.b/", "?q=/", "//"];
        let target = if i < 17 { near[i as usize].to_string() } else { r.text("abc*", 1, 6) };
        if target == "//" || target == "http:///" { return Ok(()); }
        let m = ["GET", "CONNEC", "CONNECTX", "POST", "HEAD", "OPTIONS"][(i % 6) as usize];
        let t = format!("{} {} HTTP/1.1\r\nHost: a.b\r\n\r\n", m, target);
        case.input(t.clone());
        ensure(Request::parse(chunked(t.as_bytes(), &[])).is_err(), || "accepted a target that is neither a path nor an absolute URL".into())
    });
    c.enumerate("connect", 20, |case, r, i| {
        let h = format!("h{}.example:44{}", i, r.range(0, 9));
        let t = format!("{} {} HTTP/1.1\r\nHost: {}\r\n\r\n", if i % 2 == 0 { "CONNECT" } else { "connect" }, h, h);
        case.input(t.clone());
        let q = Request::parse(chunked(t.as_bytes(), &[])).map_err(e("rejected"))?.ok_or("none")?;
        let u = Url::parse(&format!("http://{}/", h)).unwrap();
        ensure(*q.url() == u, || format!("{} for {}", q.url(), u))
    });
    c.enumerate("non-numeric-length", 20, |case, r, i| {
        let v = ["abc", "-1", "1x", "", "99999999999999999999999999", "5, 5", "3,4", "3 4", "0x4", "2;q=1"][i as usize % 10];
        let n = r.below(30);
        let body = r.bytes(n);
        let mut t = format!("POST / HTTP/1.1\r\nHost: a.b\r\nContent-Length: {}\r\n\r\n", v).into_bytes();
        t.extend(&body);
        case.input(show(&t));
        let mut q = Request::parse(chunked(&t, &[])).map_err(e("rejected"))?.ok_or("none")?;
        let b = q.take_body().into_bytes().map_err(e("body"))?;
        ensure(b == body, || "a length that is no number must not bound the body".into())
    });
    c.enumerate("empty", 2, |case, _, i| {
        case.input("empty stream".into());
        let r = if i == 0 { Request::parse(chunked(b"", &[])) } else { Request::parse(TcpStream::script(b"", &[])) };
        ensure(matches!(r, Ok(None)), || format!("{:?}", r))
    });
    c.enumerate("garbage-head", 60, |case, r, i| {
        let heads = ["GET / HTTP/9.1\r\nHost: a\r\n\r\n", "GET /\r\nHost: a\r\n\r\n", "GET / HTTP/1.1\r\nHo st: a\r\n\r\n", "\r\n\r\n", "GET / HTTP/1.1\r\nHost a\r\n\r\n", "G@T / HTTP/1.1\r\nHost: a\r\n\r\n", "GET / HTTP/1.1\r\nHost: a\x01b\r\n\r\n"];
        let t = if i < 7 { heads[i as usize].to_string() } else { format!("GET / HTTP/1.1\r\nHost: a{}\r\n{}\r\n\r\n", i, (0..21).map(|k| format!("h{}: {}", k, r.below(9))).collect::<Vec<_>>().join("\r\n")) };
        case.input(t.clone());
        ensure(Request::parse(chunked(t.as_bytes(), &[])).is_err(), || "a malformed head was accepted".into())
    });
}

// ---------------------------------------------------------------- C10 request writing
pub fn c10(c: &mut Ctx) {
    c.family("round-trip", 2000, |case, r, i| {
        let m = match r.below(5) {
            0 => Method::Get,
            1 => Method::Post,
            2 => Method::Head,
            _ => {
                let s = r.dict_str(1, 3, |c| TOKEN.contains(c)).unwrap_or("PUT");
                let s = if ["get", "post", "head", ""].contains(&s.to_ascii_lowercase().as_str()) { "PUT" } else { s };
                Method::OtherMethod(r.pick(&[s, "DELETE", "PATCH", "X-Y", "OPTIONS", "put", "Purge", "m-SEARCH", "GETS", "geT2", "~"]).to_string())
            }
        };
        let host = r.pick(&["example.com", "a.org:81", "127.0.0.1:9"]).to_string();
        let t = if r.chance(1, 6) { odd_target(r).replace('#', "") } else { target(r) };
        // what stands behind '#' is not sent
        let fragment = if r.chance(1, 6) { *r.pick(&["#", "#top", "#a/b?c", "#?x=1"]) } else { "" };
        let url = format!("http://{}{}{}", host, t, fragment);
        let n = if r.chance(1, 10) { r.range(8, 18) } else { r.below(5) };
        let mut hs: Vec<(String, String)> = (0..n).map(|i| (header_name(r, i), header_value(r))).collect();
        // without one it is written all the same, but not parsed
        let hosted = !r.chance(1, 6);
        if hosted {
            hs.push(("Host".into(), host.clone()));
        }
        let s = if r.chance(1, 60) { r.text("ab", 66000, 70000) } else { r.text("aé€ z\r\n", 0, 40) };
        let cl = r.bool();
        if cl {
            hs.push(("Content-Length".into(), s.len().to_string()));
        }
        case.input(format!("{:?} {} {:?} body={:?}", m, url, hs, s));
        let mut q = match i % 2 {
            0 => Request::build(&url),
            _ => Request::try_build(&url).map_err(e("try_build"))?,
        }
        .method(m.clone())
        .headers(hs.clone())
        .body(s.clone())
        .build();
        let mut out = vec![];
        q.write(&mut out).map_err(e("write"))?;
        // shape of the head
        let (head, body) = split_head(&out).ok_or("no blank line")?;
        let (first, fields) = parse_head(&head).ok_or_else(|| format!("head {:?}", head))?;
        let mut u = Url::parse(&url).unwrap();
        u.set_fragment(None);
        let mut tgt = u.path().to_string();
        if let Some(qs) = u.query() {
            tgt.push('?');
            tgt.push_str(qs);
        }
        let name = match &m {
            Method::Get => "GET",
            Method::Post => "POST",
            Method::Head => "HEAD",
            Method::OtherMethod(s) => s,
        };
        let want = format!("{} {} HTTP/1.1", name, tgt);
        ensure(first == want, || format!("request line {:?} instead of {:?}", first, want))?;
        let mut f2 = fields.clone();
        f2.sort();
        let mut h2 = hs.clone();
        h2.sort();
        ensure(f2 == h2, || format!("fields {:?} instead of {:?}", f2, h2))?;
        ensure(body == s.as_bytes(), || format!("body {} for {:?}", show(&body), s))?;
        let ch = r.chunks();
        if !hosted {
            return ensure(Request::parse(chunked(&out, &ch)).is_err(), || "a request without Host was accepted".into());
        }
        let mut p = Request::parse(chunked(&out, &ch)).map_err(e("own request rejected"))?.ok_or("none")?;
        ensure(*p.method() == m, || format!("method {:?} came back as {:?}", m, p.method()))?;
        ensure(*p.url() == u, || format!("url {} came back as {}", u, p.url()))?;
        headers_are(p.headers(), &hs)?;
        let b = p.take_body().into_bytes().map_err(e("body"))?;
        ensure(b == s.as_bytes(), || "body changed".into())?;
        // the body has been used up by writing
        let left = q.take_body().into_bytes().map_err(e("left"))?;
        ensure(left.is_empty(), || "body still there after write".into())
    });
    c.enumerate("write-fault", 8 * 80, |case, _, i| {
        let once = i % 2 == 1;
        let i = i / 2;
        let kind = [std::io::ErrorKind::Other, std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::ConnectionReset, std::io::ErrorKind::TimedOut][i as usize % 4];
        struct F(usize, std::io::ErrorKind, bool);
        impl Write for F {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                if self.0 == 0 {
                    if self.2 {
                        self.0 = usize::MAX;
                    }
                    return Err(std::io::Error::new(self.1, "x"));
                }
                let n = b.len().min(self.0);
                self.0 -= n;
                Ok(n)
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        let mk = || Request::build("http://a.b/c?d=e").method([Method::Get, Method::Post, Method::Head][i as usize % 3].clone()).header("Host", "a.b").body("0123456789").build();
        let mut all = vec![];
        mk().write(&mut all).map_err(e("write"))?;
        let k = i as usize / 4;
        case.input(format!("writer fails {}({:?}) after {} of {} bytes", if once { "once " } else { "" }, kind, k, all.len()));
        if k < all.len() {
            ensure(mk().write(&mut F(k, kind, once)).is_err(), || "write error swallowed".into())?;
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C07 / C11 responses
fn gen_response(r: &mut Rng) -> (u16, String, Vec<(String, String)>, Vec<u8>) {
    let st = match r.below(4) {
        0 => 200,
        1 => *r.pick(&[100, 101, 204, 404, 400, 500, 999]),
        _ => r.range(100, 999) as u16,
    };
    let reason = r.text("abc XYZ-;:,.()'/=+0", 0, 12).trim().to_string();
    let n = r.below(8);
    let hs = (0..n).map(|i| (header_name(r, i), header_value(r))).collect();
    let b = match r.below(4) {
        0 => vec![],
        1 => {
            let n = r.range(5000, 20000);
            r.bytes(n)
        }
        _ => {
            let n = r.size(0, 99);
            r.bytes(n)
        }
    };
    (st, reason, hs, b)
}
fn build(st: u16, reason: &str, hs: &[(String, String)], body: Body, i: u64) -> Response {
    let mut b = Response::build().status(st, reason).body(body);
    if i % 2 == 0 {
        for (k, v) in hs {
            b = b.header(k, v);
        }
    } else {
        b = b.headers(hs.to_vec());
    }
    b.build()
}
pub fn c07(c: &mut Ctx) {
    c.family("encode", 2500, |case, r, i| {
        let (mut st, mut reason, mut hs, body) = gen_response(r);
        // what is not sensible is written as it is, too
        if r.chance(1, 8) {
            st = *r.pick(&[0, 1, 9, 99, 1000, 65535, 304, 204, 103]);
        }
        if r.chance(1, 8) {
            reason = r.pick(&[" ", "a  b ", "\u{e9}", "x\ty"]).to_string();
        }
        for (_, v) in hs.iter_mut() {
            if r.chance(1, 10) {
                *v = r.pick(&[" ", "a ", " a", "x\t", "\u{a0}", "a  b", "a\nb", "a\r\nb: c", "\n", "a\tb", "a\u{0}b"]).to_string();
            }
        }
        if r.chance(1, 10) {
            hs.push((flip_case(r, "content-length"), "5".into()));
            hs.push((flip_case(r, "transfer-encoding"), "chunked".into()));
        }
        if r.chance(1, 30) {
            hs.extend((0..r.range(20, 60)).map(|k| (format!("m{}", k), k.to_string())));
        }
        let ch = r.chunks();
        case.input(format!("{} {:?} {:?} body={} chunks={:?}", st, reason, hs, show(&body), ch));
        let len = match r.below(4) {
            0 => None,
            1 => Some(r.below(body.len() + 1)),
            _ => Some(body.len()),
        };
        let want_body = &body[..len.unwrap_or(body.len())];
        let res = build(st, &reason, &hs, Body::from_reader(BufReader::new(chunked(&body, &ch)), len), i);
        let mut sorted = hs.clone();
        sorted.sort();
        let mut want = format!("HTTP/1.1 {} {}\r\n", st, reason).into_bytes();
        for (k, v) in &sorted {
            want.extend(format!("{}: {}\r\n", k, v).into_bytes());
        }
        want.extend(b"\r\n");
        want.extend(want_body);
        let got = match i % 3 {
            0 => {
                let mut o = vec![];
                Encoder::new(res).write_tcp_stream(&mut o).map_err(e("write"))?;
                o
            }
            1 => {
                let s = TcpStream::script(&[], &[]);
                s.conn.borrow_mut().short_writes = r.range(1, 9);
                puck::write_response(res, s.clone());
                s.output()
            }
            _ => {
                let s = TcpStream::script(&[], &[]);
                Encoder::new(res).write_tcp_stream(s.clone()).map_err(e("write"))?;
                s.output()
            }
        };
        ensure(got == want, || format!("wrote {} instead of {}", show(&got), show(&want)))
    });
    c.enumerate("errors", 2, |case, _, i| {
        case.input(format!("err page {}", i));
        let (res, code, title) = if i == 0 { (puck::err_404(), 404u16, "not found") } else { (puck::err_400(), 400, "bad request") };
        ensure(*res.status() == code && res.reason() == title, || format!("{} {}", res.status(), res.reason()))?;
        let mut o = vec![];
        Encoder::new(res).write_tcp_stream(&mut o).map_err(e("write"))?;
        let (head, body) = split_head(&o).ok_or("no head")?;
        let (first, f) = parse_head(&head).ok_or("bad head")?;
        ensure(first == format!("HTTP/1.1 {} {}", code, title), || first.clone())?;
        ensure(f == vec![("Content-Type".to_string(), "text/html;charset=utf-8".to_string())], || format!("{:?}", f))?;
        ensure(!body.is_empty(), || "empty error page".into())
    });
    c.enumerate("write-fault", 30, |case, r, i| {
        let (st, reason, hs, body) = gen_response(r);
        case.input(format!("stream refuses writes {}", i));
        let s = TcpStream::script(&[], &[]);
        s.conn.borrow_mut().write_fail = true;
        let res = build(st, &reason, &hs, Body::from_reader(Cursor::new(body), None), i);
        ensure(Encoder::new(res).write_tcp_stream(s.clone()).is_err(), || "write error swallowed".into())
    });
    c.family("cut-off", 400, |case, r, i| {
        let (st, reason, hs, body) = gen_response(r);
        let mk = || build(st, &reason, &hs, Body::from_reader(Cursor::new(body.clone()), if i % 2 == 0 { None } else { Some(body.len()) }), i);
        let mut all = vec![];
        Encoder::new(mk()).write_tcp_stream(&mut all).map_err(e("write"))?;
        let k = match r.below(3) {
            0 => all.len() - 1 - r.below(3),
            _ => r.below(all.len()),
        };
        let kind = *r.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::ConnectionReset, std::io::ErrorKind::TimedOut]);
        case.input(format!("{} {:?} {:?} body={}, writes fail ({:?}) after {} of {} bytes", st, reason, hs, show(&body), kind, k, all.len()));
        let s = TcpStream::script(&[], &[]);
        s.conn.borrow_mut().write_limit = Some(k);
        let once = r.bool();
        s.conn.borrow_mut().write_once = once;
        s.conn.borrow_mut().write_error = Some(kind);
        ensure(Encoder::new(mk()).write_tcp_stream(s.clone()).is_err(), || "write error swallowed".into())?;
        ensure(all.starts_with(&s.output()), || format!("wrote {} instead of the start of {}", show(&s.output()), show(&all)))
    });
    c.enumerate("body-fault", 40, |case, r, i| {
        let (st, reason, hs, body) = gen_response(r);
        let n = if i % 4 == 0 { 0 } else { r.below(body.len() + 1) };
        case.input(format!("{} {:?} {:?}, the body's reader fails after {} bytes, length {}", st, reason, hs, n, if i % 2 == 0 { "none" } else { "more" }));
        let mut ck = chunked(&body[..n], &[]);
        ck.fail = true;
        let res = build(st, &reason, &hs, Body::from_reader(BufReader::new(ck), if i % 2 == 0 { None } else { Some(n + 1 + r.below(9)) }), i);
        let mut o = vec![];
        ensure(Encoder::new(res).write_tcp_stream(&mut o).is_err(), || "a body which cannot be read was not reported".into())
    });
}
pub fn c11(c: &mut Ctx) {
    let parse = |text: &[u8], ch: &[usize]| Response::parse(chunked(text, ch));
    c.family("well-formed", 2000, |case, r, _| {
        let (mut st, mut reason, mut hs, body) = gen_response(r);
        if r.chance(1, 8) {
            st = *r.pick(&[0, 1, 42, 99, 204, 206, 304, 100]);
        }
        if r.chance(1, 6) {
            reason = r.pick(&["a  b", "x\ty", "O K", "\"q\"", "200 OK", "~"]).to_string();
        }
        if r.chance(1, 4) {
            hs.push((r.pick(NEAR).to_string(), r.pick(&["0", "3", "chunked", "x"]).to_string()));
        }
        if r.chance(1, 30) {
            hs.extend((hs.len()..18).map(|k| (format!("m{}", k), header_value(r))).collect::<Vec<_>>());
        }
        let mut sent = body.clone();
        let mut want = body.clone();
        match r.below(4) {
            0 => {}
            1 => {
                let l = r.below(body.len() + 1);
                want.truncate(l);
                hs.push((flip_case(r, "content-length"), l.to_string()));
            }
            2 => hs.push((flip_case(r, "content-length"), (body.len() + 7).to_string())),
            _ => {
                hs.push(("Content-Length".into(), body.len().to_string()));
                sent.extend_from_slice(b"tail");
            }
        }
        if r.chance(1, 3) {
            hs.push((flip_case(r, "content-type"), r.pick(&["text/html", "3", "12", "0"]).to_string()));
        }
        let mut t = format!("HTTP/1.{} {:03} {}\r\n", if r.chance(1, 10) { 0 } else { 1 }, st, reason);
        for (k, v) in &hs {
            t.push_str(&line(r, k, v));
        }
        t.push_str("\r\n");
        let mut t = t.into_bytes();
        t.extend(&sent);
        let ch = r.chunks();
        case.input(format!("response={} chunks={:?} hex={}", show(&t), ch, hex(&t)));
        let mut p = parse(&t, &ch).map_err(e("rejected"))?.ok_or("none")?;
        ensure(*p.status() == st, || format!("status {} for {}", p.status(), st))?;
        ensure(p.reason() == reason, || format!("reason {:?} for {:?}", p.reason(), reason))?;
        headers_are(p.headers(), &hs)?;
        let b = p.take_body().into_bytes().map_err(e("body"))?;
        ensure(b == want, || format!("body {} instead of {}", show(&b), show(&want)))
    });
    c.family("round-trip", 800, |case, r, i| {
        let (st, reason, mut hs, body) = gen_response(r);
        if r.bool() {
            hs.push(("Content-Length".into(), body.len().to_string()));
        }
        case.input(format!("{} {:?} {:?} body={}", st, reason, hs, show(&body)));
        let res = build(st, &reason, &hs, Body::from_reader(Cursor::new(body.clone()), Some(body.len())), i);
        let mut o = vec![];
        Encoder::new(res).write_tcp_stream(&mut o).map_err(e("write"))?;
        let ch = r.chunks();
        let mut p = parse(&o, &ch).map_err(e("rejected"))?.ok_or("none")?;
        ensure(*p.status() == st && p.reason() == reason, || format!("{} {}", p.status(), p.reason()))?;
        headers_are(p.headers(), &hs)?;
        let b = p.take_body().into_bytes().map_err(e("body"))?;
        ensure(b == body, || "body changed".into())
    });
    c.family("repeated-header", 200, |case, r, _| {
        let n = r.range(2, 8);
        let names = ["A", "X-Y", "a", "Via"];
        let hs: Vec<(String, String)> = (0..n).map(|i| (names[r.below(4)].to_string(), if r.chance(1, 6) { String::new() } else { i.to_string() })).collect();
        let mut t = String::from("HTTP/1.1 200 OK\r\n");
        for (k, v) in &hs {
            t.push_str(&line(r, k, v));
        }
        t.push_str("\r\n");
        let ch = r.chunks();
        case.input(format!("response={:?} chunks={:?}", t, ch));
        let got = Response::parse(chunked(t.as_bytes(), &ch)).map_err(e("rejected"))?.ok_or("none")?;
        let want: BTreeMap<String, String> = hs.into_iter().collect();
        for (k, v) in &want {
            ensure(got.headers().get(k) == Some(v), || format!("{} is {:?} instead of its last value {:?}", k, got.headers().get(k), v))?;
        }
        Ok(())
    });
    c.family("truncated-head", 400, |case, r, _| {
        let (st, reason, hs, _) = gen_response(r);
        let mut t = format!("HTTP/1.1 {} {}\r\n", st, reason);
        for (k, v) in &hs {
            t.push_str(&format!("{}: {}\r\n", k, v));
        }
        t.push_str("\r\n");
        let cut = r.below(t.len());
        let mut cut = cut;
        while !t.is_char_boundary(cut) {
            cut -= 1;
        }
        case.input(format!("truncated response {:?}", &t[..cut]));
        let g = parse(t[..cut].as_bytes(), &r.chunks());
        ensure(matches!(g, Ok(None)), || format!("an incomplete head gave {:?} instead of no response", g))
    });
    c.enumerate("other-line-ends", 6, |case, _, i| {
        let t = ["HTTP/1.1 200 OK\nA: b\n\n", "HTTP/1.1 200 OK\r\nA: b\n\n", "HTTP/1.1 200 OK\r\n\n", "\n\n", "HTTP/1.1 200 OK\r\nA: b\n\r\n", "HTTP/1.1 200 OK\r\nA: b\r\n\r"][i as usize];
        case.input(format!("{:?}", t));
        let g = parse(t.as_bytes(), &[]);
        ensure(matches!(g, Ok(None)), || format!("{:?} instead of no response", g))
    });
    c.enumerate("long", 4, |case, r, i| {
        let n = [1001usize, 65536, 70000, 300_000][i as usize];
        let v = r.text(TOKEN, n, n + 1);
        let t = format!("HTTP/1.1 200 OK\r\nA: {}\r\n\r\nbody", v);
        let ch = r.chunks();
        case.input(format!("header of {} bytes, chunks {:?}: {}", n, ch, t));
        let mut q = parse(t.as_bytes(), &ch).map_err(e("rejected"))?.ok_or("none")?;
        headers_are(q.headers(), &[("A".into(), v.clone())])?;
        ensure(q.take_body().into_bytes().map_err(e("body"))? == b"body", || "body differs".into())
    });
    c.enumerate("big-body", 2, |case, r, i| {
        let n = 17 << 20;
        let body = r.bytes(n);
        let mut t = format!("HTTP/1.1 200 OK\r\n{}\r\n", if i == 0 { format!("Content-Length: {}\r\n", n) } else { String::new() }).into_bytes();
        t.extend(&body);
        case.input(format!("a body of {} bytes {}", n, if i == 0 { "with Content-Length" } else { "up to the end" }));
        let b = parse(&t, &[]).map_err(e("rejected"))?.ok_or("none")?.take_body().into_bytes().map_err(e("body"))?;
        ensure(b == body, || format!("body {} instead of {}", show(&b), show(&body)))
    });
    c.enumerate("malformed", 12, |case, _, i| {
        let t = [
            "HTTP/1.1 200 OK\r\nBad Header: x\r\n\r\n",
            "HTTP/1.1 200 OK\r\nno-colon\r\n\r\n",
            "HTTP/1.1 200 OK\r\nA: b\r\nB\x01: c\r\n\r\n",
            "HTTP/9.1 200 OK\r\n\r\n",
            "HTTP/1.1 xyz OK\r\n\r\n",
            "\r\n\r\n",
            "FTP/1.1 200 OK\r\n\r\n",
            "HTTP/1.1 200 OK\r\n: empty\r\n\r\n",
            "HTTP/1.1 20 OK\r\n\r\n",
            "HTTP/1.1 200 OK\r\nA: b\x00c\r\n\r\n",
            "HTTP/1.1 200 OK\r\nX: \u{0}\r\n\r\n",
            "HTTP/1.1200 OK\r\n\r\n",
        ][i as usize];
        case.input(format!("{:?}", t));
        let g = parse(t.as_bytes(), &[]);
        ensure(g.is_err(), || format!("a malformed head was accepted: {:?}", g))
    });
    c.family("not-utf8", 200, |case, r, _| {
        let bad: &[&[u8]] = &[b"\xff\xfe", b"\x80", b"a\xc3", b"\xe2\x82", b"\xed\xa0\x80 x", b"ok\xf8ok"];
        let n = r.range(1, 6);
        let at = r.below(n);
        let mut t = b"HTTP/1.1 200 OK\r\n".to_vec();
        for k in 0..n {
            t.extend(format!("H{}: ", k).as_bytes());
            if k == at { t.extend(*r.pick(bad)) } else { t.extend(b"v") }
            t.extend(b"\r\n");
        }
        t.extend(b"\r\n");
        let ch = r.chunks();
        case.input(format!("head={} chunks={:?} hex={}", show(&t), ch, hex(&t)));
        let g = parse(&t, &ch);
        ensure(g.is_err(), || format!("a header value which is not UTF-8 was accepted: {:?}", g))
    });
    c.enumerate("too-many-headers", 3, |case, _, i| {
        let n = 21 + i as usize;
        let t = format!("HTTP/1.1 200 OK\r\n{}\r\n", (0..n).map(|k| format!("h{}: {}\r\n", k, k)).collect::<String>());
        case.input(format!("{} headers", n));
        match parse(t.as_bytes(), &[]) {
            Err(_) => Ok(()),
            Ok(Some(p)) => ensure(p.headers().len() == n, || format!("{} of {} headers silently kept: {:?}", p.headers().len(), n, p.headers())),
            Ok(None) => Err("treated as empty".into()),
        }
    });
    c.enumerate("empty", 1, |case, _, _| {
        case.input("empty stream".into());
        ensure(matches!(parse(b"", &[]), Ok(None)), || "not None".into())
    });
}

// ---------------------------------------------------------------- C14 builders
pub fn c14(c: &mut Ctx) {
    fn odd_headers(r: &mut Rng, hs: &mut Vec<(String, String)>) {
        for (k, v) in [("", "x"), ("Content-Length", "7"), ("content-length", "07"), ("Host", "h"), ("Transfer-Encoding", "chunked"), ("Content-Encoding", "gzip"), ("ETag", "\"a\""), ("Last-Modified", "x"), ("Connection", "close"), ("content-type", "a/b"), ("CONTENT-TYPE", "c"), ("Content-Type", "d/e"), ("Content-type", ""), (" x", "y")] {
            if r.chance(1, 6) {
                hs.push((k.into(), v.into()));
            }
        }
        if let Some(s) = r.dict_str(1, 2, |_| true).filter(|s| *s != "Content-Type") {
            hs.push((s.into(), "from the dictionary".into()));
        }
    }
    c.family("response", 800, |case, r, i| {
        let (mut st, mut reason, mut hs, body) = gen_response(r);
        if r.chance(1, 6) {
            st = *r.pick(&[0, 1, 99, 101, 204, 304, 600, 1000, 65535]);
        }
        if r.chance(1, 6) {
            reason = r.pick(&["", " ", " a ", "OK", "x\r\ny", "\u{e9}"]).to_string();
        }
        odd_headers(r, &mut hs);
        let more: Vec<(String, String)> = hs.iter().filter(|_| true).map(|(k, _)| (k.clone(), "second".to_string())).take(r.below(3)).collect();
        let set = (r.bool(), r.bool());
        case.input(format!("{} {:?} {:?} again={:?} set={:?} body={}", st, reason, hs, more, set, show(&body)));
        let mut b = Response::build();
        if set.0 {
            if r.chance(1, 3) {
                b = b.status(418, "before");
            }
            b = b.status(st, reason.clone());
        }
        if set.1 {
            b = b.body(Body::from_reader(Cursor::new(body.clone()), if r.bool() { Some(body.len()) } else { None }));
        }
        if i % 2 == 0 {
            b = b.headers(hs.clone()).headers(more.clone());
        } else {
            for (k, v) in hs.iter().chain(more.iter()) {
                b = b.header(k, v);
            }
        }
        let mut res = b.build();
        let mut m: BTreeMap<String, String> = hs.iter().cloned().collect();
        m.extend(more.iter().cloned());
        let want: Vec<(String, String)> = m.into_iter().collect();
        headers_are(res.headers(), &want)?;
        ensure(*res.status() == if set.0 { st } else { 200 }, || format!("status {}", res.status()))?;
        ensure(res.reason() == if set.0 { reason.as_str() } else { "" }, || format!("reason {}", res.reason()))?;
        if r.chance(1, 4) {
            // taken first: the Content-Type is that of the empty body
            let old = res.take_body().into_bytes().map_err(e("old"))?;
            ensure(old == if set.1 { body } else { vec![] }, || format!("take_body returned {}", show(&old)))?;
            let mut w2 = want.clone();
            w2.retain(|(k, _)| k != "Content-Type");
            w2.push(("Content-Type".into(), "application/octet-stream".into()));
            headers_are(res.headers(), &w2)?;
            let left = res.take_body().into_bytes().map_err(e("left"))?;
            return ensure(left.is_empty(), || "take_body left something behind".into());
        }
        let new = r.text("abc", 0, 9);
        let old = res.replace_body(new.clone()).into_bytes().map_err(e("old"))?;
        ensure(old == if set.1 { body } else { vec![] }, || format!("replace_body returned {}", show(&old)))?;
        let mut w2 = want.clone();
        w2.retain(|(k, _)| k != "Content-Type");
        w2.push(("Content-Type".into(), "application/octet-stream".into()));
        headers_are(res.headers(), &w2)?;
        let got = res.take_body().into_string().map_err(e("new"))?;
        ensure(got == new, || format!("body after replace {:?}", got))?;
        headers_are(res.headers(), &w2)?;
        let left = res.take_body().into_bytes().map_err(e("left"))?;
        ensure(left.is_empty(), || "take_body left something behind".into())
    });
    c.family("request", 600, |case, r, i| {
        let url = format!("http://h{}.org{}{}", i, if r.chance(1, 4) { odd_target(r) } else { target(r) }, *r.pick(&["", "", "", "/", "/?a/", "//"]));
        let n = r.below(6);
        let mut hs: Vec<(String, String)> = (0..n).map(|i| (header_name(r, i), header_value(r))).collect();
        odd_headers(r, &mut hs);
        let s = r.text("abcXé", 0, 20);
        let has = (r.chance(3, 4), r.bool());
        case.input(format!("{} {:?} {:?} {:?}", url, hs, s, has));
        let mut b = Request::build(&url);
        let method = match r.below(4) {
            0 => Method::Get,
            1 => Method::Head,
            2 => Method::OtherMethod(r.pick(&["", "PUT", "get", "POST", "x y"]).to_string()),
            _ => Method::Post,
        };
        if has.0 {
            if r.chance(1, 4) {
                b = b.method(Method::Head);
            }
            b = b.method(method.clone());
        }
        if has.1 {
            b = match r.below(3) {
                0 => b.body(s.as_str()),
                1 => b.body(Body::from_reader(Cursor::new(s.clone().into_bytes()), None)),
                _ => b.body(Body::from_reader(Cursor::new(s.clone().into_bytes()), Some(s.len()))),
            };
        }
        if i % 2 == 0 {
            b = b.headers(hs.clone());
        } else {
            for (k, v) in &hs {
                b = b.header(k.as_str(), v.clone());
            }
        }
        let q = b.try_build();
        if !has.0 {
            return ensure(q.is_err(), || "built a request without a method".into());
        }
        let mut q = q.map_err(e("try_build"))?;
        ensure(*q.method() == method, || format!("{:?} instead of {:?}", q.method(), method))?;
        ensure(q.url().as_str() == Url::parse(&url).unwrap().as_str(), || q.url().to_string())?;
        headers_are(q.headers(), &hs)?;
        if r.chance(1, 4) {
            let old = q.take_body().into_string().map_err(e("old"))?;
            ensure(old == if has.1 { s.as_str() } else { "" }, || format!("{:?}", old))?;
            let mut w2 = hs.clone();
            w2.retain(|(k, _)| k != "Content-Type");
            w2.push(("Content-Type".into(), "application/octet-stream".into()));
            return headers_are(q.headers(), &w2);
        }
        let old = q.replace_body("next").into_string().map_err(e("old"))?;
        ensure(old == if has.1 { s.as_str() } else { "" }, || format!("{:?}", old))?;
        let mut w2 = hs.clone();
        w2.retain(|(k, _)| k != "Content-Type");
        w2.push(("Content-Type".into(), "application/octet-stream".into()));
        headers_are(q.headers(), &w2)?;
        let got = q.take_body().into_string().map_err(e("got"))?;
        ensure(got == "next", || got.clone())
    });
    c.enumerate("bad-url", 8, |case, _, i| {
        let u = ["", "nothing", "http://", "http://a b/", "//x", "http://[::1", ":", "http://a:99999/"][i as usize];
        case.input(format!("{:?}", u));
        ensure(Request::try_build(u).is_err(), || "accepted".into())
    });
}

// ---------------------------------------------------------------- C13 url patterns
#[derive(Clone, Debug)]
enum Seg {
    S(&'static str),
    P,
    I,
}
const WORDS: &[&str] = &["home", "a", "b", "", "submit", "12", "read", "Home", "x-y", "%20", "-5", "2147483648", "%2F", "%2Fx", "%61", "a%2Fb", "...", "a..", "+0", "00", "home.", "hom", "home%20", "*", ":id", "{id}", "~", "/a", "a/", "/", "a/b", " a", "a ", "a?", "#a"];
pub fn c13(c: &mut Ctx) {
    let check = |case: &mut Case, pat: &[Seg], url: &str| -> Result<(), String> {
        case.input(format!("pattern={:?} url={:?}", pat, url));
        let u = match Url::parse(url) {
            Ok(u) => u,
            Err(_) => return Ok(()),
        };
        let mut m = Match::new();
        for s in pat {
            m = m.at(match s {
                Seg::S(s) => path(s),
                Seg::P => anything(),
                Seg::I => any_integer(),
            });
        }
        let want = match u.path().strip_prefix('/') {
            _ if u.cannot_be_a_base() => false,
            None => false,
            Some(p) => {
                let segs: Vec<&str> = p.split('/').collect();
                segs.len() == pat.len()
                    && segs.iter().zip(pat).all(|(a, s)| match s {
                        Seg::S(x) => a == x,
                        Seg::P => true,
                        Seg::I => is_i32(a),
                    })
            }
        };
        let got = m.does_match(&u);
        ensure(got == want, || format!("does_match is {} for path {:?}", got, u.path()))?;
        ensure(m.does_match(&u) == got, || "a second call answers differently".into())
    };
    c.enumerate("ints", 48, |case, r, i| {
        let s = match i {
            0 => "0".to_string(),
            1 => "-0".into(),
            2 => "+7".into(),
            3 => "2147483647".into(),
            4 => "2147483648".into(),
            5 => "-2147483648".into(),
            6 => "-2147483649".into(),
            7 => "".into(),
            8 => "-".into(),
            9 => "+".into(),
            10 => "1a".into(),
            11 => "0x10".into(),
            12 => "١".into(),
            13 => "00000000000000000001".into(),
            14 => "1.0".into(),
            15 => "4294967296".into(),
            16 => "9223372036854775808".into(),
            17 => "00".into(),
            18 => "000".into(),
            19 => "-00".into(),
            20 => "+0".into(),
            21 => "0".repeat(300),
            22 => format!("-{}1", "0".repeat(40)),
            23 => "007".into(),
            24 => "1_000".into(),
            _ => r.text("0123456789-+", 1, 11),
        };
        check(case, &[Seg::I], &format!("http://a/{}", s))
    });
    c.enumerate("non-hierarchical", 6, |case, _, i| {
        check(case, &[Seg::P][..(i as usize % 2)], ["mailto:a@b", "data:x", "http://a", "http://a/", "file:///", "about:blank"][i as usize])
    });
    c.family("patterns", 6000, |case, r, _| {
        let n = if r.chance(1, 6) { r.range(4, 40) } else { r.below(5) };
        let mut pat = vec![];
        let mut url = String::from("http://example.com");
        for _ in 0..n {
            let s = match r.below(4) {
                0 | 1 => Seg::S(r.dict_str(1, 4, |_| true).unwrap_or(*r.pick::<&str>(WORDS))),
                2 => Seg::P,
                _ => Seg::I,
            };
            url.push('/');
            match &s {
                _ if r.chance(1, 8) => url.push_str(r.dict_str(1, 2, |_| true).unwrap_or(*r.pick::<&str>(WORDS))),
                Seg::S(w) if r.chance(1, 6) => url.push_str(w.trim_matches(|c: char| !c.is_ascii_alphanumeric())),
                Seg::S(w) => url.push_str(w),
                Seg::P => url.push_str(&r.text("abX0-%é", 0, 5)),
                Seg::I => url.push_str(&format!("{}", r.dict_num(1, 3).map_or(r.next() as i32, |n| n as i32))),
            }
            pat.push(s);
        }
        match r.below(10) {
            0 => url.push('/'),
            1 => url.push_str("/extra"),
            2 => url.push_str("?q=a/b"),
            3 => {
                pat.push(Seg::P);
            }
            _ => {}
        }
        check(case, &pat, &url)
    });
}

// ---------------------------------------------------------------- C12 / C23 routing and connections
thread_local! {
    static LOG: RefCell<Vec<(usize, String, u64)>> = RefCell::new(vec![]);
    static ACCEPTED: RefCell<Vec<usize>> = RefCell::new(vec![]);
    static MASK: RefCell<Vec<bool>> = RefCell::new(vec![]);
}
fn hit(i: usize, q: Request, s: Stream, st: u64) -> UsedStream {
    LOG.with(|l| l.borrow_mut().push((i, q.url().path().to_string(), st)));
    s.respond(Response::build().status(200, "ok").body(format!("handler {}", i)).build()).unwrap()
}
macro_rules! routes {
    ($($m:ident $h:ident $i:expr;)*) => {
        $(fn $m(_: &Request) -> bool {
            ACCEPTED.with(|a| a.borrow_mut().push($i));
            MASK.with(|m| m.borrow()[$i])
        }
        fn $h(q: Request, s: Stream, st: u64) -> UsedStream { hit($i, q, s, st) })*
        fn route(i: usize, j: usize) -> Route<u64> {
            let ms: &[fn(&Request) -> bool] = &[$($m),*];
            let hs: &[fn(Request, Stream, u64) -> UsedStream] = &[$($h),*];
            Route::new(ms[i], hs[j])
        }
    };
}
routes! { m0 h0 0; m1 h1 1; m2 h2 2; m3 h3 3; m4 h4 4; m5 h5 5; }

pub fn serve(how: u64, router: Router<u64>, state: u64) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match how {
        0 => Core::bind("localhost:1", state).unwrap().serve_router(router),
        1 => router.run(TcpListener::bind("localhost:1").unwrap(), state),
        _ => Core::bind("localhost:1", state).unwrap().for_each(|q, s, st| hit(0, q, s, st)),
    }));
    if let Err(p) = r {
        if !p.is::<stub::ScriptEnd>() {
            std::panic::resume_unwind(p);
        }
    }
}
fn push(s: &TcpStream) {
    stub::ACCEPTS.with(|a| a.borrow_mut().push_back(stub::Accept::Conn(s.clone())));
}
fn panics() -> Vec<String> {
    stub::PANICS.with(|p| p.borrow().clone())
}
pub fn c12(c: &mut Ctx) {
    let run = |case: &mut Case, r: &mut Rng, how: u64, order: &[(usize, usize)], mask: Vec<bool>| -> Result<(), String> {
        case.input(format!("served by {} routes(matcher,handler)={:?} matcher answers={:?}", ["Core::serve_router", "Router::run"][how as usize], order, mask));
        LOG.with(|l| l.borrow_mut().clear());
        ACCEPTED.with(|l| l.borrow_mut().clear());
        MASK.with(|m| *m.borrow_mut() = mask.clone());
        let mut router = Router::new();
        for (m, h) in order {
            router = router.route(route(*m, *h));
        }
        let n = r.count(1, 3);
        let st = r.next();
        let mut ss = vec![];
        for k in 0..n {
            let p = format!("/{}req{}", r.dict_str(1, 3, |c| c.is_ascii_alphanumeric() || "/-._~!$&'()*+,;=:@|".contains(c)).filter(|s| !s.split('/').any(|x| x == "." || x == "..")).map_or("", |s| s.trim_start_matches('/')), k);
            let s = TcpStream::script(format!("GET {} HTTP/1.1\r\nHost: a.b\r\n\r\n", p).as_bytes(), &r.chunks());
            if r.chance(1, 4) {
                stub::ACCEPTS.with(|a| a.borrow_mut().push_back(stub::Accept::Err));
            }
            push(&s);
            ss.push((p, s));
        }
        serve(how, router, st);
        ensure(panics().is_empty(), || format!("panic while serving: {:?}", panics()))?;
        let first = order.iter().find(|(m, _)| mask[*m]).map(|x| x.1);
        // every matcher up to the first that accepts, once, in order
        let upto = order.iter().position(|(m, _)| mask[*m]).map_or(order.len(), |p| p + 1);
        let once: Vec<usize> = order[..upto].iter().map(|x| x.0).collect();
        let asked = ACCEPTED.with(|l| l.borrow().clone());
        ensure(asked == once.repeat(n), || format!("matchers asked: {} instead of {}", clip(&format!("{:?}", asked), 200), clip(&format!("{:?}", once.repeat(n)), 200)))?;
        let log = LOG.with(|l| l.borrow().clone());
        let want: Vec<(usize, String, u64)> = match first {
            None => vec![],
            Some(h) => ss.iter().map(|(p, _)| (h, p.clone(), st)).collect(),
        };
        ensure(log == want, || format!("handlers run: {:?} instead of {:?}", log, want))?;
        for (p, s) in &ss {
            let out = String::from_utf8_lossy(&s.output()).into_owned();
            match first {
                Some(h) => ensure(out.ends_with(&format!("\r\n\r\nhandler {}", h)) && out.matches("HTTP/1.1").count() == 1, || format!("{} was answered {:?}", p, out))?,
                None => ensure(!out.contains("handler"), || format!("{} was answered {:?}", p, out))?,
            }
        }
        Ok(())
    };
    c.enumerate("two-routes", 2 * 4 * 4, |case, r, i| {
        let mask = vec![i & 1 == 1, i & 2 == 2, true, false, true, false];
        let order: Vec<(usize, usize)> = match i >> 3 & 3 {
            0 => vec![(0, 0), (1, 1)],
            1 => vec![(1, 1), (0, 0)],
            2 => vec![(0, 1), (1, 0)],
            _ => vec![(0, 0), (0, 1), (1, 2)],
        };
        run(case, r, i >> 2 & 1, &order, mask)
    });
    // many routes, the one that accepts at the end or nowhere
    c.enumerate("many-routes", 60, |case, r, i| {
        let n = [9usize, 10, 17, 33, 34, 65, 129, 256, 257, 300, 1000, 12, 40, 70, 128][i as usize % 15];
        let mut mask = vec![true; 6];
        let no = r.range(0, 3);
        (0..=no).for_each(|k| mask[k] = false);
        let mut order: Vec<(usize, usize)> = (0..n).map(|_| (r.below(no + 1), r.below(6))).collect();
        match i / 15 {
            0 => order.push((5, r.below(6))),
            1 => order.extend([(5, 0), (4, 1), (5, 2)]),
            2 => {
                let at = r.below(n);
                order[at].0 = 4;
            }
            _ => {}
        }
        run(case, r, i % 2, &order, mask)
    });
    c.family("random", 800, |case, r, i| {
        let n = r.count(0, 6);
        let order: Vec<(usize, usize)> = (0..n).map(|_| (r.below(6), r.below(6))).collect();
        let mask = (0..6).map(|_| r.chance(1, 3)).collect();
        run(case, r, i % 2, &order, mask)
    });
}
fn malformed(r: &mut Rng) -> Vec<u8> {
    match r.below(12) {
        0 => vec![],
        1 => {
            let n = r.size(0, 59);
            r.bytes(n)
        }
        2 => {
            let n = r.below(60);
            let mut v = r.bytes(n);
            v.extend(b"\r\n\r\n");
            v
        }
        3 => b"GET / HTTP/1.1\r\n\r\n".to_vec(),
        4 => b"GET / HTTP/9.9\r\nHost: a\r\n\r\n".to_vec(),
        5 => b"GET / HTTP/1.1\r\nHost: a\xff\xfe\r\n\r\n".to_vec(),
        6 => b"GET relative HTTP/1.1\r\nHost: a\r\n\r\n".to_vec(),
        7 => b"GET / HTTP/1.1\r\nHost: a b c\r\n\r\n".to_vec(),
        8 => format!("GET / HTTP/1.1\r\nHost: a\r\n{}\r\n", (0..25).map(|i| format!("h{}: 1\r\n", i)).collect::<String>()).into_bytes(),
        9 => {
            let q = gen_request(r);
            let h = q.text.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
            q.text[..r.below(h)].to_vec()
        }
        10 => b"\r\n\r\n".to_vec(),
        _ => {
            let q = gen_request(r);
            let h = q.text.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
            let mut t = q.text[..h].to_vec();
            let k = r.below(h);
            t[k] = *r.pick(&[0u8, 1, 127, 255, b'\r', b'\n', b' ', b':']);
            t
        }
    }
}
pub fn c23(c: &mut Ctx) {
    c.family("connections", 2000, |case, r, i| {
        let how = i % 3;
        let n = r.count(1, 4);
        let mut conns: Vec<(Vec<u8>, bool)> = vec![];
        for _ in 0..n {
            if r.chance(1, 3) {
                conns.push((b"GET /fine HTTP/1.1\r\nHost: a.b\r\n\r\n".to_vec(), false));
            } else {
                conns.push((malformed(r), r.chance(1, 8)));
            }
        }
        case.input(format!(
            "served by {} connections={:?} hex={:?}",
            ["Core::serve_router", "Router::run", "Core::for_each"][how as usize],
            conns.iter().map(|x| show(&x.0)).collect::<Vec<_>>(),
            conns.iter().map(|x| hex(&x.0)).collect::<Vec<_>>()
        ));
        LOG.with(|l| l.borrow_mut().clear());
        MASK.with(|m| *m.borrow_mut() = vec![true; 6]);
        let mut ss = vec![];
        let mut deaf = vec![];
        let mut want = 0;
        for (t, fault) in &conns {
            let s = TcpStream::script(t, &r.chunks());
            s.conn.borrow_mut().fail_at_end = *fault;
            // oracle: what the request parser itself says about the same bytes
            let mut ck = chunked(t, &[]);
            ck.fail = *fault;
            let ok = matches!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Request::parse(ck))), Ok(Ok(Some(_))));
            want += ok as usize;
            // a connection which does not even take its 400
            if !ok && r.chance(1, 8) {
                deaf.push(ss.len());
                s.conn.borrow_mut().write_fail = true;
            }
            if r.chance(1, 6) {
                stub::ACCEPTS.with(|a| a.borrow_mut().push_back(stub::Accept::Err));
            }
            push(&s);
            ss.push((s, ok));
        }
        // without routes a malformed connection gets its 400 all the same
        let bare = r.chance(1, 4) && how != 2;
        case.input(format!("{} routes={} connections which refuse writes={:?}", case.input, if bare { 0 } else { 1 }, deaf));
        if bare {
            want = 0;
        }
        serve(how, if bare { Router::new() } else { Router::new().route(route(0, 0)) }, 7);
        ensure(panics().is_empty(), || format!("panic while serving: {:?}", panics()))?;
        let log = LOG.with(|l| l.borrow().len());
        ensure(log == want, || format!("{} handler runs for {} well-formed requests", log, want))?;
        for (k, (s, ok)) in ss.iter().enumerate() {
            if deaf.contains(&k) {
                continue;
            }
            let o = s.output();
            let o = String::from_utf8_lossy(&o).into_owned();
            if *ok && !bare {
                ensure(o.starts_with("HTTP/1.1 200 ok\r\n"), || format!("answer {:?}", o))?;
            } else if !*ok {
                ensure(o.starts_with("HTTP/1.1 400 ") || (how == 1 && o.is_empty()), || format!("malformed connection answered {:?}", o))?;
                ensure(o.matches("HTTP/1.1").count() <= 1, || format!("answered twice {:?}", o))?;
            }
        }
        let sp = stub::SPAWNED.with(|s| *s.borrow());
        ensure(sp == conns.len(), || format!("{} processes for {} connections", sp, conns.len()))
    });
}

// ---------------------------------------------------------------- C06 upgrade
thread_local! {
    static UP: RefCell<Option<bool>> = RefCell::new(None);
}
fn up_handler(q: Request, s: Stream, _: u64) -> UsedStream {
    match s.upgrade(&q) {
        Ok(w) => {
            UP.with(|u| *u.borrow_mut() = Some(true));
            let _ = w.send(puck::ws::message::Message::Text("hi".into()));
            UsedStream::empty()
        }
        Err(u) => {
            UP.with(|u| *u.borrow_mut() = Some(false));
            u
        }
    }
}
fn yes(_: &Request) -> bool {
    true
}
pub fn c06(c: &mut Ctx) {
    let run = |case: &mut Case, r: &mut Rng, hs: &[(String, String)], want: Option<bool>, key: Option<&str>| -> Result<(), String> {
        let mut t = format!("{} {} HTTP/1.1\r\nHost: a.b\r\n", if r.chance(1, 4) { *r.pick(&["POST", "HEAD", "PUT", "get", "OPTIONS"]) } else { "GET" }, *r.pick(&["/ws", "/ws", "/", "/chat?x=1"]));
        if r.chance(1, 4) {
            t.push_str(*r.pick(&["Sec-WebSocket-Protocol: chat, superchat\r\n", "Sec-WebSocket-Extensions: permessage-deflate\r\n", "Origin: http://example.com\r\n", "Sec-WebSocket-Version: 8\r\n", "Content-Length: 0\r\n"]));
        }
        for (k, v) in hs {
            t.push_str(&format!("{}: {}\r\n", k, v));
        }
        t.push_str("\r\n");
        case.input(format!("request {:?}", t));
        UP.with(|u| *u.borrow_mut() = None);
        let s = TcpStream::script(t.as_bytes(), &r.chunks());
        push(&s);
        serve(1, Router::new().route(Route::new(yes, up_handler)), 0);
        ensure(panics().is_empty(), || format!("{:?}", panics()))?;
        let got = UP.with(|u| *u.borrow()).ok_or("handler not run")?;
        let out = s.output();
        if let Some(w) = want {
            ensure(got == w, || format!("upgrade {}", if got { "accepted" } else { "refused" }))?;
        }
        let (head, rest) = split_head(&out).ok_or_else(|| format!("answer {}", show(&out)))?;
        let (first, f) = parse_head(&head).ok_or_else(|| head.clone())?;
        if got {
            ensure(first.starts_with("HTTP/1.1 101 "), || first.clone())?;
            let get = |n: &str| f.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n)).map(|x| x.1.clone()).collect::<Vec<_>>();
            let acc = accept_for(key.unwrap_or(""));
            ensure(get("sec-websocket-accept") == vec![acc.clone()], || format!("accept {:?} instead of {}", get("sec-websocket-accept"), acc))?;
            ensure(get("upgrade").iter().all(|x| x.eq_ignore_ascii_case("websocket")) && get("upgrade").len() == 1, || format!("{:?}", f))?;
            ensure(get("connection").iter().all(|x| x.eq_ignore_ascii_case("upgrade")) && get("connection").len() == 1, || format!("{:?}", f))?;
            ensure(f.len() == 3, || format!("more than the handshake's headers: {:?}", f))?;
            ensure(rest == encode_plain(1, b"hi"), || format!("after the handshake {}", show(&rest)))
        } else {
            ensure(first.starts_with("HTTP/1.1 400 "), || first.clone())?;
            ensure(!String::from_utf8_lossy(&rest).contains("HTTP/1.1"), || "answered twice".into())
        }
    };
    let key = |r: &mut Rng| match r.below(3) {
        0 => base64(&r.bytes(16)),
        1 => format!("{}{}", r.text(TOKEN, 1, 70), *r.pick(&["", "", "=", "==", "===", " x", "==x"])),
        _ => "dGhlIHNhbXBsZSBub25jZQ==".to_string(),
    };
    c.family("valid", 800, |case, r, _| {
        let k = key(r);
        let conn = match r.below(4) {
            0 => "Upgrade".to_string(),
            3 => r.pick(&["keep-alive-upgrade", "upgraded", "Upgrade;q=1", "x,upgrade,y", "keep-alive,Upgrade", "HTTP2-Upgrade, close"]).to_string(),
            1 => "keep-alive, Upgrade".into(),
            _ => "upgrade, x".into(),
        };
        let mut hs = vec![
            (flip_case(r, "upgrade"), flip_case(r, "websocket")),
            (flip_case(r, "connection"), flip_case(r, &conn)),
            (flip_case(r, "Sec-WebSocket-Key"), k.clone()),
        ];
        if r.bool() {
            hs.push(("Sec-WebSocket-Version".into(), "13".into()));
        }
        if r.bool() {
            hs.swap(0, 2);
        }
        if r.chance(1, 5) {
            let n = r.range(1, 12);
            hs.extend((0..n).map(|i| (header_name(r, i), header_value(r))));
        }
        if r.chance(1, 10) {
            hs.push((r.pick(&["X-Forwarded-Upgrade", "Upgrade-Insecure-Requests", "Sec-WebSocket-Key1", "Proxy-Connection"]).to_string(), "1".into()));
        }
        run(case, r, &hs, Some(true), Some(&k))
    });
    c.enumerate("defective", 240, |case, r, i| {
        let k = key(r);
        let odd = r.dict_str(1, 2, |c| c.is_ascii_graphic());
        let mut hs = vec![
            (flip_case(r, "upgrade"), "websocket".to_string()),
            (flip_case(r, "connection"), "Upgrade".to_string()),
            (flip_case(r, "Sec-WebSocket-Key"), k.clone()),
        ];
        match i % 6 {
            0 => {
                hs.remove(0);
            }
            1 => {
                hs.remove(1);
            }
            2 => {
                hs.remove(2);
            }
            3 => hs[0].1 = r.pick(&["h2c", "web-socket", "websocke", "", "websocket2", "websocket/13", "websocket,", "websocket, h2c", "h2c, websocket", "xwebsocket", "web socket", "\u{17f}ocket", "web\u{17f}oc\u{212a}et", "WEBSOCKETS"]).to_string(),
            4 => hs[1].1 = r.pick(&["close", "keep-alive", "", "upgrad", "up-grade", "grade", "websocket", "pgrade"]).to_string(),
            _ => {
                hs.remove(r.below(3));
                hs.remove(r.below(2));
            }
        }
        if let Some(o) = odd {
            let l = o.to_ascii_lowercase();
            match i % 6 {
                3 if l != "websocket" => hs[0].1 = [o.to_string(), format!("websocket{}", o), format!("{}websocket", o), o.to_string()][r.below(4)].clone(),
                4 if !l.contains("upgrade") => hs[1].1 = o.to_string(),
                _ => {}
            }
            if hs[0].1.eq_ignore_ascii_case("websocket") && i % 6 == 3 {
                hs[0].1 = "h2c".into();
            }
        }
        if r.chance(1, 4) {
            let n = r.range(1, 12);
            hs.extend((0..n).map(|i| (header_name(r, i), header_value(r))));
        }
        if r.chance(1, 4) {
            hs.push((r.pick(&["X-Forwarded-Upgrade", "Upgrade-Insecure-Requests", "Sec-WebSocket-Key1", "Proxy-Connection"]).to_string(), r.pick(&["websocket", "Upgrade", "1"]).to_string()));
        }
        run(case, r, &hs, Some(false), Some(&k))
    });
    c.enumerate("accept-value", 200, |case, r, i| {
        let mut k = r.text(TOKEN, i as usize % 130, i as usize % 130 + 1);
        if i % 4 == 3 {
            k = format!("{}{}{}", *r.pick(&["", " ", "\t", "="]), k, *r.pick(&[" ", "=", "===", "\t", "é", ", x", "\u{a0}"]));
        }
        case.input(format!("key {:?}", k));
        let q = Request::build("http://a/").method(Method::Get).header("Sec-WebSocket-Key", k.clone()).build();
        let mut o = vec![];
        ensure(puck::ws::perform_upgrade(&q, &mut o), || "refused".into())?;
        let o = String::from_utf8_lossy(&o).into_owned();
        let w = format!("Sec-WebSocket-Accept: {}\r\n", accept_for(&k));
        ensure(o.contains(&w), || format!("{:?} lacks {:?}", o, w))
    });
}

// ---------------------------------------------------------------- C02 robustness
pub const CAP: usize = 8 << 20;
pub fn c02(c: &mut Ctx) {
    fn cap(what: &str, n: usize) -> Result<(), String> {
        let m = MAX_ALLOC.load(std::sync::atomic::Ordering::Relaxed);
        ensure(m <= CAP + 4 * n, || format!("{}: one allocation of {} bytes for {} received bytes", what, m, n))
    }
    c.enumerate("frame-announced", 400, |case, r, i| {
        let len: u64 = match i % 8 {
            0 => u64::MAX,
            1 => 1 << 63,
            2 => (1 << 63) - 1,
            3 => 1 << 32,
            4 => (1 << 32) - 1,
            5 => 1 << 31,
            6 => 1 << r.range(24, 62),
            _ => r.next(),
        };
        let n = r.below(20);
        let mut v = vec![r.byte(), 0xff];
        v.extend_from_slice(&len.to_be_bytes());
        v.extend(r.bytes(4 + n));
        case.input(format!("frame announcing {} bytes: {}", len, hex(&v)));
        let s = TcpStream::script(&v, &r.chunks());
        let g = if r.bool() { puck::ws::frame::Frame::parse(s).is_ok() } else { puck::ws::message::Message::next(s).is_ok() };
        cap("websocket", v.len())?;
        ensure(!g, || "a frame was produced".into())
    });
    c.enumerate("content-length", 200, |case, r, i| {
        let len = match i % 5 {
            0 => u64::MAX.to_string(),
            1 => (1u64 << 63).to_string(),
            2 => (u32::MAX).to_string(),
            3 => (1u64 << r.range(24, 62)).to_string(),
            _ => r.next().to_string(),
        };
        let resp = i % 2 == 0;
        let t = if resp { format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\nabc", len) } else { format!("POST / HTTP/1.1\r\nHost: a.b\r\nContent-Length: {}\r\n\r\nabc", len) };
        case.input(format!("{:?} then reading the body, mode {}", t, i / 5 % 2));
        let b = if resp { Response::parse(chunked(t.as_bytes(), &[])).map_err(e("x"))?.ok_or("none")?.take_body() } else { Request::parse(chunked(t.as_bytes(), &[])).map_err(e("x"))?.ok_or("none")?.take_body() };
        let got = if i / 5 % 2 == 0 { b.into_bytes().map_err(e("into_bytes"))? } else { b.into_string().map_err(e("into_string"))?.into_bytes() };
        cap("body", t.len())?;
        ensure(got == b"abc", || show(&got))
    });
    c.family("ws-fuzz", 6000, |case, r, i| {
        let n = r.below(60);
        let mut v = r.bytes(n);
        if r.bool() && !v.is_empty() {
            v[0] = *r.pick(&[0x81, 0x82, 0x01, 0x02, 0x00, 0x80, 0x88, 0x89, 0x8a]);
        }
        if r.bool() && v.len() > 1 {
            v[1] |= 0x80;
        }
        let ch = r.chunks();
        let fault = r.chance(1, 8);
        case.input(format!("ws bytes {} chunks {:?} fault {}", hex(&v), ch, fault));
        let s = TcpStream::script(&v, &ch);
        s.conn.borrow_mut().fail_at_end = fault;
        match i % 3 {
            0 => drop(puck::ws::frame::Frame::parse(s)),
            1 => drop(puck::ws::message::Message::next(s)),
            _ => {
                let mut w = puck::ws::websocket::WebSocket::new(s);
                for _ in 0..4 {
                    let _ = w.next();
                }
                let _ = w.close();
            }
        }
        cap("websocket", v.len())
    });
    c.family("http-fuzz", 6000, |case, r, i| {
        let mut v = match r.below(3) {
            0 => malformed(r),
            1 => gen_request(r).text,
            _ => {
                let (st, reason, hs, b) = gen_response(r);
                let mut t = format!("HTTP/1.1 {} {}\r\n", st, reason);
                for (k, x) in hs {
                    t.push_str(&format!("{}: {}\r\n", k, x));
                }
                let mut t = (t + "\r\n").into_bytes();
                t.extend(b);
                t
            }
        };
        let k = r.below(4);
        for _ in 0..k {
            if !v.is_empty() {
                let at = r.below(v.len().min(200));
                match r.below(3) {
                    0 => v[at] = r.byte(),
                    1 => {
                        v.remove(at);
                    }
                    _ => v.insert(at, *r.pick(&[b'\r', b'\n', b' ', 0, 255, b':', b'/', b'%', b'[', b'@'])),
                }
            }
        }
        let ch = r.chunks();
        case.input(format!("http bytes {} chunks {:?} hex={}", show(&v), ch, hex(&v)));
        if i % 2 == 0 {
            if let Ok(Some(mut q)) = Request::parse(chunked(&v, &ch)) {
                let _ = puck::ws::should_upgrade(&q);
                let mut o = vec![];
                puck::ws::perform_upgrade(&q, &mut o);
                let _ = Match::new().at(anything()).at(any_integer()).at(path("x")).does_match(q.url());
                let _ = q.take_body().into_string();
            }
        } else if let Ok(Some(mut q)) = Response::parse(chunked(&v, &ch)) {
            let _ = q.take_body().into_string();
        }
        cap("http", v.len())
    });
}
