F = "puck/src/ws/frame.rs"
M = "puck/src/ws/message.rs"
W = "puck/src/ws/websocket.rs"
SEEDS = [
    dict(id="s01-mask-long", prop="C01", needs="a payload of more than 64 KiB",
         breaks="the unmasking key is applied out of phase after the first 65536 bytes of a payload",
         edits=[(F, "decoded[i] = encoded[i] ^ masking_key[i % 4];", "decoded[i] = encoded[i] ^ masking_key[((i % 65535) + i / 65535 * 2) % 4];")],
         demo='''
fn main() {
    for n in [1usize, 1000, 65535, 65536, 70001] {
        let p: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
        let f = Frame::parse(conn(&frame(true, 2, &p))).unwrap();
        check(f.decoded() == &p, &format!("payload of {} bytes", n));
    }
}
'''),
    dict(id="s03-control-cut", prop="C03", needs="a ping or pong with more than 125 bytes of payload",
         breaks="the payload of an outgoing ping or pong is cut to 125 bytes",
         edits=[(F, "Message::Ping(payload) | Message::Pong(payload) => payload.unwrap_or_default(),",
                 "Message::Ping(payload) | Message::Pong(payload) => {\n                    let mut payload = payload.unwrap_or_default();\n                    payload.truncate(125);\n                    payload\n                }")],
         demo='''
fn main() {
    for n in [0usize, 1, 125, 126, 300] {
        let c = conn(b"");
        let p = vec![7u8; n];
        WebSocket::new(c.clone()).send(Message::Ping(Some(p.clone()))).unwrap();
        let mut want = vec![0x89u8];
        if n < 126 { want.push(n as u8) } else { want.push(126); want.extend((n as u16).to_be_bytes()) }
        want.extend(&p);
        check(c.output() == want, &format!("ping with {} bytes", n));
    }
}
'''),
    dict(id="s04-repeat-kind", prop="C04", needs="a fragmented message whose later fragment repeats the kind of the first",
         breaks="a data frame of the same kind inside a fragmented message is taken as a continuation instead of a protocol violation",
         edits=[(M, "if msg.op_code() != &OpCode::Continue {", "if msg.op_code() != &OpCode::Continue && msg.op_code() != &op_code {")],
         demo='''
fn main() {
    let mut v = frame(false, 2, b"ab"); v.extend(frame(true, 2, b"cd"));
    check(Message::next(conn(&v)).is_err(), "binary inside a fragmented binary message");
    let mut v = frame(false, 2, b"ab"); v.extend(frame(true, 0, b"cd"));
    check(matches!(Message::next(conn(&v)), Ok(Message::Binary(b)) if b == b"abcd"), "fragmented message");
}
'''),
    dict(id="s04-split-char", prop="C04", needs="a text message fragmented in the middle of a multi-byte character",
         breaks="every fragment of a text message must be valid UTF-8 by itself",
         edits=[(M, "payload.extend(msg.take_decoded());\n", "payload.extend(msg.take_decoded());\n\n            if op_code == OpCode::Text && std::str::from_utf8(&payload).is_err() {\n                // fail early\n                return Err(DecodeMessageError::ClientProtocolViolationError);\n            }\n")],
         demo='''
fn main() {
    let t = "a\\u{20ac}b".as_bytes();
    for (i, j) in [(1usize, 1usize), (1, 4), (1, 2), (2, 3), (3, 4)] {
        let mut v = frame(false, 1, &t[..i]);
        v.extend(frame(false, 0, &t[i..j]));
        v.extend(frame(true, 0, &t[j..]));
        check(matches!(Message::next(conn(&v)), Ok(Message::Text(x)) if x.as_bytes() == t), &format!("split at {} and {}", i, j));
    }
}
'''),
    dict(id="s05-no-close-after-error", prop="C05", needs="a protocol violation followed by closing the session from this side",
         breaks="after a protocol violation the session counts as closed, so closing it writes no close frame",
         edits=[(W, "                        Err(NextMessageError::ClientError)\n", "                        self.state = WebSocketState::Closed;\n                        Err(NextMessageError::ClientError)\n")],
         demo='''
fn main() {
    let c = conn(&frame(true, 3, b"x"));
    let mut ws = WebSocket::new(c.clone());
    check(matches!(ws.next(), Some(Err(NextMessageError::ClientError))), "violation");
    check(c.output().is_empty(), "a violation writes nothing");
    ws.close().unwrap();
    check(c.output() == [0x88, 0], "one close frame");
}
'''),
    dict(id="s05-empty-ping", prop="C05", needs="a ping without payload",
         breaks="a ping without payload gets no pong",
         edits=[(W, "if let Message::Ping(ref payload) = msg {", "if let Message::Ping(Some(ref payload)) = msg {"),
                (W, "decoded: payload.clone().unwrap_or_default(),", "decoded: payload.clone(),")],
         demo='''
fn main() {
    for p in [&b""[..], b"x", b"hello"] {
        let c = conn(&frame(true, 9, p));
        let mut ws = WebSocket::new(c.clone());
        check(matches!(ws.next(), Some(Ok(Message::Ping(_)))), "ping");
        let mut want = vec![0x8au8, p.len() as u8];
        want.extend(p);
        check(c.output() == want, "one pong with the payload");
        std::mem::forget(ws);
    }
}
'''),
    dict(id="s07-header-case", prop="C07", needs="header names which differ in case, so that byte order and caseless order disagree",
         breaks="headers are written in caseless order instead of byte order",
         edits=[("puck/src/response/encoder.rs", "headers.sort_unstable_by_key(|(h, _)| h.as_str());", "headers.sort_by_cached_key(|(h, _)| h.to_ascii_lowercase());")],
         demo='''
fn main() {
    let r = Response::build().header("b", "1").header("C", "2").header("a", "3").status(200, "OK").body("x").build();
    let c = conn(b"");
    puck::write_response(r, c.clone());
    let t = String::from_utf8(c.output()).unwrap();
    let names: Vec<&str> = t.split("\\r\\n").skip(1).take_while(|l| !l.is_empty()).map(|l| l.split(':').next().unwrap()).collect();
    let mut want = names.clone();
    want.sort();
    check(names == want, &format!("{:?}", names));
}
'''),
    dict(id="s08-over-read", prop="C08", needs="a body read in several calls, with more bytes behind it in the source",
         breaks="later reads may take bytes past the declared length",
         edits=[("puck/src/body/mod.rs", "Some(length) if length == self.bytes_read => return Ok(0),", "Some(length) if self.bytes_read >= length => return Ok(0),"),
                ("puck/src/body/mod.rs", "let max_length = (length - self.bytes_read).min(buf.len());", "let max_length = length.min(buf.len());")],
         demo='''
fn main() {
    for size in [1usize, 3, 4, 10, 100] {
        let src = std::io::Cursor::new(b"0123456789NEXT".to_vec());
        let mut b = Body::from_reader(src, Some(10));
        let mut all: Vec<u8> = vec![];
        loop {
            let mut buf = vec![0; size];
            let n = b.read(&mut buf).unwrap();
            if n == 0 { break }
            all.extend(&buf[..n]);
        }
        check(all == b"0123456789", &format!("buffers of {} bytes", size));
    }
}
'''),
    dict(id="s09-few-headers", prop="C09", needs="a request with more than 16 headers",
         breaks="well-formed requests with 17 to 20 headers are refused",
         edits=[("puck/src/request/mod.rs", "const MAX_HEADERS: usize = 20;", "const MAX_HEADERS: usize = 16;")],
         demo='''
fn main() {
    for n in 1..=20usize {
        let mut h = String::from("GET /x HTTP/1.1\\r\\nHost: h\\r\\n");
        for i in 1..n { h += &format!("X-{}: {}\\r\\n", i, i) }
        h += "\\r\\n";
        let r = Request::parse(conn(h.as_bytes()));
        check(matches!(r, Ok(Some(ref r)) if r.headers().len() == n), &format!("{} headers", n));
    }
}
'''),
    dict(id="s10-flat-body", prop="C10", needs="a request written while the transport refuses the body",
         breaks="a failure to write the body is not reported",
         edits=[("puck/src/request/mod.rs", "std::io::copy(&mut self.body, write).map(drop)", "let _ = std::io::copy(&mut self.body, write);\n        Ok(())")],
         demo='''
struct Full(Vec<u8>, usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.len() + b.len() > self.1 { return Err(std::io::ErrorKind::BrokenPipe.into()) }
        self.0.extend(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let make = || { let mut r = Request::parse(conn(b"POST /a HTTP/1.1\\r\\nHost: h\\r\\n\\r\\n")).unwrap().unwrap(); r.replace_body("0123456789"); r };
    let mut all = Full(vec![], 1000);
    make().write(&mut all).unwrap();
    let n = all.0.len();
    for room in 0..=n {
        let mut w = Full(vec![], room);
        let r = make().write(&mut w);
        check(r.is_ok() == (room == n), &format!("room for {} of {} bytes", room, n));
    }
}
'''),
    dict(id="s11-bad-header", prop="C11", needs="a response with a header value that is not UTF-8",
         breaks="a header which is not UTF-8 is dropped and the response accepted",
         edits=[("puck/src/response/mod.rs", "Err(_) => return Err(ParseResponseError::Utf8Error),", "Err(_) => continue,")],
         demo='''
fn main() {
    check(matches!(Response::parse(conn(b"HTTP/1.1 200 OK\\r\\nA: b\\r\\n\\r\\n")), Ok(Some(_))), "plain");
    check(Response::parse(conn(b"HTTP/1.1 200 OK\\r\\nA: b\\r\\nX: \\xff\\xfe\\r\\n\\r\\n")).is_err(), "a value which is not UTF-8");
}
'''),
    dict(id="s02-short-line", prop="C02", needs="a request or response whose first line has fewer than four bytes",
         breaks="the decoder panics on a first line shorter than four bytes",
         edits=[("puck/src/request/mod.rs", "if idx >= 3 && &buf[idx - 3..=idx] == b\"\\r\\n\\r\\n\" {", "if &buf[idx - 3..=idx] == b\"\\r\\n\\r\\n\" {")],
         demo='''
fn main() {
    for s in [&b"\\n"[..], b"\\r\\n\\r\\n", b"G\\n\\r\\n", b"", b"GET"] {
        let s = s.to_vec();
        check(std::panic::catch_unwind(move || { let _ = Request::parse(conn(&s)); }).is_ok(), "no panic");
    }
}
'''),
]
UP = "puck/src/ws/upgrade.rs"
RO = "puck/src/core/router/mod.rs"
CO = "puck/src/core/mod.rs"
MU = "puck/src/core/router/match_url.rs"
SB = "puck/src/response/builder.rs"
MI = "puck/src/body/mime.rs"
SERVE = '''
use lunatic::stub;
use puck::core::{Core, Stream, UsedStream, router::{Route, Router}};
fn push(s: &TcpStream) { stub::ACCEPTS.with(|a| a.borrow_mut().push_back(stub::Accept::Conn(s.clone()))) }
fn broken_accept() { stub::ACCEPTS.with(|a| a.borrow_mut().push_back(stub::Accept::Err)) }
/// runs the server on the connections pushed
fn run(f: impl FnOnce()) {
    if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        if !p.is::<stub::ScriptEnd>() { std::panic::resume_unwind(p) }
    }
}
fn serve(r: Router<u64>) { run(|| Core::bind("localhost:1", 7u64).unwrap().serve_router(r)) }
fn text(s: &TcpStream) -> String { String::from_utf8_lossy(&s.output()).into_owned() }
'''
SEEDS += [
    dict(id="s06-version-suffix", prop="C06", needs="an Upgrade header which asks for websocket/13 instead of websocket",
         breaks="a request which does not ask for exactly websocket is upgraded",
         edits=[(UP, '.map(|val| val.to_ascii_lowercase() == "websocket")', '.map(|val| val.to_ascii_lowercase().trim_end_matches("/13") == "websocket")')],
         demo='''
fn main() {
    for (value, want) in [("websocket", true), ("WebSocket", true), ("websocket/13", false), ("h2c", false), ("websocket/", false)] {
        let q = Request::build("http://a/").method(puck::request::Method::Get).header("upgrade", value).header("CONNECTION", "keep-alive, upgrade").header("sec-websocket-key", "x").build();
        check(puck::ws::should_upgrade(&q) == want, value);
    }
}
'''),
    dict(id="s12-same-matcher", prop="C12", needs="two routes with the same matcher",
         breaks="adding a route with a matcher that is there already replaces the earlier route instead of coming after it",
         edits=[(RO, "        self.routes.push(route);", "        // a matcher is asked once only\n        let twin = |r: &Route<STATE>| r.matcher as usize == route.matcher as usize;\n        match self.routes.iter().position(twin) {\n            Some(at) => self.routes[at] = route,\n            None => self.routes.push(route),\n        }")],
         demo=SERVE + '''
fn yes(q: &Request) -> bool { q.url().path() != "/no" }
fn also(q: &Request) -> bool { q.url().path() == "/no" }
fn body(t: &str, s: Stream) -> UsedStream { s.respond(Response::build().body(t).build()).unwrap() }
fn first(_: Request, s: Stream, _: u64) -> UsedStream { body("first", s) }
fn second(_: Request, s: Stream, _: u64) -> UsedStream { body("second", s) }
fn main() {
    for (path, want) in [("/a", "first"), ("/no", "second")] {
        let s = conn(format!("GET {} HTTP/1.1\\r\\nHost: a\\r\\n\\r\\n", path).as_bytes());
        push(&s);
        serve(Router::new().route(Route::new(yes, first)).route(Route::new(also, second)).route(Route::new(yes, second)));
        check(text(&s).ends_with(want), &text(&s));
    }
}
'''),
    dict(id="s13-wrapped-integer", prop="C13", needs="a path segment which is an integer beyond 32 bits",
         breaks="an integer segment matches numbers which are no 32-bit integers",
         edits=[(MU, "if actual.parse::<i32>().is_err() {", "if actual.parse::<i64>().map(|n| n as i32).is_err() {")],
         demo='''
use puck::core::router::match_url::*;
fn main() {
    for (t, want) in [("1", true), ("-2147483648", true), ("2147483647", true), ("2147483648", false), ("-2147483649", false), ("4294967297", false), ("x", false)] {
        let u = url::Url::parse(&format!("http://a/n/{}", t)).unwrap();
        check(Match::new().at(path("n")).at(any_integer()).does_match(&u) == want, t);
    }
}
'''),
    dict(id="s14-keep-first", prop="C14", needs="a list of headers with the same name twice, or a name set before",
         breaks="a later value of a response header does not replace the earlier one",
         edits=[(SB, "        self.headers.extend(new_headers);", "        for (key, value) in new_headers {\n            self.headers.entry(key).or_insert(value);\n        }")],
         demo='''
fn main() {
    let r = Response::build().header("a", "1").headers(vec![("b".to_string(), "2".to_string()), ("a".to_string(), "3".to_string())]).build();
    check(r.headers().get("a").map(|x| x.as_str()) == Some("3"), "the later value");
    check(r.headers().get("b").map(|x| x.as_str()) == Some("2"), "the other header");
}
'''),
    dict(id="s15-long-value", prop="C15", needs="a parameter value of more than 256 bytes with characters that have a Rust escape, such as tab",
         breaks="long parameter values are written with Rust's escapes instead of MIME's",
         edits=[(MI, "        } else {\n            let value = value", "        } else if value.0.len() > 256 {\n            write!(f, \";{}={:?}\", name, value.0)?;\n        } else {\n            let value = value")],
         demo='''
mod m {
    include!(concat!(env!("OUT_DIR"), "/mime.rs"));
    pub fn text(v: &str) -> String {
        let own = |s: &str| Cow::Owned(s.to_string());
        Mime { essence: own("a/b"), basetype: own("a"), subtype: own("b"), is_utf8: false, params: vec![(ParamName(own("n")), ParamValue(own(v)))] }.to_string()
    }
}
fn main() {
    for n in [0usize, 1, 100, 300, 5000] {
        let v = format!("\\t{}\\\\", "x".repeat(n));
        check(m::text(&v) == format!("a/b;n=\\"\\t{}\\\\\\\\\\"", "x".repeat(n)), &format!("a value of {} characters", n + 2));
    }
}
''',
         **{"build.rs": '''fn main() {
    let s = std::fs::read_to_string("@REPO@/puck/src/body/mime.rs").unwrap();
    let s: String = s.lines().filter(|l| !l.trim_start().starts_with("//!")).map(|l| format!("{}\\n", l)).collect();
    std::fs::write(format!("{}/mime.rs", std::env::var("OUT_DIR").unwrap()), s).unwrap();
}
'''}),
    dict(id="s23-accept-error", prop="C23", needs="a connection whose accept fails, followed by another one",
         breaks="one failing accept ends the server",
         edits=[(RO, "            let stream = if let Ok((stream, _addr)) = listener.accept() {\n                stream\n            } else {\n                continue;\n            };", "            let stream = match listener.accept() {\n                Ok((stream, _addr)) => stream,\n                Err(_) => return,\n            };")],
         demo=SERVE + '''
fn yes(_: &Request) -> bool { true }
fn ok(_: Request, s: Stream, _: u64) -> UsedStream { s.respond(Response::build().body("ok").build()).unwrap() }
fn main() {
    let s = conn(b"GET / HTTP/1.1\\r\\nHost: a\\r\\n\\r\\n");
    broken_accept();
    push(&s);
    run(|| Router::new().route(Route::new(yes, ok)).run(lunatic::net::TcpListener::bind("localhost:1").unwrap(), 7u64));
    check(text(&s).ends_with("ok"), "the connection after the failing one");
}
'''),
]
