use crate::ctx::*;
use crate::refs::*;
use lunatic::net::TcpStream;
use puck::ws::frame::{Frame, OpCode};
use puck::ws::message::{DecodeMessageError, Message};
use puck::ws::websocket::{NextMessageError, WebSocket};

fn op_name(op: u8) -> OpCode {
    match op {
        0 => OpCode::Continue,
        1 => OpCode::Text,
        2 => OpCode::Binary,
        8 => OpCode::Terminate,
        9 => OpCode::Ping,
        10 => OpCode::Pong,
        _ => OpCode::Reserved,
    }
}
pub fn check_decode(case: &mut Case, bytes: &[u8], chunks: &[usize], fault: bool) -> Result<(), String> {
    case.input(format!("stream={} chunks={:?} fault_at_end={} hex={}", show(bytes), chunks, fault, hex(bytes)));
    let s = TcpStream::script(bytes, chunks);
    s.conn.borrow_mut().fail_at_end = fault;
    let got = Frame::parse(s.clone());
    match (decode(bytes), got) {
        (Dec::Bad, Err(_)) => Ok(()),
        (Dec::Bad, Ok(f)) => Err(format!("a frame was decoded from bytes that hold none: {:?}", dbg_frame(&f))),
        (Dec::Frame(r, _), Err(e)) => Err(format!("complete frame {:?} rejected: {:?}", brief(&r), e)),
        (Dec::Frame(r, n), Ok(f)) => {
            ensure(*f.fin() == r.fin, || format!("fin flag {} instead of {}", f.fin(), r.fin))?;
            ensure(*f.op_code() == op_name(r.op), || format!("opcode {:?} for nibble {}", f.op_code(), r.op))?;
            ensure(*f.decoded() == r.payload, || {
                format!("payload {} instead of {}", show(f.decoded()), show(&r.payload))
            })?;
            let d = format!("{:?}", f);
            for (k, name) in ["rsv1", "rsv2", "rsv3"].iter().enumerate() {
                if d.contains(&format!("{}: ", name)) {
                    ensure(d.contains(&format!("{}: {}", name, r.rsv[k])), || format!("{} is not {}", name, r.rsv[k]))?;
                }
            }
            let rest = s.remaining();
            ensure(rest == bytes[n..], || {
                format!("{} bytes left unread on the connection instead of {}", rest.len(), bytes.len() - n)
            })?;
            ensure(f.take_decoded() == r.payload, || "take_decoded differs".into())
        }
    }
}
fn dbg_frame(f: &Frame) -> String {
    clip(&format!("{:?}", f), 200)
}
fn brief(r: &RFrame) -> String {
    format!("fin={} rsv={:?} op={} payload={}", r.fin, r.rsv, r.op, show(&r.payload))
}
const LENS: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 124, 125, 126, 127, 128, 255, 256, 65534, 65535, 65536, 65537, 70001];
fn rlen(r: &mut Rng) -> usize {
    if let Some(n) = r.dict_len() {
        return n;
    }
    match r.below(10) {
        0 => *r.pick(LENS),
        1..=3 => r.range(0, 9),
        4..=6 => r.range(0, 200),
        7 => r.range(120, 135),
        8 => r.range(0, 3000),
        _ => r.range(65530, 65542),
    }
}
fn key(r: &mut Rng) -> [u8; 4] {
    [r.byte(), r.byte(), r.byte(), r.byte()]
}

pub fn c01(c: &mut Ctx) {
    // every first byte x mask bit x length form at small sizes, plus trailing bytes of a next frame
    c.enumerate("header-bytes", 256 * 4, |case, r, i| {
        let b0 = (i % 256) as u8;
        let n = [0usize, 1, 3, 130][(i / 256) as usize];
        let p = r.bytes(n);
        let mut v = encode_masked(b0 & 128 != 0, (b0 >> 4) & 7, b0 & 15, &p, key(r), 0);
        v.extend(r.bytes(9));
        let ch = r.chunks();
        check_decode(case, &v, &ch, false)
    });
    c.enumerate("second-byte", 256, |case, r, i| {
        let mut v = vec![0x80 | (r.byte() & 0x7f), i as u8];
        let ext = match i & 127 {
            126 => {
                let n = r.below(600) as u16;
                v.extend_from_slice(&n.to_be_bytes());
                n as usize
            }
            127 => {
                let n = r.below(600) as u64;
                v.extend_from_slice(&n.to_be_bytes());
                n as usize
            }
            n => n as usize,
        };
        let t = if r.bool() { ext + 4 } else { ext + r.below(30) };
        v.extend(r.bytes(t));
        let ch = r.chunks();
        check_decode(case, &v, &ch, r.bool())
    });
    c.enumerate("lengths", (LENS.len() * 3) as u64, |case, r, i| {
        let n = LENS[i as usize % LENS.len()];
        let p = r.bytes(n);
        let mut v = encode_masked(r.bool(), r.byte() & 7, *r.pick(&[0, 1, 2, 8, 9, 10, 5]), &p, key(r), [0, 2, 8][i as usize / LENS.len()]);
        v.extend(r.bytes(5));
        let ch = r.chunks();
        check_decode(case, &v, &ch, false)
    });
    c.enumerate("truncated", 400, |case, r, i| {
        let n = [0usize, 1, 5, 126, 300][i as usize % 5];
        let p = r.bytes(n);
        let form = *r.pick(&[0, 2, 8]);
        let v = encode_masked(r.bool(), 0, *r.pick(&[1, 2, 9]), &p, key(r), form);
        let cut = if i < 200 { (i as usize / 5) % v.len() } else { r.below(v.len()) };
        let ch = r.chunks();
        check_decode(case, &v[..cut], &ch, r.bool())
    });
    c.enumerate("huge-announced", 60, |case, r, i| {
        let len: u64 = match i % 6 {
            0 => u64::MAX,
            1 => 1 << 63,
            2 => (1 << 63) - 1,
            3 => (1 << 32) + r.below(9) as u64,
            4 => 1 << 40,
            _ => 1 << r.range(31, 62),
        };
        let mut v = vec![r.byte(), 0xff];
        v.extend_from_slice(&len.to_be_bytes());
        let n = r.below(40);
        v.extend(r.bytes(4 + n));
        check_decode(case, &v, &[], r.bool())
    });
    c.family("random-frames", 3000, |case, r, _| {
        let n = rlen(r);
        let p = r.bytes(n);
        let form = *r.pick(&[0, 0, 2, 8]);
        let mut v = encode_masked(r.bool(), r.byte() & 7, r.byte() & 15, &p, key(r), form);
        let t = r.below(60);
        v.extend(r.bytes(t));
        let ch = r.chunks();
        let f = r.bool();
        check_decode(case, &v, &ch, f)
    });
    c.family("random-bytes", 4000, |case, r, _| {
        let n = r.size(0, 39);
        let v = r.bytes(n);
        let ch = r.chunks();
        let f = r.bool();
        check_decode(case, &v, &ch, f)
    });
    c.family("pipelined", 500, |case, r, _| {
        let mut v = vec![];
        let k = r.count(2, 6);
        for _ in 0..k {
            let n = r.size(0, 39);
            let p = r.bytes(n);
            v.extend(encode_masked(r.bool(), r.byte() & 7, r.byte() & 15, &p, key(r), 0));
        }
        let ch = r.chunks();
        case.input(format!("stream={} chunks={:?} hex={}", show(&v), ch, hex(&v)));
        let s = TcpStream::script(&v, &ch);
        let mut pos = 0;
        for j in 0..k {
            let (rf, n) = match decode(&v[pos..]) {
                Dec::Frame(f, n) => (f, n),
                Dec::Bad => unreachable!(),
            };
            pos += n;
            let f = Frame::parse(s.clone()).map_err(|e| format!("frame {} of {} lost: {:?}", j, k, e))?;
            ensure(
                *f.fin() == rf.fin && *f.op_code() == op_name(rf.op) && *f.decoded() == rf.payload,
                || format!("frame {} of {} is {} instead of {}", j, k, dbg_frame(&f), brief(&rf)),
            )?;
        }
        ensure(s.remaining().is_empty(), || "bytes left over".into())
    });
}

fn send(m: Message, short: usize) -> Result<Vec<u8>, String> {
    let s = TcpStream::script(&[], &[]);
    s.conn.borrow_mut().short_writes = short;
    let w = WebSocket::new(s.clone());
    w.send(m).map_err(|e| format!("send failed: {:?}", e))?;
    Ok(s.output())
}
fn diff(got: &[u8], want: &[u8]) -> String {
    format!("bytes on the wire {} (len {}) instead of {} (len {})", show(got), got.len(), show(want), want.len())
}
fn check_encode(case: &mut Case, op: u8, p: &[u8], short: usize) -> Result<(), String> {
    let m = match op {
        1 => Message::Text(String::from_utf8(p.to_vec()).unwrap()),
        2 => Message::Binary(p.to_vec()),
        9 => Message::Ping(if p.is_empty() { None } else { Some(p.to_vec()) }),
        _ => Message::Pong(if p.is_empty() { None } else { Some(p.to_vec()) }),
    };
    case.input(format!("opcode={} payload={} short_writes={} hex={}", op, show(p), short, hex(p)));
    let out = send(m, short)?;
    let want = encode_plain(op, p);
    ensure(out == want, || diff(&out, &want))?;
    // masking the same frame as a client would must decode back to the payload
    let mut masked = out.clone();
    masked[1] |= 0x80;
    let h = out.len() - p.len();
    masked.truncate(h);
    masked.extend_from_slice(&[1, 2, 3, 4]);
    masked.extend(p.iter().enumerate().map(|(i, b)| b ^ [1u8, 2, 3, 4][i % 4]));
    let f = Frame::parse(std::io::Cursor::new(masked)).map_err(|e| format!("own frame does not decode: {:?}", e))?;
    ensure(f.decoded() == p && *f.op_code() == op_name(op) && *f.fin(), || "own frame decodes differently".into())
}
fn text_of(n: usize, r: &mut Rng) -> Vec<u8> {
    (0..n).map(|_| b'a' + r.below(26) as u8).collect()
}
pub fn c03(c: &mut Ctx) {
    c.enumerate("boundary-lengths", (LENS.len() * 4) as u64, |case, r, i| {
        let n = LENS[i as usize % LENS.len()];
        let op = [1, 2, 9, 10][i as usize / LENS.len()];
        let p = if op == 1 { text_of(n, r) } else { r.bytes(n) };
        check_encode(case, op, &p, 0)
    });
    c.enumerate("all-small-lengths", 520, |case, r, i| {
        let p = r.bytes((i / 2) as usize);
        check_encode(case, [2, 9][i as usize % 2], &p, if i % 7 == 0 { 3 } else { 0 })
    });
    c.enumerate("around-64k", 24, |case, r, i| {
        let p = r.bytes(65524 + i as usize);
        check_encode(case, 2, &p, 0)
    });
    c.family("random", 600, |case, r, _| {
        let n = rlen(r);
        let op = *r.pick(&[1, 2, 9, 10]);
        let p = if op == 1 { text_of(n, r) } else { r.bytes(n) };
        let sw = r.below(9);
        check_encode(case, op, &p, sw)
    });
    c.enumerate("some-empty", 2, |case, _, i| {
        case.input(format!("ping/pong with Some(empty payload) {}", i));
        let out = send(if i == 0 { Message::Ping(Some(vec![])) } else { Message::Pong(Some(vec![])) }, 0)?;
        let want = encode_plain([9, 10][i as usize], &[]);
        ensure(out == want, || diff(&out, &want))
    });
    c.enumerate("sequence", 40, |case, r, _| {
        let s = TcpStream::script(&[], &[]);
        let w = WebSocket::new(s.clone());
        let mut want = vec![];
        let k = r.count(2, 5);
        case.input(format!("{} sends in a row", k));
        for _ in 0..k {
            let n = r.size(0, 199);
            let p = r.bytes(n);
            want.extend(encode_plain(2, &p));
            w.send(Message::Binary(p)).map_err(|e| format!("{:?}", e))?;
        }
        ensure(s.output() == want, || diff(&s.output(), &want))
    });
    c.enumerate("write-error", 6, |case, r, i| {
        case.input(format!("write fails {}", i));
        let s = TcpStream::script(&[], &[]);
        s.conn.borrow_mut().write_fail = true;
        let w = WebSocket::new(s.clone());
        let n = r.below(300);
        ensure(w.send(Message::Binary(r.bytes(n))).is_err(), || "send reported success although nothing could be written".into())
    });
    // the transport takes some of the bytes and then no more
    c.enumerate("cut-off", 2 * 9 * 16, |case, r, i| {
        let once = i % 2 == 1;
        let i = i / 2;
        let n = [0usize, 1, 5, 125, 126, 300, 65535, 65536, 70000][i as usize / 16];
        let op = *r.pick(&[1u8, 2, 9, 10]);
        let p = if op == 1 { text_of(n, r) } else { r.bytes(n) };
        let want = encode_plain(op, &p);
        let k = i as usize % 16;
        let lim = if k < 12 { k } else if k < 14 { want.len() - (k - 11) } else { r.below(want.len()) };
        let kind = *r.pick(&[std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::ConnectionReset, std::io::ErrorKind::TimedOut, std::io::ErrorKind::Other]);
        case.input(format!("opcode={} of {} bytes, {} ({:?}) after {} bytes", op, n, if once { "one write fails" } else { "writes fail" }, kind, lim));
        if lim >= want.len() {
            return Ok(());
        }
        let s = TcpStream::script(&[], &[]);
        s.conn.borrow_mut().write_limit = Some(lim);
        s.conn.borrow_mut().write_once = once;
        s.conn.borrow_mut().write_error = Some(kind);
        let m = match op {
            1 => Message::Text(String::from_utf8(p.clone()).unwrap()),
            2 => Message::Binary(p.clone()),
            9 => Message::Ping(Some(p.clone())),
            _ => Message::Pong(Some(p.clone())),
        };
        let res = WebSocket::new(s.clone()).send(m);
        ensure(res.is_err(), || format!("send reported success although only {} of {} bytes were written", lim, want.len()))?;
        ensure(want.starts_with(&s.output()), || diff(&s.output(), &want))
    });
}

fn same(m: &Message, r: &RMsg) -> bool {
    match (m, r) {
        (Message::Text(a), RMsg::Text(b)) => a == b,
        (Message::Binary(a), RMsg::Binary(b)) => a == b,
        // an empty one carries no payload
        (Message::Ping(a), RMsg::Ping(b)) | (Message::Pong(a), RMsg::Pong(b)) => match a {
            Some(a) => !a.is_empty() && a == b,
            None => b.is_empty(),
        },
        _ => false,
    }
}
fn mshow(m: &Message) -> String {
    clip(&format!("{:?}", m), 160)
}
/// A random client script: list of frames.
fn script(r: &mut Rng, allow_bad: bool) -> Vec<u8> {
    let mut v = vec![];
    let k = r.count(1, 4);
    for _ in 0..k {
        let op = *r.pick(&[1u8, 2, 9, 10, 1, 2]);
        let frags = if r.chance(1, 2) { 1 } else { r.count(2, 5) };
        let mut text: Vec<u8> = if r.chance(1, 3) {
            let n = r.size(0, 19);
            r.text("aé€𐍈", n, n + 5).into_bytes()
        } else {
            let n = r.size(0, 29);
            text_of(n, r)
        };
        if op == 2 || r.chance(1, 8) {
            let n = if r.chance(1, 20) { r.range(120, 70000) } else { r.size(0, 39) };
            text = r.bytes(n);
        }
        let mut cuts: Vec<usize> = (0..frags - 1).map(|_| r.below(text.len() + 1)).collect();
        cuts.sort_unstable();
        cuts.push(text.len());
        let mut at = 0;
        for (j, &e) in cuts.iter().enumerate() {
            let mut o = if j == 0 { op } else { 0 };
            if allow_bad && r.chance(1, 15) {
                o = r.byte() & 15;
            }
            let form = *r.pick(&[0, 0, 0, 2, 8]);
            let mut f = encode_masked(j + 1 == cuts.len(), 0, o, &text[at..e], key(r), form);
            if allow_bad && at == e && r.bool() {
                // empty frames may come unmasked
                f = vec![f[0], 0];
            }
            v.extend(f);
            at = e;
        }
    }
    if allow_bad && r.chance(1, 3) {
        v.extend(encode_masked(true, 0, 8, &[3, 232], key(r), 0));
    }
    if allow_bad && r.chance(1, 4) {
        let n = v.len();
        v.truncate(r.range(0, n));
    }
    v
}
pub fn c04(c: &mut Ctx) {
    let run = |case: &mut Case, v: &[u8], ch: &[usize]| -> Result<(), String> {
        case.input(format!("stream={} chunks={:?} hex={}", show(v), ch, hex(v)));
        let s = TcpStream::script(v, ch);
        let mut pos = 0;
        for j in 0..2000 {
            let (want, n) = next_message(&v[pos..]);
            let got = Message::next(s.clone());
            match (&want, &got) {
                (RNext::Msg(a), Ok(b)) if same(b, a) => {}
                (RNext::Close, Err(DecodeMessageError::ClientSentCloseFrame)) => {}
                (RNext::Bad, Err(DecodeMessageError::ClientProtocolViolationError)) => return Ok(()),
                _ => {
                    return Err(format!(
                        "message {}: got {} instead of {}",
                        j,
                        match &got {
                            Ok(m) => mshow(m),
                            Err(e) => format!("{:?}", e),
                        },
                        clip(&format!("{:?}", want), 160)
                    ))
                }
            }
            pos += n;
            ensure(s.remaining() == v[pos..], || format!("message {} consumed the wrong number of bytes", j))?;
        }
        Ok(())
    };
    c.enumerate("two-fragments", 16 * 16 * 4, |case, r, i| {
        let (a, b) = ((i % 16) as u8, (i / 16 % 16) as u8);
        let f = i / 256;
        let mut v = encode_masked(f & 1 == 1, 0, a, b"ab", key(r), 0);
        v.extend(encode_masked(f & 2 == 2, 0, b, b"cd", key(r), 0));
        v.extend(encode_masked(true, 0, 0, b"e", key(r), 0));
        v.extend(encode_masked(true, 0, 1, b"tail", key(r), 0));
        run(case, &v, &[])
    });
    c.enumerate("utf8", 200, |case, r, i| {
        let s = r.text("aé€𐍈\u{7f}\u{80}", 0, 6);
        let mut p = s.into_bytes();
        if i % 2 == 1 && !p.is_empty() {
            let k = r.below(p.len());
            p[k] = r.byte();
        }
        let cut = r.below(p.len() + 1);
        let mut v = encode_masked(cut == p.len(), 0, 1, &p[..cut], key(r), 0);
        if cut < p.len() {
            v.extend(encode_masked(true, 0, 0, &p[cut..], key(r), 0));
        }
        run(case, &v, &[])
    });
    c.enumerate("many-fragments", 10, |case, r, i| {
        let (k, size) = [(64usize, 1usize), (65, 0), (128, 2), (256, 1), (257, 3), (1000, 1), (66000, 0), (3, 700_000), (5, 300_000), (2, 2_500_000)][i as usize];
        let op = *r.pick(&[1u8, 2]);
        let mut v = vec![];
        for j in 0..k {
            let n = if size > 1000 { size } else { r.range(0, size) };
            let p = if op == 1 { text_of(n, r) } else { r.bytes(n) };
            v.extend(encode_masked(j + 1 == k, 0, if j == 0 { op } else { 0 }, &p, key(r), 0));
        }
        v.extend(encode_masked(true, 0, 1, b"tail", key(r), 0));
        case.input(format!("{} fragments, stream={} hex={}", k, show(&v), hex(&v)));
        let s = TcpStream::script(&v, &[]);
        let (want, n) = next_message(&v);
        let got = Message::next(s.clone());
        ensure(matches!((&want, &got), (RNext::Msg(a), Ok(b)) if same(b, a)), || format!("the message is {}", got.map(|m| mshow(&m)).unwrap_or_else(|e| format!("{:?}", e))))?;
        ensure(s.remaining() == v[n..], || "the wrong number of bytes was consumed".into())
    });
    c.family("valid-scripts", 1500, |case, r, _| {
        let v = script(r, false);
        let ch = r.chunks();
        run(case, &v, &ch)
    });
    c.family("wild-scripts", 2500, |case, r, _| {
        let v = script(r, true);
        let ch = r.chunks();
        run(case, &v, &ch)
    });
}

pub fn c05(c: &mut Ctx) {
    let run = |case: &mut Case, v: &[u8], ch: &[usize], end_close: bool, extra: usize| -> Result<(), String> {
        case.input(format!("stream={} chunks={:?} then_close={} hex={}", show(v), ch, end_close, hex(v)));
        let s = TcpStream::script(v, ch);
        let mut w = WebSocket::new(s.clone());
        let mut want_out: Vec<u8> = vec![];
        let mut pos = 0;
        let mut closed = false;
        for j in 0..2000 {
            let (want, n) = next_message(&v[pos..]);
            let got = w.next();
            let got = match got {
                Some(g) => g,
                None => return Err(format!("step {}: the iterator ended", j)),
            };
            if closed {
                ensure(matches!(got, Err(NextMessageError::ConnectionClosed)), || {
                    format!("step {}: {:?} after the connection was closed", j, got)
                })?;
            } else {
                match (&want, &got) {
                    (RNext::Msg(a), Ok(b)) if same(b, a) => {
                        if let RMsg::Ping(p) = a {
                            want_out.extend(encode_plain(10, p));
                        }
                        pos += n;
                    }
                    (RNext::Close, Err(NextMessageError::ConnectionClosed)) => {
                        want_out.extend(encode_plain(8, &[]));
                        pos += n;
                        closed = true;
                    }
                    (RNext::Bad, Err(NextMessageError::ClientError)) => {
                        ensure(s.output() == want_out, || format!("after an error: {}", diff(&s.output(), &want_out)))?;
                        break;
                    }
                    _ => return Err(format!("step {}: {} instead of {}", j, clip(&format!("{:?}", got), 160), clip(&format!("{:?}", want), 160))),
                }
            }
            ensure(s.output() == want_out, || format!("step {}: {}", j, diff(&s.output(), &want_out)))?;
            if closed {
                let rest = s.remaining();
                ensure(rest == v[pos..], || format!("step {}: read on after the close frame", j))?;
                if j > extra + 2 {
                    break;
                }
            }
        }
        if end_close {
            let used = w.close();
            ensure(used.is_ok(), || "close failed".into())?;
            if !closed {
                want_out.extend(encode_plain(8, &[]));
            }
            ensure(s.output() == want_out, || format!("after close(): {}", diff(&s.output(), &want_out)))?;
        }
        Ok(())
    };
    c.enumerate("pings", 140, |case, r, i| {
        let n = if i < 130 { i as usize } else { [126, 127, 200, 1000, 4096, 65535, 65536, 70000, 130, 5000][i as usize - 130] };
        let p = r.bytes(n);
        let mut v = encode_masked(true, 0, 9, &p, key(r), 0);
        v.extend(encode_masked(true, 0, 1, b"x", key(r), 0));
        v.extend(encode_masked(true, 0, 9, b"q", key(r), 0));
        v.extend(encode_masked(true, 0, 8, &[], key(r), 0));
        v.extend(encode_masked(true, 0, 9, b"late", key(r), 0));
        run(case, &v, &[], i % 2 == 0, 1)
    });
    c.enumerate("close-variants", 120, |case, r, i| {
        let mut v = vec![];
        if i % 3 == 1 {
            v.extend(encode_masked(false, 0, 1, b"part", key(r), 0));
        }
        let p = r.bytes((i as usize / 6) % 10);
        v.extend(encode_masked(i % 5 != 0, 0, 8, &p, key(r), 0));
        let n = r.below(3);
        for _ in 0..n {
            v.extend(encode_masked(true, 0, *r.pick(&[1, 8, 9]), b"zz", key(r), 0));
        }
        run(case, &v, &[], i % 2 == 0, 2)
    });
    c.family("scripts", 2500, |case, r, i| {
        let mut v = script(r, i % 3 == 0);
        if i % 3 != 0 && r.chance(2, 3) {
            v.extend(encode_masked(true, 0, 8, &[], key(r), 0));
            v.extend(encode_masked(true, 0, 9, b"after", key(r), 0));
        }
        let ch = r.chunks();
        let ec = r.bool();
        run(case, &v, &ch, ec, 1)
    });
    c.enumerate("copy-of-closed", 12, |case, r, i| {
        let mut v = encode_masked(true, 0, 8, &r.bytes(i as usize % 4), key(r), 0);
        v.extend(encode_masked(true, 0, 9, b"late", key(r), 0));
        case.input(format!("read until closed, make_copy, then {} on the copy, stream={}", if i % 2 == 0 { "next" } else { "close" }, show(&v)));
        let s = TcpStream::script(&v, &[]);
        let mut w = WebSocket::new(s.clone());
        let m = w.next();
        ensure(matches!(m, Some(Err(NextMessageError::ConnectionClosed))), || format!("got {:?}", m))?;
        let mut k = w.make_copy();
        if i % 2 == 0 {
            let m = k.next();
            ensure(matches!(m, Some(Err(NextMessageError::ConnectionClosed))), || format!("the copy got {:?}", m))?;
        } else {
            ensure(k.close().is_ok(), || "close failed".into())?;
        }
        let want = encode_plain(8, &[]);
        ensure(s.output() == want, || diff(&s.output(), &want))
    });
    c.enumerate("copies", 30, |case, r, i| {
        // a copy made before anything happened shares the connection
        let v = encode_masked(true, 0, 9, &r.bytes(i as usize), key(r), 0);
        case.input(format!("make_copy then next, stream={}", show(&v)));
        let s = TcpStream::script(&v, &[]);
        let w = WebSocket::new(s.clone());
        let mut k = w.make_copy();
        let m = k.next();
        ensure(matches!(m, Some(Ok(Message::Ping(_)))), || format!("copy got {:?}", m))?;
        w.send(Message::Binary(vec![1])).map_err(|e| format!("{:?}", e))?;
        let mut want = encode_plain(10, &match decode(&v) {
            Dec::Frame(f, _) => f.payload,
            _ => vec![],
        });
        want.extend(encode_plain(2, &[1]));
        ensure(s.output() == want, || diff(&s.output(), &want))
    });
}
