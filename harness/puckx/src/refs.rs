//! Independent reference models, written from the protocol texts, not from puck.

#[derive(Debug, Clone, PartialEq)]
pub struct RFrame {
    pub fin: bool,
    pub rsv: [bool; 3],
    pub op: u8,
    pub payload: Vec<u8>,
}
/// Outcome of decoding the front of a byte string.
#[derive(Debug, Clone, PartialEq)]
pub enum Dec {
    Frame(RFrame, usize),
    Bad,
}
pub fn decode(b: &[u8]) -> Dec {
    if b.len() < 2 {
        return Dec::Bad;
    }
    let (h0, h1) = (b[0], b[1]);
    let mut pos = 2usize;
    let len: u64 = match h1 % 128 {
        126 => {
            if b.len() < pos + 2 {
                return Dec::Bad;
            }
            let v = (b[pos] as u64) * 256 + b[pos + 1] as u64;
            pos += 2;
            v
        }
        127 => {
            if b.len() < pos + 8 {
                return Dec::Bad;
            }
            let mut v = 0u64;
            for k in 0..8 {
                v = v.wrapping_mul(256).wrapping_add(b[pos + k] as u64);
            }
            pos += 8;
            v
        }
        n => n as u64,
    };
    let masked = h1 >= 128;
    if len > 0 && !masked {
        return Dec::Bad;
    }
    let mut key = [0u8; 4];
    if masked {
        if b.len() < pos + 4 {
            return Dec::Bad;
        }
        key.copy_from_slice(&b[pos..pos + 4]);
        pos += 4;
    }
    if ((b.len() - pos) as u64) < len {
        return Dec::Bad;
    }
    let len = len as usize;
    let payload = (0..len).map(|i| b[pos + i] ^ key[i & 3]).collect();
    Dec::Frame(
        RFrame {
            fin: h0 >= 128,
            rsv: [(h0 / 64) % 2 == 1, (h0 / 32) % 2 == 1, (h0 / 16) % 2 == 1],
            op: h0 % 16,
            payload,
        },
        pos + len,
    )
}
/// Minimal-length, unmasked encoding (what a server sends).
pub fn encode_plain(op: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![0x80 | op];
    let n = payload.len();
    if n <= 125 {
        v.push(n as u8);
    } else if n <= 65535 {
        v.push(126);
        v.extend_from_slice(&(n as u16).to_be_bytes());
    } else {
        v.push(127);
        v.extend_from_slice(&(n as u64).to_be_bytes());
    }
    v.extend_from_slice(payload);
    v
}
/// Client side frame; `form` picks the length form (0 = minimal, 2 = 16 bit, 8 = 64 bit).
pub fn encode_masked(fin: bool, rsv: u8, op: u8, payload: &[u8], key: [u8; 4], form: u8) -> Vec<u8> {
    let mut v = vec![((fin as u8) << 7) | ((rsv & 7) << 4) | op];
    let n = payload.len();
    let form = match form {
        2 if n <= 65535 => 2,
        8 => 8,
        _ => {
            if n <= 125 {
                0
            } else if n <= 65535 {
                2
            } else {
                8
            }
        }
    };
    match form {
        0 => v.push(0x80 | n as u8),
        2 => {
            v.push(0x80 | 126);
            v.extend_from_slice(&(n as u16).to_be_bytes());
        }
        _ => {
            v.push(0x80 | 127);
            v.extend_from_slice(&(n as u64).to_be_bytes());
        }
    }
    v.extend_from_slice(&key);
    v.extend(payload.iter().enumerate().map(|(i, b)| b ^ key[i % 4]));
    v
}

#[derive(Debug, Clone, PartialEq)]
pub enum RMsg {
    Ping(Vec<u8>),
    Pong(Vec<u8>),
    Text(String),
    Binary(Vec<u8>),
}
#[derive(Debug, Clone, PartialEq)]
pub enum RNext {
    Msg(RMsg),
    Close,
    Bad,
}
/// Next message at the front of `b` and how many bytes it takes (meaningless for Bad).
pub fn next_message(b: &[u8]) -> (RNext, usize) {
    let mut pos = 0;
    let mut op = 0u8;
    let mut acc: Vec<u8> = vec![];
    let mut first = true;
    loop {
        let f = match decode(&b[pos..]) {
            Dec::Bad => return (RNext::Bad, pos),
            Dec::Frame(f, n) => {
                pos += n;
                f
            }
        };
        if f.op == 8 {
            return (RNext::Close, pos);
        }
        if first {
            op = f.op;
            first = false;
        } else if f.op != 0 {
            return (RNext::Bad, pos);
        }
        acc.extend_from_slice(&f.payload);
        if f.fin {
            let m = match op {
                1 => match String::from_utf8(acc) {
                    Ok(s) => RMsg::Text(s),
                    Err(_) => return (RNext::Bad, pos),
                },
                2 => RMsg::Binary(acc),
                9 => RMsg::Ping(acc),
                10 => RMsg::Pong(acc),
                _ => return (RNext::Bad, pos),
            };
            return (RNext::Msg(m), pos);
        }
    }
}

pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut cc, mut d, mut e] = h;
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b & cc) | (!b & d), 0x5A827999),
                1 => (b ^ cc ^ d, 0x6ED9EBA1),
                2 => ((b & cc) | (b & d) | (cc & d), 0x8F1BBCDC),
                _ => (b ^ cc ^ d, 0xCA62C1D6u32),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wi);
            e = d;
            d = cc;
            cc = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, cc, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0u8; 20];
    for i in 0..5 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}
pub fn base64(data: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in data.chunks(3) {
        let v = ((c[0] as u32) << 16) | ((*c.get(1).unwrap_or(&0) as u32) << 8) | (*c.get(2).unwrap_or(&0) as u32);
        for k in 0..4 {
            if k <= c.len() {
                s.push(A[((v >> (18 - 6 * k)) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
pub fn accept_for(key: &str) -> String {
    base64(&sha1(format!("{}258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key).as_bytes()))
}

/// Does the text denote a 32-bit signed integer (optional sign, at least one digit, in range)?
pub fn is_i32(s: &str) -> bool {
    let b = s.as_bytes();
    let (neg, d) = match b.first() {
        Some(b'-') => (true, &b[1..]),
        Some(b'+') => (false, &b[1..]),
        _ => (false, b),
    };
    if d.is_empty() || !d.iter().all(|c| (b'0'..=b'9').contains(c)) {
        return false;
    }
    let mut v: i64 = 0;
    for c in d {
        v = v * 10 + (*c - b'0') as i64;
        if v > 1 << 40 {
            return false;
        }
    }
    if neg {
        v <= 1 << 31
    } else {
        v < 1 << 31
    }
}

/// Split a response/request head from its body; head includes the blank line.
pub fn split_head(b: &[u8]) -> Option<(String, Vec<u8>)> {
    let p = b.windows(4).position(|w| w == b"\r\n\r\n")?;
    Some((String::from_utf8_lossy(&b[..p + 4]).into_owned(), b[p + 4..].to_vec()))
}
pub fn parse_head(head: &str) -> Option<(String, Vec<(String, String)>)> {
    let h = head.strip_suffix("\r\n\r\n")?;
    let mut it = h.split("\r\n");
    let first = it.next()?.to_string();
    let mut v = vec![];
    for l in it {
        let (k, x) = l.split_once(':')?;
        v.push((k.to_string(), x.strip_prefix(' ').unwrap_or(x).to_string()));
    }
    Some((first, v))
}
