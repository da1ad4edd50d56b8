#![allow(dead_code, unused_imports)]
use lunatic::net::TcpStream;
use puck::ws::{frame::*, message::*, websocket::*};
use puck::{Request, Response, body::Body};
use std::io::{Read, Write};
/// a connection whose peer sends these bytes
fn conn(input: &[u8]) -> TcpStream { TcpStream::script(input, &[]) }
/// ... which arrive in pieces of these sizes
fn pieces(input: &[u8], chunks: &[usize]) -> TcpStream { TcpStream::script(input, chunks) }
/// a masked client frame
fn frame(fin: bool, op: u8, payload: &[u8]) -> Vec<u8> {
    let key = [0x11u8, 0x22, 0x33, 0x44];
    let mut v = vec![if fin { 0x80 } else { 0 } | op];
    let n = payload.len();
    if n < 126 { v.push(0x80 | n as u8) } else if n <= 65535 { v.push(0x80 | 126); v.extend((n as u16).to_be_bytes()) } else { v.push(0x80 | 127); v.extend((n as u64).to_be_bytes()) }
    v.extend(key);
    v.extend(payload.iter().enumerate().map(|(i, b)| b ^ key[i % 4]));
    v
}
fn check(ok: bool, what: &str) {
    if !ok { println!("BROKEN: {}", what); std::process::exit(1) }
}
