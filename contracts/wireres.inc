// ---------------------------------------------------------------- the wire form of a response
//@item response struct Response
pub open spec fn enc_response(status: u16, reason: Seq<char>, l: HList, body: Seq<u8>) -> Seq<u8> {
    u("HTTP/1.1 "@) + dec(status) + u(" "@) + u(reason) + u("\r\n"@) + enc_lines(l) + u("\r\n"@) + body
}
pub open spec fn dec(n: u16) -> Seq<u8> { u(dec_text(n as nat)) }
impl Response {
    pub open spec fn wire(&self, w: Seq<u8>) -> bool {
        exists|l: HList| #[trigger] lists(self.headers@, l) && ascending(l) && w == enc_response(self.status, self.reason@, l, self.body.rem())
    }
}
