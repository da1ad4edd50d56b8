// ---------------------------------------------------------------- the wire form of a request
pub open spec fn enc_line1(m: Method, url: UrlV) -> Seq<u8> {
    u(method_text(m)) + u(" "@) + u(url.path) + (if url.query is Some { u("?"@) + u(url.query->Some_0) } else { Seq::empty() }) + u(" HTTP/1.1\r\n"@)
}
pub open spec fn enc_request(m: Method, url: UrlV, l: HList, body: Seq<u8>) -> Seq<u8> {
    enc_line1(m, url) + enc_lines(l) + u("\r\n"@) + body
}
impl Request {
    pub open spec fn wire(&self, w: Seq<u8>) -> bool {
        exists|l: HList| #[trigger] lists(self.headers@, l) && w == enc_request(self.method, self.url.v(), l, self.body.rem())
    }
}
