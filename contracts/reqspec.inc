//@item request const NEW_LINE
//@item request const MAX_HEADERS
// at least twenty headers are understood
proof fn room_for_headers()
    ensures MAX_HEADERS >= 20 //#C09 C11
{}
pub open spec fn method_of(t: Seq<char>, m: Method) -> bool {
    if lower(t) == "get"@ { m is Get } else if lower(t) == "post"@ { m is Post } else if lower(t) == "head"@ { m is Head }
    else { m is OtherMethod && m->OtherMethod_0@ == t }
}
// the text from which the URL is formed
pub open spec fn url_text(path: Seq<char>, host: Seq<char>, method: Seq<char>) -> Option<Seq<char>> {
    if starts(path, "http://"@) || starts(path, "https://"@) { Some(path) }
    else if starts(path, seq!['/']) { Some("http://"@ + host + path) }
    else if lower(method) == lower("connect"@) { Some("http://"@ + host + "/"@) }
    else { None }
}
pub open spec fn url_of(h: ReqHead, host: Seq<char>) -> Option<UrlV> {
    if h.path is Some && h.method is Some && url_text(h.path->Some_0, host, h.method->Some_0) is Some {
        url_parse(url_text(h.path->Some_0, host, h.method->Some_0)->Some_0)
    } else { None }
}
pub open spec fn is_request(s: Seq<u8>, n: int, r: Request) -> bool {
    &&& hp_req(s.take(n), MAX_HEADERS as int) is Ok
    &&& {
        let h = hp_req(s.take(n), MAX_HEADERS as int)->Ok_0;
        &&& h.method is Some && method_of(h.method->Some_0, r.method)
        &&& utf8_all(h.headers) && r.headers@ == hdr_map(h.headers)
        &&& exists|host: Seq<char>| #[trigger] picks(r.headers@, "host"@, Some(host)) && url_of(h, host) == Some(r.url.v())
        &&& body_is(s, n, r.headers@, r.body)
    }
}
// nothing which a request could be made of
pub open spec fn no_request(s: Seq<u8>, n: int) -> bool {
    ||| hp_req(s.take(n), MAX_HEADERS as int) is Err
    ||| {
        let h = hp_req(s.take(n), MAX_HEADERS as int)->Ok_0;
        ||| h.method is None
        ||| h.path is None
        ||| !utf8_all(h.headers)
        ||| picks(hdr_map(h.headers), "host"@, None)
        ||| exists|host: Seq<char>| #[trigger] picks(hdr_map(h.headers), "host"@, Some(host)) && url_of(h, host) is None
    }
}
// what parsing the bytes `s` may give (`f`: reading may fail)
pub open spec fn request_some(s: Seq<u8>, r: Request) -> bool { exists|n: int| #[trigger] head_is(s, n) && is_request(s, n, r) }
pub open spec fn request_none(s: Seq<u8>) -> bool { no_end(s, s.len() as int) }
pub open spec fn request_err(s: Seq<u8>, f: bool) -> bool { f || exists|n: int| #[trigger] head_is(s, n) && no_request(s, n) }
