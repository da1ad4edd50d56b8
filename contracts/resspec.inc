pub open spec fn is_response(s: Seq<u8>, n: int, r: Response) -> bool {
    &&& hp_res(s.take(n), MAX_HEADERS as int) is Ok
    &&& {
        let h = hp_res(s.take(n), MAX_HEADERS as int)->Ok_0;
        &&& h.code == Some(r.status)
        &&& h.reason == Some(r.reason@)
        &&& utf8_all(h.headers) && r.headers@ == hdr_map(h.headers)
        &&& body_is(s, n, r.headers@, r.body)
    }
}
// nothing which a response could be made of
pub open spec fn no_response(s: Seq<u8>, n: int) -> bool {
    ||| hp_res(s.take(n), MAX_HEADERS as int) is Err
    ||| {
        let h = hp_res(s.take(n), MAX_HEADERS as int)->Ok_0;
        h.code is None || h.reason is None || !utf8_all(h.headers)
    }
}
// what parsing the bytes `s` may give (`f`: reading may fail)
pub open spec fn response_some(s: Seq<u8>, r: Response) -> bool { exists|n: int| #[trigger] head_is(s, n) && is_response(s, n, r) }
pub open spec fn response_none(s: Seq<u8>) -> bool { no_end(s, s.len() as int) }
pub open spec fn response_err(s: Seq<u8>, f: bool) -> bool { f || exists|n: int| #[trigger] head_is(s, n) && no_response(s, n) }
