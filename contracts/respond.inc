//@include wireres.inc
//@item encoder struct Encoder
//@fn encoder Encoder::new
//@| props C07
//@| spec
        ensures res.response == $0,
//@end
pub open spec fn enc_head(status: u16, reason: Seq<char>) -> Seq<u8> { u("HTTP/1.1 "@) + dec(status) + u(" "@) + u(reason) + u("\r\n"@) }
proof fn lemma_sent_response(r: Response, o: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lined(r.headers@, a, b, true), a == o + enc_head(r.status, r.reason@), c == b + u("\r\n"@) + r.body.rem()
    ensures exists|w: Seq<u8>| #[trigger] r.wire(w) && c == o + w
{
    let l = choose|l: HList| #[trigger] lists(r.headers@, l) && ascending(l) && b == a + enc_lines(l);
    let w = enc_response(r.status, r.reason@, l, r.body.rem());
    assert(r.wire(w));
    assert(c =~= o + w);
}
//@fn encoder Encoder::write_tcp_stream
//@| props C07
//@| opt wire
//@| spec
        requires old(self).response.body.wf(),
        ensures
            res is Ok ==> exists|w: Seq<u8>| #[trigger] old(self).response.wire(w) && wrote(*old($0), *final($0), w), //#C07 exactly the wire form
            res is Err ==> old(self).response.body.rfaulty() || refused(*old($0), *final($0)), //#C07
//@| start
        let ghost out0 = (*$0).out();
        proof {
            assert forall|a: HList, b: HList| #[trigger] lists(self.response.headers@, a) && #[trigger] same_entries(a, b) implies lists(self.response.headers@, b) by { lemma_lists_sorted(self.response.headers@, a, b); }
        }
//@| beforeloop 0
        let ghost out1 = (*$0).out();
        proof { assert(out1 =~= out0 + enc_head(self.response.status, self.response.reason@)); }
//@| iter 0 it
//@| inv 0
            invariant
                lists(self.response.headers@, pairs(it.seq())),
                ascending(pairs(it.seq())), //#C07 in order of the names
                pairs(it.seq()).take(pairs(it.seq()).len() as int) == pairs(it.seq()),
                out1 + enc_lines(pairs(it.seq()).take(it.index@ as int)) == (*$0).out(),
                (*$0).rem() == (*old($0)).rem(), (*$0).rfaulty() == (*old($0)).rfaulty(), (*$0).wfaulty() == (*old($0)).wfaulty(), (*$0).ok() == (*old($0)).ok(),
                self.response == old(self).response,
            ensures lined(self.response.headers@, out1, (*$0).out(), true),
//@| loopstart 0
            proof { lemma_enc_lines(pairs(it.seq()), it.index@ as int); }
//@| afterloop 0
        proof { assert(lined(self.response.headers@, out1, (*$0).out(), true)); }
//@| result
        proof {
            let r = old(self).response;
            assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] lined(r.headers@, a, b, true)
                && __res is Ok && a == out0 + enc_head(r.status, r.reason@) && (*$0).out() == b + u("\r\n"@) + r.body.rem()
                implies exists|w: Seq<u8>| #[trigger] r.wire(w) && (*$0).out() == out0 + w by { lemma_sent_response(r, out0, a, b, (*$0).out()); }
        }
//@end
pub open spec fn is_err(r: Response, status: u16, reason: Seq<char>) -> bool {
    &&& r.status == status
    &&& r.reason@ == reason
    &&& r.body.wf() && !r.body.rfaulty() && r.body.length == Some(r.body.rem().len() as usize)
}
//@fn lib err_404
//@| props C07
//@| spec
        ensures is_err(res, 404, "not found"@), res.headers@ == Map::empty().insert("Content-Type"@, "text/html;charset=utf-8"@),
//@end
//@fn lib err_400
//@| props C06 C07 C23
//@| spec
        ensures is_err(res, 400, "bad request"@), res.headers@ == Map::empty().insert("Content-Type"@, "text/html;charset=utf-8"@), //#C06 C23
//@end
//@fn lib write_response
//@| props C07 C06
//@| spec
        requires $0.body.wf(), !$0.body.rfaulty(), !(*old($1)).wfaulty(),
        ensures exists|w: Seq<u8>| #[trigger] $0.wire(w) && wrote(*old($1), *final($1), w), //#C07 C06
//@end
//@item core struct Stream
//@item core struct UsedStream
//@map self.stream.clone() => (&mut self.stream)
//@fn core Stream::new
//@| props C07 C23
//@| spec
        ensures res == (Stream { stream: $0, keep_alive: $1 }),
//@end
//@fn core UsedStream::empty
//@| props C06
//@| spec
        ensures res.stream is None,
//@end
// `s` was written to the connection and nothing else
pub open spec fn sent(a: TcpStream, r: UsedStream, s: Response) -> bool {
    r.stream is Some && exists|w: Seq<u8>| #[trigger] s.wire(w) && wrote(a, r.stream->Some_0, w)
}
//@fn core Stream::respond
//@| props C07 C23
//@| opt selfmut
//@| spec
        requires $0.body.wf(),
        ensures
            res is Ok ==> sent(self.stream, res->Ok_0, $0) && res->Ok_0.keep_alive == self.keep_alive, //#C07 C23
            res is Err ==> $0.body.rfaulty() || self.stream.wfaulty(), //#C07
//@end
