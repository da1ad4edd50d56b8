//@include wirereq.inc
//@fn request Method::write
//@| props C10
//@| opt wire
//@| spec
        ensures
            res is Ok ==> wrote(*old($0), *final($0), u(method_text(*self))), //#C10
            res is Err ==> refused(*old($0), *final($0)), //#C10
//@end
proof fn lemma_line1(o: Seq<u8>, m: Method, url: UrlV)
    ensures o + enc_line1(m, url) == (if url.query is Some { o + u(method_text(m)) + u(" "@) + u(url.path) + u("?"@) + u(url.query->Some_0) + u(" HTTP/1.1\r\n"@) }
        else { o + u(method_text(m)) + u(" "@) + u(url.path) + u(" HTTP/1.1\r\n"@) })
{
    if url.query is Some {
        assert(o + enc_line1(m, url) =~= o + u(method_text(m)) + u(" "@) + u(url.path) + u("?"@) + u(url.query->Some_0) + u(" HTTP/1.1\r\n"@));
    } else {
        assert(o + enc_line1(m, url) =~= o + u(method_text(m)) + u(" "@) + u(url.path) + u(" HTTP/1.1\r\n"@));
    }
}
proof fn lemma_sent(r: Request, o: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lined(r.headers@, a, b, false), a == o + enc_line1(r.method, r.url.v()), c == b + u("\r\n"@) + r.body.rem()
    ensures exists|w: Seq<u8>| #[trigger] r.wire(w) && c == o + w
{
    let l = choose|l: HList| #[trigger] lists(r.headers@, l) && b == a + enc_lines(l);
    let w = enc_request(r.method, r.url.v(), l, r.body.rem());
    assert(r.wire(w));
    assert(c =~= o + w);
}
//@fn request Request::write
//@| props C10
//@| opt wire
//@| spec
        requires old(self).body.wf(),
        ensures
            res is Ok ==> exists|w: Seq<u8>| #[trigger] old(self).wire(w) && wrote(*old($0), *final($0), w), //#C10 exactly the wire form
            res is Ok ==> final(self).body.rem().len() == 0, //#C10 the body is empty afterwards
            final(self).headers == old(self).headers && final(self).method == old(self).method && final(self).url == old(self).url, //#C10
            res is Err ==> old(self).body.rfaulty() || (*old($0)).wfaulty(), //#C10
//@| start
        hide(lists);
        hide(dec_text); hide(encode_utf8);
        let ghost out0 = (*$0).out();
//@| beforeloop 0
        let ghost out1 = (*$0).out();
        proof { lemma_line1(out0, self.method, self.url.v()); assert(out1 =~= out0 + enc_line1(self.method, self.url.v())); }
//@| iter 0 it
//@| inv 0
            invariant
                lists(self.headers@, pairs(it.seq())),
                pairs(it.seq()).take(pairs(it.seq()).len() as int) == pairs(it.seq()),
                out1 + enc_lines(pairs(it.seq()).take(it.index@ as int)) == (*$0).out(),
                (*$0).rem() == (*old($0)).rem(), (*$0).rfaulty() == (*old($0)).rfaulty(), (*$0).wfaulty() == (*old($0)).wfaulty(), (*$0).ok() == (*old($0)).ok(),
                *self == *old(self),
            ensures lined(self.headers@, out1, (*$0).out(), false),
//@| loopstart 0
            proof { lemma_enc_lines(pairs(it.seq()), it.index@ as int); }
//@| afterloop 0
        proof { assert(lined(self.headers@, out1, (*$0).out(), false)); }
//@| result
        proof {
            assert(__res is Ok ==> self.body.rem().len() == 0); //#C10 the body is empty afterwards
            let r = *old(self);
            assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] lined(r.headers@, a, b, false)
                && __res is Ok && a == out0 + enc_line1(r.method, r.url.v()) && (*$0).out() == b + u("\r\n"@) + r.body.rem()
                implies exists|w: Seq<u8>| #[trigger] r.wire(w) && (*$0).out() == out0 + w by { lemma_sent(r, out0, a, b, (*$0).out()); }
        }
//@end
