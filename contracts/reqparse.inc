//@include reqspec.inc
//@item request enum RequestParseError
//@fn request Method::new_from_str
//@| props C09
//@| spec
        ensures method_of($0@, res), //#C09
//@| start
        proof {
            reveal_strlit("get"); reveal_strlit("post"); reveal_strlit("head");
            assert(lower("get"@) =~= "get"@ && lower("post"@) =~= "post"@ && lower("head"@) =~= "head"@);
        }
//@end
impl vstd::std_specs::convert::FromSpecImpl<IoError> for RequestParseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: IoError) -> Self { RequestParseError::IoError(v) }
}
//@fn request <From<std::io::Error> for RequestParseError>::from
//@| props C09
//@end
impl vstd::std_specs::convert::FromSpecImpl<HpError> for RequestParseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: HpError) -> Self { RequestParseError::CouldNotParse(v) }
}
//@fn request <From<httparse::Error> for RequestParseError>::from
//@| props C09
//@end
impl vstd::std_specs::convert::FromSpecImpl<std::str::Utf8Error> for RequestParseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: std::str::Utf8Error) -> Self { RequestParseError::Utf8Error(v) }
}
//@fn request <From<Utf8Error> for RequestParseError>::from
//@| props C09
//@end
//@fn request Request::parse
//@| props C09 C02 C23
//@| opt byvalue option attr:verifier::loop_isolation(false) attr:verifier::allow_complex_invariants
//@| spec
        requires $0.ok(),
        ensures
            res is Ok && res->Ok_0 is Some ==> request_some($0.rem(), res->Ok_0->Some_0), //#C09
            res is Ok && res->Ok_0 is None ==> request_none($0.rem()), //#C09
            res is Err ==> request_err($0.rem(), $0.rfaulty()), //#C09
//@| start
        let ghost s0 = $0.rem();
        let ghost f0 = $0.rfaulty();
        proof { reveal_strlit("/"); assert("/"@ =~= seq!['/']); lemma_cases(); }
//@| inv 0
            invariant_except_break no_end(s0, buf@.len() as int),
            invariant
                reader.ok(), reader.rfaulty() == f0,
                buf@.len() <= s0.len(), buf@ == s0.take(buf@.len() as int), reader.rem() == s0.skip(buf@.len() as int),
            ensures
                head_is(s0, buf@.len() as int),
                buf@ == s0.take(buf@.len() as int), reader.rem() == s0.skip(buf@.len() as int),
            decreases reader.rem().len()
//@| loopstart 0
            let ghost k0 = buf@.len() as int;
//@| after bytes_read
            proof {
                let n = bytes_read as int;
                assert(s0.take(k0) + s0.skip(k0).take(n) =~= s0.take(k0 + n));
                assert forall|i: int| k0 <= i < k0 + n - 1 implies s0[i] != 10 by { assert(s0.skip(k0)[i - k0] == s0[i]); }
                lemma_no_end(s0, k0, n);
                let m = k0 + n;
                assert(m >= 4 ==> buf@.subrange(m - 4, m) =~= s0.subrange(m - 4, m));
            }
//@| loopend 0
            proof {
                let m = buf@.len() as int;
                if ends_at(s0, m) { assert(buf@.subrange(m - 4, m) =~= s0.subrange(m - 4, m)); }
                assert(!ends_at(s0, m));
                assert(no_end(s0, m));
            }
//@| afterloop 0
        let ghost n = buf@.len() as int;
        assert(buf@ == s0.take(n));
        assert(buf@.subrange(n - 4, n) =~= crlf2() && s0.subrange(n - 4, n) =~= crlf2());
        assert(head_is(s0, n));
        assert(s0 == $0.rem());
        assert(req.slots == MAX_HEADERS);
        let ghost mut hv: Seq<char> = Seq::empty();
        let ghost mut clen: Option<Seq<char>> = None;
//@| iter 1 it
//@| inv 1
            invariant
                it.seq().len() == req.headers@.len(),
                forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == req.headers@[i],
                forall|i: int| 0 <= i < it.index@ ==> valid_utf8((#[trigger] raw(req.headers@)[i]).1),
                $vec@ == hdr_map(raw(req.headers@).take(it.index@ as int)),
            ensures
                utf8_all(raw(req.headers@)),
                $vec@ == hdr_map(raw(req.headers@)),
//@| loopstart 1
            proof { lemma_hdr_map(raw(req.headers@), it.index@ as int); assert(raw(req.headers@)[it.index@ as int] == ($el.name@, $el.value@)); }
//@| iter 2 it2
//@| inv 2
            invariant_except_break $found is None,
            invariant
                lists(headers@, pairs(it2.seq())),
                forall|i: int| 0 <= i < it2.index@ ==> lower((#[trigger] pairs(it2.seq())[i]).0) != lower("host"@),
            ensures
                picks(headers@, "host"@, found_val($found)),
//@| loopstart 2
            proof { assert(pairs(it2.seq())[it2.index@ as int] == ($x.0@, $x.1@)); }
//@| afterloop 2
        proof {
            let h = hp_req(s0.take(n), MAX_HEADERS as int)->Ok_0;
            assert(headers@ == hdr_map(h.headers));
            if $found is Some {
                hv = $found->Some_0.1@;
                assert(picks(hdr_map(h.headers), "host"@, Some(hv)));
                if url_of(h, hv) is None { assert(no_request(s0, n)); }
            } else { assert(no_request(s0, n)); }
        }
//@| before body
        proof {
            let h = hp_req(s0.take(n), MAX_HEADERS as int)->Ok_0;
            assert(url_of(h, hv) == Some(url.v()));
            assert(picks(headers@, "host"@, Some(hv)));
        }
//@| iter 3 it3
//@| inv 3
            invariant_except_break $found is None,
            invariant
                lists(headers@, pairs(it3.seq())),
                forall|i: int| 0 <= i < it3.index@ ==> lower((#[trigger] pairs(it3.seq())[i]).0) != lower("content-length"@),
            ensures
                picks(headers@, "content-length"@, found_val($found)),
//@| loopstart 3
            proof { assert(pairs(it3.seq())[it3.index@ as int] == ($x.0@, $x.1@)); }
//@| afterloop 3
        proof { clen = found_val($found); }
//@| result
        proof {
            let r = __res->Ok_0->Some_0;
            let h = hp_req(s0.take(n), MAX_HEADERS as int)->Ok_0;
            assert(method_of(h.method->Some_0, r.method));
            assert(utf8_all(h.headers));
            assert(r.headers@ == hdr_map(h.headers));
            assert(picks(headers@, "content-length"@, clen));
            assert(r.body.length == (if clen is Some { usize_of(clen->Some_0) } else { None }));
            assert(content_length(r.headers@, r.body.length));
            assert(s0.skip(n).take(s0.len() - n) =~= s0.skip(n));
            assert(body_is(s0, n, r.headers@, r.body));
            assert(is_request(s0, n, r));
        }
//@end
