//@item response enum ParseResponseError
impl vstd::std_specs::convert::FromSpecImpl<IoError> for ParseResponseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: IoError) -> Self { ParseResponseError::IoError(v) }
}
//@fn response <From<io::Error> for ParseResponseError>::from
//@| props C11
//@end
impl vstd::std_specs::convert::FromSpecImpl<HpError> for ParseResponseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: HpError) -> Self { ParseResponseError::CouldNotParse(v) }
}
//@fn response <From<httparse::Error> for ParseResponseError>::from
//@| props C11
//@end
//@include resspec.inc
//@fn response Response::parse
//@| props C11 C02
//@| opt byvalue option attr:verifier::loop_isolation(false) attr:verifier::allow_complex_invariants
//@| spec
        requires $0.ok(),
        ensures
            res is Ok && res->Ok_0 is Some ==> response_some($0.rem(), res->Ok_0->Some_0), //#C11
            res is Ok && res->Ok_0 is None ==> response_none($0.rem()), //#C11
            res is Err ==> response_err($0.rem(), $0.rfaulty()), //#C11
//@| start
        let ghost s0 = $0.rem();
        proof { lemma_cases(); }
        let ghost f0 = $0.rfaulty();
//@| inv 0
            invariant_except_break no_end(s0, buf@.len() as int),
            invariant
                reader.ok(), reader.rfaulty() == f0,
                buf@.len() <= s0.len(), buf@ == s0.take(buf@.len() as int), reader.rem() == s0.skip(buf@.len() as int),
            ensures
                head_is(s0, buf@.len() as int),
                buf@ == s0.take(buf@.len() as int), reader.rem() == s0.skip(buf@.len() as int),
            decreases reader.rem().len()
//@| loopstart 0
            let ghost k0 = buf@.len() as int;
//@| after bytes_read
            proof {
                let n = bytes_read as int;
                assert(s0.take(k0) + s0.skip(k0).take(n) =~= s0.take(k0 + n));
                assert forall|i: int| k0 <= i < k0 + n - 1 implies s0[i] != 10 by { assert(s0.skip(k0)[i - k0] == s0[i]); }
                lemma_no_end(s0, k0, n);
                let m = k0 + n;
                assert(m >= 4 ==> buf@.subrange(m - 4, m) =~= s0.subrange(m - 4, m));
            }
//@| loopend 0
            proof {
                let m = buf@.len() as int;
                if ends_at(s0, m) { assert(buf@.subrange(m - 4, m) =~= s0.subrange(m - 4, m)); }
                assert(!ends_at(s0, m));
                assert(no_end(s0, m));
            }
//@| afterloop 0
        let ghost n = buf@.len() as int;
        assert(buf@ == s0.take(n));
        assert(buf@.subrange(n - 4, n) =~= crlf2() && s0.subrange(n - 4, n) =~= crlf2());
        assert(head_is(s0, n));
        assert(s0 == $0.rem());
        assert(res.slots == MAX_HEADERS);
        let ghost mut clen: Option<Seq<char>> = None;
//@| iter 1 it
//@| inv 1
            invariant
                it.seq().len() == res.headers@.len(),
                forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == res.headers@[i],
                forall|i: int| 0 <= i < it.index@ ==> valid_utf8((#[trigger] raw(res.headers@)[i]).1),
                $vec@ == hdr_map(raw(res.headers@).take(it.index@ as int)),
            ensures
                utf8_all(raw(res.headers@)),
                $vec@ == hdr_map(raw(res.headers@)),
//@| loopstart 1
            proof { lemma_hdr_map(raw(res.headers@), it.index@ as int); assert(raw(res.headers@)[it.index@ as int] == ($el.name@, $el.value@)); }
//@| iter 2 it2
//@| inv 2
            invariant_except_break $found is None,
            invariant
                lists(headers@, pairs(it2.seq())),
                forall|i: int| 0 <= i < it2.index@ ==> lower((#[trigger] pairs(it2.seq())[i]).0) != lower("content-length"@),
            ensures
                picks(headers@, "content-length"@, found_val($found)),
//@| loopstart 2
            proof { assert(pairs(it2.seq())[it2.index@ as int] == ($x.0@, $x.1@)); }
//@| afterloop 2
        proof { clen = found_val($found); }
//@| result
        proof {
            let r = __res->Ok_0->Some_0;
            let h = hp_res(s0.take(n), MAX_HEADERS as int)->Ok_0;
            assert(utf8_all(h.headers));
            assert(r.headers@ == hdr_map(h.headers));
            assert(picks(headers@, "content-length"@, clen));
            assert(r.body.length == (if clen is Some { usize_of(clen->Some_0) } else { None }));
            assert(content_length(r.headers@, r.body.length));
            assert(s0.skip(n).take(s0.len() - n) =~= s0.skip(n));
            assert(body_is(s0, n, r.headers@, r.body));
            assert(is_response(s0, n, r));
        }
//@end
