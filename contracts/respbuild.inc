//@item respbuild struct ResponseBuilder
//@map ResponseBuilder::default() => ResponseBuilder::derived_default()
//@map Self::default() => ResponseBuilder::derived_default()
impl ResponseBuilder {
    // what the derived `Default` gives
    pub fn derived_default() -> (r: ResponseBuilder)
        ensures r.headers@ == Map::<Seq<char>, Seq<char>>::empty(), r.body is None, r.status is None, r.reason is None, r.method is None
    { ResponseBuilder { headers: Headers::new(), body: None, status: None, reason: None, method: None } }
}
//@fn respbuild ResponseBuilder::new
//@| props C14
//@| spec
        ensures res.headers@ == Map::<Seq<char>, Seq<char>>::empty(), res.body is None, res.status is None, res.reason is None, //#C14
//@end
//@fn response Response::build
//@| props C14
//@| spec
        ensures res.headers@ == Map::<Seq<char>, Seq<char>>::empty(), res.body is None, res.status is None, res.reason is None, //#C14
//@end
//@fn respbuild ResponseBuilder::header
//@| props C14
//@| spec
        ensures res.headers@ == self.headers@.insert($0.text(), $1.text()), res.body == self.body, res.status == self.status, res.reason == self.reason, //#C14
//@end
//@fn respbuild ResponseBuilder::headers
//@| props C14
//@| opt pairs
//@| spec
        ensures res.headers@ == put_all(self.headers@, $0.items()), res.body == self.body, res.status == self.status, res.reason == self.reason, //#C14
//@| iter 0 it
//@| inv 0
            invariant
                owned(it.seq()) == $0.items(), __self.headers@ == put_all(self.headers@, $0.items().take(it.index@ as int)),
                __self.body == self.body, __self.status == self.status, __self.reason == self.reason,
//@| loopstart 0
            proof { lemma_put_all(self.headers@, $0.items(), it.index@ as int); }
//@| afterloop 0
        proof { assert($0.items().take($0.items().len() as int) =~= $0.items()); }
//@end
//@fn respbuild ResponseBuilder::body
//@| props C14
//@| spec
        ensures res.body is Some && $0.is_body(res.body->Some_0), res.headers == self.headers, res.status == self.status, res.reason == self.reason, //#C14
//@end
//@fn respbuild ResponseBuilder::status
//@| props C14
//@| spec
        ensures res.status == Some($0) && res.reason is Some && res.reason->Some_0@ == $1.text(), res.headers == self.headers, res.body == self.body, //#C14
//@end
//@fn respbuild ResponseBuilder::build
//@| props C14
//@| spec
        ensures
            res.headers == self.headers, //#C14
            res.status == (if self.status is Some { self.status->Some_0 } else { 200 }), //#C14
            res.reason@ == (if self.reason is Some { self.reason->Some_0@ } else { Seq::empty() }), //#C14
            self.body is Some ==> res.body == self.body->Some_0, //#C14
            self.body is None ==> res.body.holds(Seq::empty(), Mime::bs()), //#C14
//@end
//@fn response Response::copy_content_type_from_body
//@| props C14
//@| spec
        ensures final(self).headers@ == old(self).headers@.insert("Content-Type"@, old(self).body.mime.text()), //#C14
            final(self).body == old(self).body, final(self).status == old(self).status, final(self).reason == old(self).reason, //#C14
//@end
//@fn response Response::replace_body
//@| props C14
//@| spec
        ensures
            res == old(self).body, //#C14 hands back the previous body
            $0.is_body(final(self).body), //#C14 installs the new one
            final(self).headers@ == old(self).headers@.insert("Content-Type"@, final(self).body.mime.text()), //#C14
            final(self).status == old(self).status, final(self).reason == old(self).reason, //#C14
//@end
//@fn response Response::take_body
//@| props C14
//@| spec
        ensures
            res == old(self).body, //#C14
            final(self).body.holds(Seq::empty(), Mime::bs()), //#C14
            final(self).headers@ == old(self).headers@.insert("Content-Type"@, Mime::bs().text()), //#C14
            final(self).status == old(self).status, final(self).reason == old(self).reason, //#C14
//@end
