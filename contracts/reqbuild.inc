//@type impl AsRef<str> => impl AsText
//@type impl Into<Method> => impl IntoMethod
//@type url::ParseError => ParseError
//@map TryFrom::try_from($$x) => Url::parse($$x)
//@map .map(Ok).unwrap_or(Err($$e)) => .ok_or($$e)
pub trait AsText: Sized { spec fn atext(&self) -> Seq<char>; fn as_ref(&self) -> (r: &str) ensures r@ == self.atext(); }
impl AsText for String { open spec fn atext(&self) -> Seq<char> { self@ } fn as_ref(&self) -> (r: &str) { self.as_str() } }
pub trait IntoMethod: Sized { spec fn method(&self) -> Method; fn into(self) -> (r: Method) ensures r == self.method(); }
impl IntoMethod for Method { open spec fn method(&self) -> Method { *self } fn into(self) -> (r: Method) { self } }
//@item reqbuild struct RequestBuilder
//@item reqbuild enum TryBuildError #[derive(Debug)]
//@fn reqbuild RequestBuilder::try_new
//@| props C14
//@| spec
        ensures
            res is Ok <==> url_parse($0.atext()) is Some, //#C14 an invalid URL is rejected
            res is Ok ==> res->Ok_0.url.v() == url_parse($0.atext())->Some_0 && res->Ok_0.headers@ == Map::<Seq<char>, Seq<char>>::empty()
                && res->Ok_0.method is None && res->Ok_0.body is None, //#C14
//@end
//@fn reqbuild RequestBuilder::new
//@| props C14
//@| spec
        requires url_parse($0.atext()) is Some, // documented to panic otherwise
        ensures res.url.v() == url_parse($0.atext())->Some_0 && res.headers@ == Map::<Seq<char>, Seq<char>>::empty() && res.method is None && res.body is None, //#C14
//@end
//@fn reqbuild RequestBuilder::header
//@| props C14
//@| spec
        ensures res.headers@ == self.headers@.insert($0.itext(), $1.itext()), res.body == self.body, res.method == self.method, res.url == self.url, //#C14
//@end
//@fn reqbuild RequestBuilder::headers
//@| props C14
//@| opt pairs
//@| spec
        ensures res.headers@ == put_all(self.headers@, $0.items()), res.body == self.body, res.method == self.method, res.url == self.url, //#C14
//@| iter 0 it
//@| inv 0
            invariant
                owned(it.seq()) == $0.items(), __self.headers@ == put_all(self.headers@, $0.items().take(it.index@ as int)),
                __self.body == self.body, __self.method == self.method, __self.url == self.url,
//@| loopstart 0
            proof { lemma_put_all(self.headers@, $0.items(), it.index@ as int); }
//@| afterloop 0
        proof { assert($0.items().take($0.items().len() as int) =~= $0.items()); }
//@end
//@fn reqbuild RequestBuilder::body
//@| props C14
//@| spec
        ensures res.body is Some && $0.is_body(res.body->Some_0), res.headers == self.headers, res.method == self.method, res.url == self.url, //#C14
//@end
//@fn reqbuild RequestBuilder::method
//@| props C14
//@| spec
        ensures res.method == Some($0.method()), res.headers == self.headers, res.body == self.body, res.url == self.url, //#C14
//@end
//@fn reqbuild RequestBuilder::try_build
//@| props C14
//@| spec
        ensures
            res is Ok <==> self.method is Some, //#C14
            res is Ok ==> {
                let r = res->Ok_0;
                &&& r.headers == self.headers && r.method == self.method->Some_0 && r.url == self.url
                &&& (self.body is Some ==> r.body == self.body->Some_0)
                &&& (self.body is None ==> r.body.holds(Seq::empty(), Mime::bs()))
            }, //#C14
//@end
//@fn reqbuild RequestBuilder::build
//@| props C14
//@| spec
        requires self.method is Some, // documented to panic otherwise
        ensures
            res.headers == self.headers && res.method == self.method->Some_0 && res.url == self.url, //#C14
            self.body is Some ==> res.body == self.body->Some_0, //#C14
            self.body is None ==> res.body.holds(Seq::empty(), Mime::bs()), //#C14
//@end
//@fn request Request::copy_content_type_from_body
//@| props C14
//@| spec
        ensures final(self).headers@ == old(self).headers@.insert("Content-Type"@, old(self).body.mime.text()), //#C14
            final(self).body == old(self).body, final(self).method == old(self).method, final(self).url == old(self).url, //#C14
//@end
//@fn request Request::replace_body
//@| props C14
//@| spec
        ensures
            res == old(self).body, //#C14 hands back the previous body
            $0.is_body(final(self).body), //#C14 installs the new one
            final(self).headers@ == old(self).headers@.insert("Content-Type"@, final(self).body.mime.text()), //#C14
            final(self).method == old(self).method, final(self).url == old(self).url, //#C14
//@end
//@fn request Request::take_body
//@| props C14
//@| spec
        ensures
            res == old(self).body, //#C14
            final(self).body.holds(Seq::empty(), Mime::bs()), //#C14
            final(self).headers@ == old(self).headers@.insert("Content-Type"@, Mime::bs().text()), //#C14
            final(self).method == old(self).method, final(self).url == old(self).url, //#C14
//@end
