// trusted: the url crate
#[verifier::external_body]
#[derive(Debug)]
pub struct Url { x: u8 }
pub ghost struct UrlV { pub path: Seq<char>, pub query: Option<Seq<char>>, pub rest: Seq<char> }
impl Url {
    pub uninterp spec fn v(&self) -> UrlV;
    #[verifier::external_body]
    pub fn path(&self) -> (r: &str) ensures r@ == self.v().path { unimplemented!() }
    #[verifier::external_body]
    pub fn query(&self) -> (r: Option<&str>) ensures r is Some == self.v().query is Some, r is Some ==> r->Some_0@ == self.v().query->Some_0 { unimplemented!() }
}
#[derive(Debug)]
pub struct ParseError { pub k: u8 }
pub uninterp spec fn url_parse(s: Seq<char>) -> Option<UrlV>;
impl Url {
    #[verifier::external_body]
    pub fn parse(s: &str) -> (r: Result<Url, ParseError>)
        ensures r is Ok <==> url_parse(s@) is Some, r is Ok ==> r->Ok_0.v() == url_parse(s@)->Some_0
    { unimplemented!() }
}
//@item request struct Request
//@item request enum Method
pub open spec fn method_text(m: Method) -> Seq<char> {
    match m { Method::Get => "GET"@, Method::Post => "POST"@, Method::Head => "HEAD"@, Method::OtherMethod(s) => s@ }
}
//@fn request Request::headers
//@| props C14 C09
//@| spec
        ensures res@ == self.headers@, //#C14 C09
//@end
//@fn request Request::method
//@| props C14 C09
//@| spec
        ensures *res == self.method, //#C14 C09
//@end
//@fn request Request::body
//@| props C14
//@| spec
        ensures *res == self.body, //#C14
//@end
//@fn request Request::url
//@| props C14 C09
//@| spec
        ensures res.v() == self.url.v(), //#C14 C09
//@end
