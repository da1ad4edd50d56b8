// ---------------------------------------------------------------- trusted: httparse, url, std text functions
//@type httparse::Error => HpError
//@map [httparse::EMPTY_HEADER; $$n] => HpSlots::new($$n)
//@map httparse::Request::new(&mut $h) => HpRequest::new($h)
//@map httparse::Response::new(&mut $h) => HpResponse::new($h)
//@map &$b[$x - $n..=$y] == $lit => bytes_are(&$b, $x - $n, $y, $lit)
#[derive(Debug)]
pub struct HpError { pub k: u8 }
pub struct HpSlots { pub n: usize }
impl HpSlots { pub fn new(n: usize) -> (r: HpSlots) ensures r.n == n { HpSlots { n } } }
#[derive(Copy, Clone)]
pub struct HpHeader<'b> { pub name: &'b str, pub value: &'b [u8] }
pub struct HpRequest<'b> { pub method: Option<&'b str>, pub path: Option<&'b str>, pub version: Option<u8>, pub headers: Vec<HpHeader<'b>>, pub slots: usize }
pub struct HpResponse<'b> { pub code: Option<u16>, pub reason: Option<&'b str>, pub version: Option<u8>, pub headers: Vec<HpHeader<'b>>, pub slots: usize }
pub type RawList = Seq<(Seq<char>, Seq<u8>)>;
pub open spec fn raw(s: Seq<HpHeader>) -> RawList { s.map_values(|h: HpHeader| (h.name@, h.value@)) }
pub ghost struct ReqHead { pub method: Option<Seq<char>>, pub path: Option<Seq<char>>, pub headers: RawList }
pub ghost struct ResHead { pub code: Option<u16>, pub reason: Option<Seq<char>>, pub headers: RawList }
// what httparse says about a head, given room for that many headers
pub uninterp spec fn hp_req(buf: Seq<u8>, slots: int) -> Result<ReqHead, HpError>;
pub uninterp spec fn hp_res(buf: Seq<u8>, slots: int) -> Result<ResHead, HpError>;
pub open spec fn ostr(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub struct HpStatus { pub k: u8 }
impl<'b> HpRequest<'b> {
    #[verifier::external_body]
    pub fn new(s: HpSlots) -> (r: HpRequest<'b>) ensures r.slots == s.n, r.method is None, r.path is None, r.headers@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn parse(&mut self, buf: &'b [u8]) -> (r: Result<HpStatus, HpError>)
        ensures match hp_req(buf@, old(self).slots as int) {
            Ok(h) => r is Ok && h == (ReqHead { method: ostr(final(self).method), path: ostr(final(self).path), headers: raw(final(self).headers@) }),
            Err(e) => r == Err::<HpStatus, HpError>(e),
        }
    { unimplemented!() }
}
impl<'b> HpResponse<'b> {
    #[verifier::external_body]
    pub fn new(s: HpSlots) -> (r: HpResponse<'b>) ensures r.slots == s.n, r.code is None, r.reason is None, r.headers@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn parse(&mut self, buf: &'b [u8]) -> (r: Result<HpStatus, HpError>)
        ensures match hp_res(buf@, old(self).slots as int) {
            Ok(h) => r is Ok && h == (ResHead { code: final(self).code, reason: ostr(final(self).reason), headers: raw(final(self).headers@) }),
            Err(e) => r == Err::<HpStatus, HpError>(e),
        }
    { unimplemented!() }
}
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { stdspec::begins(s, p) }
#[verifier::external_body]
pub fn bytes_are<const N: usize>(b: &Vec<u8>, from: usize, to: usize, l: &[u8; N]) -> (r: bool)
    requires from <= to < b@.len()
    ensures r == (b@.subrange(from as int, to + 1) =~= l@)
{ &b[from..=to] == l }
// BufReader
#[verifier::reject_recursive_types(R)]
#[verifier::external_body]
pub struct BufReader<R> { r: R }
impl<R: Duplex> Duplex for BufReader<R> {
    uninterp spec fn rem(&self) -> Seq<u8>;
    uninterp spec fn out(&self) -> Seq<u8>;
    uninterp spec fn rfaulty(&self) -> bool;
    uninterp spec fn wfaulty(&self) -> bool;
    uninterp spec fn ok(&self) -> bool;
}
impl<R: Read> Read for BufReader<R> {
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
}
impl<R: Read> BufReader<R> {
    #[verifier::external_body]
    pub fn with_capacity(n: usize, r: R) -> (b: BufReader<R>)
        requires n <= alloc_limit(), //#C02
        ensures b.rem() == r.rem(), b.rfaulty() == r.rfaulty(), b.ok() == r.ok()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new(r: R) -> (b: BufReader<R>)
        ensures b.rem() == r.rem(), b.rfaulty() == r.rfaulty(), b.ok() == r.ok()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_until(&mut self, d: u8, v: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        requires (*old(self)).ok(),
        ensures
            r is Err ==> (*old(self)).rfaulty() && quiet(*old(self), *final(self)),
            r is Ok ==> {
                let s = (*old(self)).rem();
                let n = r->Ok_0 as int;
                &&& ate(*old(self), *final(self), n)
                &&& final(v)@ == old(v)@ + s.take(n)
                &&& (n == 0 <==> s.len() == 0)
                &&& (n > 0 ==> s[n - 1] == d || n == s.len())
                &&& (forall|i: int| 0 <= i < n - 1 ==> s[i] != d)
            }
    { unimplemented!() }
}

// ---------------------------------------------------------------- the head
pub open spec fn crlf2() -> Seq<u8> { seq![13u8, 10u8, 13u8, 10u8] }
pub open spec fn ends_at(s: Seq<u8>, n: int) -> bool { 4 <= n <= s.len() && s.subrange(n - 4, n) == crlf2() }
pub open spec fn no_end(s: Seq<u8>, k: int) -> bool { forall|n: int| n <= k ==> !#[trigger] ends_at(s, n) }
// the head of `s` is its first `n` bytes
pub open spec fn head_is(s: Seq<u8>, n: int) -> bool { ends_at(s, n) && no_end(s, n - 1) }
pub open spec fn utf8_all(h: RawList) -> bool { forall|i: int| 0 <= i < h.len() ==> valid_utf8((#[trigger] h[i]).1) }
pub open spec fn hdr_map(h: RawList) -> HMap decreases h.len() {
    if h.len() == 0 { Map::empty() } else { hdr_map(h.drop_last()).insert(h.last().0, decode_utf8(h.last().1)) }
}
pub proof fn lemma_hdr_map(h: RawList, i: int)
    requires 0 <= i < h.len()
    ensures hdr_map(h.take(i + 1)) == hdr_map(h.take(i)).insert(h[i].0, decode_utf8(h[i].1))
{ assert(h.take(i + 1).drop_last() =~= h.take(i)); }
pub open spec fn content_length(m: HMap, l: Option<usize>) -> bool {
    exists|v: Option<Seq<char>>| #[trigger] picks(m, "content-length"@, v) && l == (if v is Some { usize_of(v->Some_0) } else { None })
}
// the body of a message whose head ends at `n`
pub open spec fn body_is(s: Seq<u8>, n: int, m: HMap, b: Body) -> bool {
    &&& b.wf()
    &&& content_length(m, b.length)
    &&& b.bytes_read == 0
    &&& b.reader.rem() == s.skip(n)
    &&& b.rem() == s.skip(n).take(if b.length is Some { minint(b.length->Some_0 as int, s.len() - n) } else { s.len() - n })
}
pub proof fn lemma_no_end(s: Seq<u8>, k: int, n: int)
    requires no_end(s, k), 0 <= k <= k + n <= s.len(), forall|i: int| k <= i < k + n - 1 ==> s[i] != 10
    ensures no_end(s, k + n - 1)
{
    assert forall|m: int| m <= k + n - 1 implies !#[trigger] ends_at(s, m) by {
        if m > k && ends_at(s, m) { assert(s.subrange(m - 4, m)[3] == s[m - 1]); }
    }
}
