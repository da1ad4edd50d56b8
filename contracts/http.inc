// ---------------------------------------------------------------- trusted: text, formatting, maps
//@type HashMap<String, String> => Headers
//@type Box<dyn BufRead + 'static> => DynRead
//@type std::io::Error => IoError
//@type io::Error => IoError
//@type std::io::Result<()> => Result<(), IoError>
//@type io::Result<()> => Result<(), IoError>
//@type std::io::Result<usize> => Result<usize, IoError>
//@type std::io::Result<Vec<u8>> => Result<Vec<u8>, IoError>
//@type std::io::Result<String> => Result<String, IoError>
//@type impl ToString => impl Disp
//@type impl Into<Body> => impl IntoBody
//@type impl Into<String> => impl IntoText
//@type impl BufRead + 'static => impl Read
//@map .to_string() => .disp_string()
//@map .to_owned() => .disp_string()
//@map String::from($$x) => IntoText::into($$x)
//@map HashMap::new() => Headers::new()
//@map HashMap::default() => Headers::new()
//@map HashMap::with_capacity($$n) => Headers::new()
//@map Box::new($$x) => DynRead::new($$x)
//@map BYTE_STREAM => Mime::byte_stream()
//@map std::io::copy($$x) => io_copy($$x)
//@map io::copy($$x) => io_copy($$x)

// what `Display` prints
pub trait Disp { spec fn text(&self) -> Seq<char>;
    fn disp_string(&self) -> (r: String) ensures r@ == self.text();
}
impl Disp for u16 { open spec fn text(&self) -> Seq<char> { dec_text(*self as nat) }
    #[verifier::external_body] fn disp_string(&self) -> (r: String) { self.to_string() } }
impl<'a> Disp for &'a u16 { open spec fn text(&self) -> Seq<char> { dec_text(**self as nat) }
    #[verifier::external_body] fn disp_string(&self) -> (r: String) { self.to_string() } }
impl Disp for String { open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn disp_string(&self) -> (r: String) { self.to_string() } }
impl<'a> Disp for &'a str { open spec fn text(&self) -> Seq<char> { (*self)@ }
    #[verifier::external_body] fn disp_string(&self) -> (r: String) { self.to_string() } }
impl<'a> Disp for &'a String { open spec fn text(&self) -> Seq<char> { (*self)@ }
    #[verifier::external_body] fn disp_string(&self) -> (r: String) { self.to_string() } }
pub trait IntoText: Sized { spec fn itext(&self) -> Seq<char>; fn into(self) -> (r: String) ensures r@ == self.itext(); }
impl IntoText for String { open spec fn itext(&self) -> Seq<char> { self@ }
    fn into(self) -> (r: String) { self } }
impl<'a> IntoText for &'a str { open spec fn itext(&self) -> Seq<char> { (*self)@ }
    #[verifier::external_body] fn into(self) -> (r: String) { self.to_string() } }

// HashMap<String, String>
#[verifier::external_body]
#[verifier::reject_recursive_types]
pub struct Headers { m: std::collections::HashMap<String, String> }
pub type HMap = Map<Seq<char>, Seq<char>>;
pub type HList = Seq<(Seq<char>, Seq<char>)>;
// `s` lists every entry of `m` exactly once
pub open spec fn lists(m: HMap, s: HList) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> s.contains((k, m[k]))
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& s.no_duplicates()
}
pub open spec fn pairs(s: Seq<(&String, &String)>) -> HList { s.map_values(|p: (&String, &String)| (p.0@, p.1@)) }
impl Headers {
    pub uninterp spec fn view(&self) -> HMap;
    #[verifier::external_body]
    pub fn new() -> (r: Headers) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: String) -> (r: Option<String>)
        ensures final(self)@ == old(self)@.insert(k@, v@),
            r == None::<String> <==> !old(self)@.contains_key(k@),
            r is Some ==> r->Some_0@ == old(self)@[k@],
    { unimplemented!() }
    // HashMap iteration: every entry once, in an unspecified order
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: Vec<(&'a String, &'a String)>)
        ensures lists(self@, pairs(r@))
    { unimplemented!() }
}

// Mime types, seen from here; what the constants are written as is C15's contract (unit mime)
#[verifier::external_body]
pub struct Mime { x: u8 }
impl Disp for Mime { uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] fn disp_string(&self) -> (r: String) { unimplemented!() } }
impl Mime {
    pub uninterp spec fn bs() -> Mime;
    #[verifier::external_body]
    pub fn byte_stream() -> (r: Mime) ensures r == Mime::bs(), r.text() == "application/octet-stream"@ { unimplemented!() }
}

// `Box<dyn BufRead>`
#[verifier::external_body]
pub struct DynRead { x: u8 }
impl Duplex for DynRead {
    uninterp spec fn rem(&self) -> Seq<u8>;
    uninterp spec fn out(&self) -> Seq<u8>;
    uninterp spec fn rfaulty(&self) -> bool;
    uninterp spec fn wfaulty(&self) -> bool;
    uninterp spec fn ok(&self) -> bool;
}
impl Read for DynRead {
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
}
impl DynRead {
    #[verifier::external_body]
    pub fn new<R: Duplex>(r: R) -> (d: DynRead)
        ensures d.rem() == r.rem(), d.rfaulty() == r.rfaulty(), d.ok() == r.ok()
    { unimplemented!() }
}
pub trait Bytes { spec fn bytes(&self) -> Seq<u8>; }
impl Bytes for String { open spec fn bytes(&self) -> Seq<u8> { encode_utf8(self@) } }
impl<const N: usize> Bytes for &'static [u8; N] { open spec fn bytes(&self) -> Seq<u8> { (**self)@ } }
impl Bytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
// std::io::Cursor over bytes in memory: never fails
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cursor<T> { t: T }
impl<T: Bytes> Duplex for Cursor<T> {
    uninterp spec fn rem(&self) -> Seq<u8>;
    uninterp spec fn out(&self) -> Seq<u8>;
    open spec fn rfaulty(&self) -> bool { false }
    open spec fn wfaulty(&self) -> bool { true }
    open spec fn ok(&self) -> bool { true }
}
impl<T: Bytes> Cursor<T> {
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Cursor<T>) ensures r.rem() == t.bytes() { unimplemented!() }
}
impl<T: Bytes> Read for Cursor<T> {
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
}
// `&mut buf[a..b]`
#[verifier::external_body]
pub fn sub_mut<'a>(buf: &'a mut [u8], a: usize, b: usize) -> (r: &'a mut [u8])
    requires a <= b <= old(buf)@.len()
    ensures r@ == old(buf)@.subrange(a as int, b as int),
        final(r)@.len() == r@.len(),
        final(buf)@ == old(buf)@.take(a as int) + final(r)@ + old(buf)@.skip(b as int)
{ &mut buf[a..b] }
#[verifier::external_body]
pub fn io_copy(r: &mut impl Read, w: &mut impl Write) -> (res: Result<u64, IoError>)
    requires (*old(r)).ok(),
    ensures
        res is Ok ==> ate(*old(r), *final(r), (*old(r)).rem().len() as int) && wrote(*old(w), *final(w), (*old(r)).rem()),
        res is Err ==> quiet(*old(r), *final(r)) && ((*old(r)).rfaulty() || refused(*old(w), *final(w))),
{ unimplemented!() }
#[verifier::external_body]
pub fn wr_lit(w: &mut impl Write, s: &str) -> (r: Result<(), IoError>)
    ensures r is Ok ==> wrote(*old(w), *final(w), encode_utf8(s@)), r is Err ==> refused(*old(w), *final(w))
{ unimplemented!() }
#[verifier::external_body]
pub fn wr_arg<W: Write, T: Disp>(w: &mut W, x: &T) -> (r: Result<(), IoError>)
    ensures r is Ok ==> wrote(*old(w), *final(w), encode_utf8(x.text())), r is Err ==> refused(*old(w), *final(w))
{ unimplemented!() }
// printed in another way than `{}`: some bytes
#[verifier::external_body]
pub fn wr_other<W: Write, T: ?Sized>(w: &mut W, x: &T) -> (r: Result<(), IoError>)
    ensures r is Ok ==> exists|b: Seq<u8>| #[trigger] wrote(*old(w), *final(w), b), r is Err ==> refused(*old(w), *final(w))
{ unimplemented!() }
// String::len is the number of bytes
pub trait StrLen { spec fn blen(&self) -> nat; fn len_bytes(&self) -> (r: usize) ensures r == self.blen(); }
impl StrLen for String { open spec fn blen(&self) -> nat { encode_utf8(self@).len() }
    #[verifier::external_body] fn len_bytes(&self) -> (r: usize) { self.len() } }

// ---------------------------------------------------------------- Body
//@item body struct Body
impl Body {
    pub open spec fn wf(&self) -> bool { self.reader.ok() && (self.length is Some ==> self.bytes_read <= self.length->Some_0) }
    pub open spec fn left(&self) -> int {
        if self.length is Some { minint(self.length->Some_0 - self.bytes_read, self.reader.rem().len() as int) } else { self.reader.rem().len() as int }
    }
    // a body which has the given bytes and nothing else
    pub open spec fn holds(&self, s: Seq<u8>, m: Mime) -> bool {
        self.wf() && self.rem() == s && self.length == Some(s.len() as usize) && s.len() <= usize::MAX && self.bytes_read == 0
            && self.mime == m && !self.reader.rfaulty()
    }
}
// the bytes a body still yields: its source's, up to the declared length
impl Duplex for Body {
    open spec fn rem(&self) -> Seq<u8> { self.reader.rem().take(self.left()) }
    open spec fn out(&self) -> Seq<u8> { self.reader.out() }
    open spec fn rfaulty(&self) -> bool { self.reader.rfaulty() }
    open spec fn wfaulty(&self) -> bool { self.reader.wfaulty() }
    open spec fn ok(&self) -> bool { self.wf() }
}
pub trait IntoBody: Sized { spec fn is_body(&self, b: Body) -> bool;
    fn into(self) -> (r: Body) ensures self.is_body(r);
}
impl IntoBody for Body {
    open spec fn is_body(&self, b: Body) -> bool { b == *self }
    fn into(self) -> (r: Body) { self }
}
impl IntoBody for String {
    open spec fn is_body(&self, b: Body) -> bool { b.holds(encode_utf8(self@), Mime::bs()) }
    fn into(self) -> (r: Body) { <Body as From<String>>::from(self) }
}
//@fn body <Read for Body>::read
//@| props C08 C02
//@| spec
        ensures
            final(self).length == old(self).length, final(self).mime == old(self).mime,
            res is Ok ==> ate((*old(self)).reader, (*final(self)).reader, res->Ok_0 as int), //#C08 the source is read exactly as far as the caller got bytes
            res is Err ==> final(self).reader.rem().len() <= old(self).reader.rem().len(),
//@| map &mut $x[$a..$b] => sub_mut($x, $a, $b)
//@| start
        let ghost o = old(self).reader.rem();
        let ghost l = old(self).left();
        let ghost ob = buf@;
//@| result
        proof {
            let k = __res->Ok_0 as int;
            assert(self.reader.rem() == o.skip(k));
            assert(self.rem() =~= old(self).rem().skip(k));
            assert(o.take(k) =~= old(self).rem().take(k));
        }
//@end
//@fn body Body::empty
//@| props C08 C14
//@| spec
        ensures res.holds(Seq::empty(), Mime::bs()),
//@| result
        proof { assert(__res.rem() =~= Seq::<u8>::empty()); }
//@end
//@fn body Body::from_reader
//@| props C08 C09 C11
//@| spec
        requires $0.ok(),
        ensures res.wf(), res.reader.rem() == $0.rem(), res.length == $1, res.bytes_read == 0, res.mime == Mime::bs(),
            res.rfaulty() == $0.rfaulty(),
            res.rem() == $0.rem().take(if $1 is Some { minint($1->Some_0 as int, $0.rem().len() as int) } else { $0.rem().len() as int }),
//@end
//@fn body Body::from_string
//@| props C08 C14
//@| map string.len() => string.len_bytes()
//@| spec
        ensures res.holds(encode_utf8($0.text()), Mime::bs()),
//@end
//@fn body Body::into_bytes
//@| props C08 C02
//@| spec
        requires self.wf(),
        ensures res is Ok ==> res->Ok_0@ == self.rem(), res is Err ==> self.rfaulty(),
//@end
//@fn body Body::into_string
//@| props C08 C02
//@| spec
        requires self.wf(),
        ensures res is Ok ==> encode_utf8(res->Ok_0@) == self.rem(), res is Err ==> self.rfaulty() || !valid_utf8(self.rem()),
//@end
impl vstd::std_specs::convert::FromSpecImpl<String> for Body {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: String) -> Self;
}
//@fn body <From<String> for Body>::from
//@| props C08 C14
//@| spec
        ensures res.holds(encode_utf8($0@), Mime::bs()),
//@end
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for Body {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: &'a str) -> Self;
}
//@fn body <From<&str> for Body>::from
//@| props C08 C14
//@| spec
        ensures res.holds(encode_utf8($0@), Mime::bs()),
//@end
//@map HTML => Mime::html()
//@map PLAIN => Mime::plain()
impl Mime {
    pub uninterp spec fn htm() -> Mime;
    #[verifier::external_body]
    pub fn html() -> (r: Mime) ensures r == Mime::htm(), r.text() == "text/html;charset=utf-8"@ { unimplemented!() }
    pub uninterp spec fn pl() -> Mime;
    #[verifier::external_body]
    pub fn plain() -> (r: Mime) ensures r == Mime::pl(), r.text() == "text/plain;charset=utf-8"@ { unimplemented!() }
}
//@map .map(drop) => .discard()
//@map .map(|_| ()) => .discard()
pub trait ResultExt<E>: Sized { spec fn d(&self) -> Result<(), E>; fn discard(self) -> (r: Result<(), E>) ensures r == self.d(); }
impl<T, E> ResultExt<E> for Result<T, E> {
    open spec fn d(&self) -> Result<(), E> { match *self { Ok(_) => Ok(()), Err(e) => Err(e) } }
    fn discard(self) -> (r: Result<(), E>) { match self { Ok(_) => Ok(()), Err(e) => Err(e) } }
}
