// ---------------------------------------------------------------- trusted: std's comparisons, numbers as text
// `==` of usize, String, &T, Option<T>, HashMap, Vec and derived PartialEq: equal values
pub trait EqV { type V; spec fn v(&self) -> Self::V; }
impl EqV for usize { type V = usize; open spec fn v(&self) -> usize { *self } }
impl EqV for bool { type V = bool; open spec fn v(&self) -> bool { *self } }
impl EqV for String { type V = Seq<char>; open spec fn v(&self) -> Seq<char> { self@ } }
impl EqV for str { type V = Seq<char>; open spec fn v(&self) -> Seq<char> { self@ } }
impl<'a, T: EqV + ?Sized> EqV for &'a T { type V = T::V; open spec fn v(&self) -> T::V { (**self).v() } }
impl<T: EqV> EqV for Option<T> { type V = Option<T::V>; open spec fn v(&self) -> Option<T::V> { match *self { Some(x) => Some(x.v()), None => None } } }
impl EqV for Attrs { type V = HMap; open spec fn v(&self) -> HMap { self@ } }
impl EqV for ListenerRef { type V = (Seq<char>, Seq<char>); open spec fn v(&self) -> (Seq<char>, Seq<char>) { lv(*self) } }
impl EqV for Vec<ListenerRef> { type V = Seq<(Seq<char>, Seq<char>)>; open spec fn v(&self) -> Seq<(Seq<char>, Seq<char>)> { lvs(self@) } }
#[verifier::external_body]
pub fn eqv<T: EqV + ?Sized>(a: &T, b: &T) -> (r: bool) ensures r == (a.v() == b.v()) { unimplemented!() }
pub trait TextEq { spec fn te(&self) -> Seq<char>; fn eq_text(&self, o: &str) -> (r: bool) ensures r == (self.te() == o@); }
impl TextEq for String { open spec fn te(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn eq_text(&self, o: &str) -> (r: bool) { unimplemented!() } }
broadcast use {dec::lemma_dec, dec::axiom_parse_usize};
#[verifier::external_body]
pub fn usize_text(n: usize) -> (r: String) ensures r@ == dec_text(n as nat) { n.to_string() }
// AsRef<str>, of the texts that are passed
pub trait Textual { spec fn tx(&self) -> Seq<char>; fn as_text(&self) -> (r: &str) ensures r@ == self.tx(); }
impl Textual for String { open spec fn tx(&self) -> Seq<char> { self@ } fn as_text(&self) -> (r: &str) { self.as_str() } }
impl Textual for str { open spec fn tx(&self) -> Seq<char> { self@ } fn as_text(&self) -> (r: &str) { self } }
impl<'a, T: Textual + ?Sized> Textual for &'a T { open spec fn tx(&self) -> Seq<char> { (**self).tx() } fn as_text(&self) -> (r: &str) { (**self).as_text() } }
pub trait Owned { spec fn ot(&self) -> Seq<char>; fn text_owned(&self) -> (r: String) ensures r@ == self.ot(); }
impl Owned for String { open spec fn ot(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn text_owned(&self) -> (r: String) { self.clone() } }
//@include loops.inc
//@include words.inc
