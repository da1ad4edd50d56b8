// ---------------------------------------------------------------- assumed: functions of std, by their documentation
// None of the code as it stands needs all of these: they are here so that code which comes to use
// them is still verified.
//@include dec.inc
//@map std::cmp::min($$x) => least($$x)
//@map cmp::min($$x) => least($$x)
//@map std::cmp::max($$x) => greatest($$x)
//@map cmp::max($$x) => greatest($$x)
pub fn least<T: Order>(a: T, b: T) -> (r: T) ensures r == (if a.le(&b) { a } else { b }) { if a.leq(&b) { a } else { b } }
pub fn greatest<T: Order>(a: T, b: T) -> (r: T) ensures r == (if b.lt(&a) { a } else { b }) { if b.less(&a) { a } else { b } }
pub trait Order: Sized {
    spec fn le(&self, o: &Self) -> bool;
    spec fn lt(&self, o: &Self) -> bool;
    fn leq(&self, o: &Self) -> (r: bool) ensures r == self.le(o);
    fn less(&self, o: &Self) -> (r: bool) ensures r == self.lt(o);
}
impl Order for usize { open spec fn le(&self, o: &Self) -> bool { *self <= *o } open spec fn lt(&self, o: &Self) -> bool { *self < *o }
    fn leq(&self, o: &Self) -> (r: bool) { *self <= *o } fn less(&self, o: &Self) -> (r: bool) { *self < *o } }
impl Order for u64 { open spec fn le(&self, o: &Self) -> bool { *self <= *o } open spec fn lt(&self, o: &Self) -> bool { *self < *o }
    fn leq(&self, o: &Self) -> (r: bool) { *self <= *o } fn less(&self, o: &Self) -> (r: bool) { *self < *o } }
pub use stdspec::{lower, lower_c, upper, upper_c, has_text_in};
pub mod stdspec {
#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::std_specs::cmp::*;
use core::str::pattern::{Pattern, ReverseSearcher};
pub open spec fn lower_c(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u8 + 32) as u8) as char } else { c } }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower_c(c)) }
pub open spec fn upper_c(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u8 - 32) as u8) as char } else { c } }
pub open spec fn upper(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| upper_c(c)) }
pub open spec fn begins(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn finishes(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub open spec fn has_text_in(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.subrange(i, i + p.len()) == p }
// White_Space of Unicode; its ASCII part is known
pub uninterp spec fn white(c: char) -> bool;
pub broadcast axiom fn axiom_white(c: char)
    ensures (c as u32) < 128 ==> (#[trigger] white(c) <==> c == ' ' || ('\t' <= c && c <= '\r'));
pub open spec fn trimmed(s: Seq<char>, r: Seq<char>, front: bool, back: bool) -> bool {
    exists|i: int, j: int| {
        &&& 0 <= i <= j <= s.len() && r == #[trigger] s.subrange(i, j)
        &&& (forall|k: int| 0 <= k < i ==> white(#[trigger] s[k]))
        &&& (forall|k: int| j <= k < s.len() ==> white(#[trigger] s[k]))
        &&& (front || i == 0) && (back || j == s.len())
        &&& (front && i < j ==> !white(s[i])) && (back && i < j ==> !white(s[j - 1]))
    }
}
pub assume_specification[ str::trim ](s: &str) -> (r: &str) ensures trimmed(s@, r@, true, true);
pub assume_specification[ str::trim_start ](s: &str) -> (r: &str) ensures trimmed(s@, r@, true, false);
pub assume_specification[ str::trim_end ](s: &str) -> (r: &str) ensures trimmed(s@, r@, false, true);
pub assume_specification[ str::to_ascii_lowercase ](s: &str) -> (r: String) ensures r@ == lower(s@);
pub assume_specification[ str::to_ascii_uppercase ](s: &str) -> (r: String) ensures r@ == upper(s@);
pub assume_specification[ str::eq_ignore_ascii_case ](s: &str, o: &str) -> (r: bool) ensures r == (lower(s@) == lower(o@));
// the full mappings of Unicode: what they give for ASCII is known
pub uninterp spec fn ulower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn uupper(s: Seq<char>) -> Seq<char>;
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub broadcast axiom fn axiom_ulower(s: Seq<char>) ensures ascii(s) ==> #[trigger] ulower(s) == lower(s);
pub broadcast axiom fn axiom_uupper(s: Seq<char>) ensures ascii(s) ==> #[trigger] uupper(s) == upper(s);
pub assume_specification[ str::to_lowercase ](s: &str) -> (r: String) ensures r@ == ulower(s@);
pub assume_specification[ str::to_uppercase ](s: &str) -> (r: String) ensures r@ == uupper(s@);
pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures r == encode_utf8(s@).len();
pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == encode_utf8(s@);
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();

// what a pattern matches: known for texts and characters, a function of both for anything else
pub uninterp spec fn p_begins<P>(p: P, s: Seq<char>) -> bool;
pub uninterp spec fn p_finishes<P>(p: P, s: Seq<char>) -> bool;
pub uninterp spec fn p_has<P>(p: P, s: Seq<char>) -> bool;
pub uninterp spec fn p_size<P>(p: P, s: Seq<char>, front: bool) -> int;
pub uninterp spec fn p_find<P>(p: P, s: Seq<char>) -> Option<usize>;
pub uninterp spec fn p_trim<P>(p: P, s: Seq<char>, front: bool) -> Seq<char>;
pub uninterp spec fn p_replace<P>(p: P, s: Seq<char>, t: Seq<char>) -> Seq<char>;
pub broadcast axiom fn axiom_begins_text<'a>(p: &'a str, s: Seq<char>) ensures #[trigger] p_begins::<&'a str>(p, s) == begins(s, p@);
pub broadcast axiom fn axiom_begins_string<'a>(p: &'a String, s: Seq<char>) ensures #[trigger] p_begins::<&'a String>(p, s) == begins(s, p@);
pub broadcast axiom fn axiom_begins_char(p: char, s: Seq<char>) ensures #[trigger] p_begins::<char>(p, s) == (s.len() > 0 && s[0] == p), p_begins::<char>(p, s) == begins(s, seq![p]);
pub broadcast axiom fn axiom_finishes_text<'a>(p: &'a str, s: Seq<char>) ensures #[trigger] p_finishes::<&'a str>(p, s) == finishes(s, p@);
pub broadcast axiom fn axiom_finishes_char(p: char, s: Seq<char>) ensures #[trigger] p_finishes::<char>(p, s) == (s.len() > 0 && s.last() == p), p_finishes::<char>(p, s) == finishes(s, seq![p]);
pub broadcast axiom fn axiom_has_text<'a>(p: &'a str, s: Seq<char>) ensures #[trigger] p_has::<&'a str>(p, s) == has_text_in(s, p@);
pub broadcast axiom fn axiom_has_char(p: char, s: Seq<char>) ensures #[trigger] p_has::<char>(p, s) == s.contains(p);
pub broadcast axiom fn axiom_size_text<'a>(p: &'a str, s: Seq<char>, f: bool) ensures #[trigger] p_size::<&'a str>(p, s, f) == p@.len();
pub broadcast axiom fn axiom_size_char(p: char, s: Seq<char>, f: bool) ensures #[trigger] p_size::<char>(p, s, f) == 1;
pub broadcast axiom fn axiom_find<P>(p: P, s: Seq<char>) ensures (#[trigger] p_find::<P>(p, s) is Some) == p_has(p, s);
pub assume_specification<P: Pattern>[ str::starts_with ](s: &str, p: P) -> (r: bool) ensures r == p_begins(p, s@);
pub assume_specification<P: Pattern>[ str::ends_with ](s: &str, p: P) -> (r: bool) where for<'a> P::Searcher<'a>: ReverseSearcher<'a> ensures r == p_finishes(p, s@);
pub assume_specification<P: Pattern>[ str::contains ](s: &str, p: P) -> (r: bool) ensures r == p_has(p, s@);
pub assume_specification<P: Pattern>[ str::find ](s: &str, p: P) -> (r: Option<usize>) ensures r == p_find(p, s@);
pub assume_specification<'b, P: Pattern>[ str::strip_prefix ](s: &'b str, p: P) -> (r: Option<&'b str>)
    ensures r is Some == p_begins(p, s@), r is Some ==> 0 <= p_size(p, s@, true) <= s@.len() && r->Some_0@ == s@.skip(p_size(p, s@, true));
pub assume_specification<'b, P: Pattern>[ str::strip_suffix ](s: &'b str, p: P) -> (r: Option<&'b str>) where for<'a> P::Searcher<'a>: ReverseSearcher<'a>
    ensures r is Some == p_finishes(p, s@), r is Some ==> 0 <= p_size(p, s@, false) <= s@.len() && r->Some_0@ == s@.take(s@.len() - p_size(p, s@, false));
pub assume_specification<'b, P: Pattern>[ str::trim_start_matches ](s: &'b str, p: P) -> (r: &'b str) ensures r@ == p_trim(p, s@, true);
pub assume_specification<'b, P: Pattern>[ str::trim_end_matches ](s: &'b str, p: P) -> (r: &'b str) where for<'a> P::Searcher<'a>: ReverseSearcher<'a> ensures r@ == p_trim(p, s@, false);
pub assume_specification<P: Pattern>[ str::replace ](s: &str, p: P, t: &str) -> (r: String) ensures r@ == p_replace(p, s@, t@);
// the first place where the text is, if any
pub open spec fn split_at_first(s: Seq<char>, p: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool {
    &&& s == a + p + b
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] s.subrange(i, i + p.len()) != p
}
pub uninterp spec fn p_split<P>(p: P, s: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool;
pub broadcast axiom fn axiom_split_text<'a>(p: &'a str, s: Seq<char>, a: Seq<char>, b: Seq<char>) ensures #[trigger] p_split::<&'a str>(p, s, a, b) == split_at_first(s, p@, a, b);
pub broadcast axiom fn axiom_split_char(p: char, s: Seq<char>, a: Seq<char>, b: Seq<char>) ensures #[trigger] p_split::<char>(p, s, a, b) == split_at_first(s, seq![p], a, b);
pub assume_specification<'b, P: Pattern>[ str::split_once ](s: &'b str, p: P) -> (r: Option<(&'b str, &'b str)>)
    ensures r is Some == p_has(p, s@), r is Some ==> p_split(p, s@, r->Some_0.0@, r->Some_0.1@);

// comparing a text with a string
pub broadcast axiom fn axiom_eq_string_ref<'a>(a: &String, b: &&'a str) ensures #[trigger] <String as PartialEqSpec<&'a str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_obeys_string_ref<'a>() ensures #[trigger] <String as PartialEqSpec<&'a str>>::obeys_eq_spec();
pub broadcast axiom fn axiom_eq_ref_string<'a>(b: &String, a: &&'a str) ensures #[trigger] <&'a str as PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_obeys_ref_string<'a>() ensures #[trigger] <&'a str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn axiom_eq_string_text(a: &String, b: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_obeys_string_text() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn axiom_eq_text_string(b: &String, a: &str) ensures #[trigger] <str as PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_obeys_text_string() ensures #[trigger] <str as PartialEqSpec<String>>::obeys_eq_spec();

// numbers in texts
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: std::str::FromStr;
    type Err;
    fn from_str(s: &str) -> Result<Self, Self::Err>;
}
pub uninterp spec fn parsed<F>(s: Seq<char>) -> Option<F>;
pub assume_specification<F: std::str::FromStr>[ str::parse::<F> ](s: &str) -> (r: Result<F, F::Err>)
    ensures r is Ok == parsed::<F>(s@) is Some, r is Ok ==> Some(r->Ok_0) == parsed::<F>(s@);

// ------------------------------------------------ Option, Result, bool
pub assume_specification<T, F: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is Some ==> f.requires((&o->Some_0,))
    ensures o is None ==> r is None, o is Some && r is Some ==> r == o && f.ensures((&o->Some_0,), true), o is Some && r is None ==> f.ensures((&o->Some_0,), false);
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->Some_0,)) ensures o is None ==> r == d, o is Some ==> f.ensures((o->Some_0,), r);
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else ](o: Option<T>, d: D, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->Some_0,)), o is None ==> d.requires(()) ensures o is None ==> d.ensures((), r), o is Some ==> f.ensures((o->Some_0,), r);
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->Some_0,)) ensures o is None ==> !r, o is Some ==> f.ensures((o->Some_0,), r);
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_none_or ](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->Some_0,)) ensures o is None ==> r, o is Some ==> f.ensures((o->Some_0,), r);
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o is Some { o } else { p });
pub assume_specification<T, U>[ Option::<T>::and ](o: Option<T>, p: Option<U>) -> (r: Option<U>) ensures r == (if o is Some { p } else { None::<U> });
pub assume_specification<T>[ Option::<T>::xor ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None::<T> });
pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()) ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>) ensures r is Some == o is Some, o is Some ==> r->Some_0 == *o->Some_0;
pub assume_specification<T, U>[ Option::<T>::zip ](o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if o is Some && p is Some { Some((o->Some_0, p->Some_0)) } else { None::<(T, U)> });
pub assume_specification<T, E, U, F: FnOnce(T) -> U>[ Result::<T, E>::map_or ](o: Result<T, E>, d: U, f: F) -> (r: U)
    requires o is Ok ==> f.requires((o->Ok_0,)) ensures o is Err ==> r == d, o is Ok ==> f.ensures((o->Ok_0,), r);
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](o: Result<T, E>, d: T) -> (r: T) ensures r == (match o { Ok(t) => t, Err(_) => d });
pub assume_specification<T: Default, E>[ Result::<T, E>::unwrap_or_default ](o: Result<T, E>) -> (r: T) ensures o is Ok ==> r == o->Ok_0, o is Err ==> T::default.ensures((), r);
pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else ](o: Result<T, E>, f: F) -> (r: T)
    requires o is Err ==> f.requires((o->Err_0,)) ensures o is Ok ==> r == o->Ok_0, o is Err ==> f.ensures((o->Err_0,), r);
pub assume_specification<T, E, F: FnOnce(T) -> bool>[ Result::<T, E>::is_ok_and ](o: Result<T, E>, f: F) -> (r: bool)
    requires o is Ok ==> f.requires((o->Ok_0,)) ensures o is Err ==> !r, o is Ok ==> f.ensures((o->Ok_0,), r);
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then ](o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o is Ok ==> f.requires((o->Ok_0,)) ensures o is Err ==> r == Err::<U, E>(o->Err_0), o is Ok ==> f.ensures((o->Ok_0,), r);
pub assume_specification<T>[ bool::then_some ](b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None::<T> });
pub assume_specification<T: PartialEq>[ <[T]>::contains ](v: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == (exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).eq_spec(x));
pub assume_specification<T>[ <[T]>::reverse ](v: &mut [T]) ensures final(v)@ == old(v)@.reverse();

// ------------------------------------------------ characters and bytes
pub open spec fn digit_c(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn alpha_c(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub assume_specification[ u8::is_ascii_digit ](c: &u8) -> (r: bool) ensures r == (0x30 <= *c <= 0x39);
pub assume_specification[ u8::is_ascii ](c: &u8) -> (r: bool) ensures r == (*c < 128);
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == digit_c(*c);
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool) ensures r == alpha_c(*c);
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool) ensures r == (digit_c(*c) || alpha_c(*c));
pub assume_specification[ char::is_ascii_uppercase ](c: &char) -> (r: bool) ensures r == ('A' <= *c && *c <= 'Z');
pub assume_specification[ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r == ('a' <= *c && *c <= 'z');
pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool) ensures r == ((*c as u32) < 128);
pub assume_specification[ char::to_ascii_lowercase ](c: &char) -> (r: char) ensures r == lower_c(*c);
pub assume_specification[ char::to_ascii_uppercase ](c: &char) -> (r: char) ensures r == upper_c(*c);
pub assume_specification[ char::is_ascii_whitespace ](c: &char) -> (r: bool) ensures r == (*c == ' ' || *c == '\t' || *c == '\n' || *c == '\u{c}' || *c == '\r');
pub assume_specification[ char::is_ascii_control ](c: &char) -> (r: bool) ensures r == ((*c as u32) < 32 || (*c as u32) == 127);
pub assume_specification[ char::is_ascii_graphic ](c: &char) -> (r: bool) ensures r == (33 <= (*c as u32) && (*c as u32) <= 126);
pub assume_specification[ char::is_ascii_punctuation ](c: &char) -> (r: bool) ensures r == (33 <= (*c as u32) && (*c as u32) <= 126 && !digit_c(*c) && !alpha_c(*c));
pub broadcast group group_std {
    axiom_white, axiom_ulower, axiom_uupper, axiom_begins_text, axiom_begins_string, axiom_begins_char, axiom_finishes_text, axiom_finishes_char,
    axiom_has_text, axiom_has_char, axiom_size_text, axiom_size_char, axiom_find, axiom_split_text, axiom_split_char,
    super::dec::group_parse,
    axiom_eq_string_ref, axiom_obeys_string_ref, axiom_eq_ref_string, axiom_obeys_ref_string,
    axiom_eq_string_text, axiom_obeys_string_text, axiom_eq_text_string, axiom_obeys_text_string,
}
} // end of stdspec
