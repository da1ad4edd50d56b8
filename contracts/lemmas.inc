//@include std.inc
// ---------------------------------------------------------------- the meaning of `?`
// `?` returns Err(From::from(e)) (Rust reference, "The question mark operator")
pub use base_lemmas::alloc_limit;
pub mod base_lemmas {
use vstd::prelude::*;
// memory that may be reserved at once without having received as much
pub uninterp spec fn alloc_limit() -> nat;
pub broadcast axiom fn axiom_alloc_limit() ensures #[trigger] alloc_limit() >= 0x10000;
pub broadcast axiom fn axiom_question_mark<S: From<T>, T>(v: T, r: S)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(v, r) ==> call_ensures(<S as From<T>>::from, (v,), r);
pub broadcast proof fn lemma_skip_skip<A>(s: Seq<A>, a: int, b: int)
    requires 0 <= a <= s.len(), 0 <= b <= s.len() - a
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn lemma_skip_zero<A>(s: Seq<A>)
    ensures #[trigger] s.skip(0) == s
{ assert(s.skip(0) =~= s); }
pub broadcast proof fn lemma_app_assoc<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lemma_app_empty<A>(a: Seq<A>, b: Seq<A>)
    requires b.len() == 0
    ensures #[trigger] (a + b) == a
{ assert(a + b =~= a); }
}
pub assume_specification<T>[ core::mem::replace ](dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;
pub assume_specification<T: std::default::Default>[ core::mem::take ](dest: &mut T) -> (r: T)
    ensures r == *old(dest);
