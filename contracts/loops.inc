// ---------------------------------------------------------------- trusted: adaptors of slice iterators
#[verifier::external_body]
pub fn enumerated<I: IteratorSpec>(it: I) -> (r: Vec<(usize, I::Item)>)
    ensures r@.len() == it.remaining().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == it.remaining()[i]
{ it.enumerate().collect() }
#[verifier::external_body]
pub fn zip_cycle<'b, I: IteratorSpec, U>(it: I, v: &'b [U]) -> (r: Vec<(I::Item, &'b U)>)
    ensures
        v@.len() > 0 ==> r@.len() == it.remaining().len(), v@.len() == 0 ==> r@.len() == 0,
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == it.remaining()[i] && *r@[i].1 == v@[i % v@.len() as int]
{ it.zip(v.iter().cycle()).collect() }
// `^` of bytes and references to bytes
pub trait ByteVal { spec fn bv(&self) -> u8; fn byte(&self) -> (r: u8) ensures r == self.bv(); }
impl ByteVal for u8 { open spec fn bv(&self) -> u8 { *self } fn byte(&self) -> (r: u8) { *self } }
impl<'a> ByteVal for &'a u8 { open spec fn bv(&self) -> u8 { **self } fn byte(&self) -> (r: u8) { **self } }
pub fn byte_xor<A: ByteVal, B: ByteVal>(a: A, b: B) -> (r: u8) ensures r == a.bv() ^ b.bv() { a.byte() ^ b.byte() }
// slice::iter_mut: one mutable reference to every element, in order
#[verifier::external_body]
pub fn muts<'a, T>(v: &'a mut Vec<T>) -> (r: Vec<&'a mut T>)
    ensures r@.len() == old(v)@.len(), final(v)@.len() == r@.len(),
        forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == old(v)@[i],
        forall|i: int| 0 <= i < r@.len() ==> #[trigger] final(v)@[i] == *final(r@[i]),
{ v.iter_mut().collect() }
#[verifier::external_body]
pub fn next_mut<'a, T>(v: &mut Vec<&'a mut T>) -> (r: &'a mut T)
    requires old(v)@.len() > 0
    ensures r == old(v)@[0], final(v)@ == old(v)@.skip(1)
{ v.remove(0) }
