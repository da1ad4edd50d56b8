//@type impl IntoIterator<Item = (String, String)> => impl TextPairs
//@map .entry($$k).or_insert($$v) => .put_if_absent($$k, $$v)
//@map .insert($k.into(), $$v) => .insert(IntoText::into($k), $$v)
pub open spec fn put_all(m: HMap, l: HList) -> HMap decreases l.len() {
    if l.len() == 0 { m } else { put_all(m, l.drop_last()).insert(l.last().0, l.last().1) }
}
pub open spec fn owned(s: Seq<(String, String)>) -> HList { s.map_values(|p: (String, String)| (p.0@, p.1@)) }
pub proof fn lemma_put_all(m: HMap, l: HList, i: int)
    requires 0 <= i < l.len()
    ensures put_all(m, l.take(i + 1)) == put_all(m, l.take(i)).insert(l[i].0, l[i].1)
{ assert(l.take(i + 1).drop_last() =~= l.take(i)); }
pub trait TextPairs: Sized { spec fn items(&self) -> HList;
    fn into_iter(self) -> (r: Vec<(String, String)>) ensures owned(r@) == self.items();
}
impl Headers {
    #[verifier::external_body]
    pub fn put_if_absent(&mut self, k: String, v: String) ensures final(self)@ == (if old(self)@.contains_key(k@) { old(self)@ } else { old(self)@.insert(k@, v@) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, l: impl TextPairs) ensures final(self)@ == put_all(old(self)@, l.items()) { unimplemented!() }
}
