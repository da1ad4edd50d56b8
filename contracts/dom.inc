//@include std.inc
// ---------------------------------------------------------------- elements and trees
//@type Cow<'static, str> => String
//@type HashMap<Cow<'static, str>, Cow<'static, str>> => Attrs
//@type ::std::collections::HashMap<Cow<'static, str>, Cow<'static, str>> => Attrs
pub type HMap = Map<Seq<char>, Seq<char>>;
pub type HList = Seq<(Seq<char>, Seq<char>)>;
// `s` lists every entry of `m` exactly once
pub open spec fn lists(m: HMap, s: HList) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> s.contains((k, m[k]))
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& s.no_duplicates()
}
pub open spec fn pairs(s: Seq<(&String, &String)>) -> HList { s.map_values(|p: (&String, &String)| (p.0@, p.1@)) }
pub open spec fn texts(s: Seq<&String>) -> Seq<Seq<char>> { s.map_values(|p: &String| p@) }
// HashMap<Cow<str>, Cow<str>>
#[verifier::external_body]
pub struct Attrs { m: std::collections::HashMap<String, String> }
impl Attrs {
    pub uninterp spec fn view(&self) -> HMap;
    #[verifier::external_body]
    pub fn new() -> (r: Attrs) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: String) -> (r: Option<String>)
        ensures final(self)@ == old(self)@.insert(k@, v@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &String) -> (r: Option<String>)
        ensures final(self)@ == old(self)@.remove(k@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &String) -> (r: Option<&'a String>)
        ensures r is Some <==> self@.contains_key(k@), r is Some ==> r->Some_0@ == self@[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == attr_count(self@) { unimplemented!() }
    // HashMap iteration: every entry once, in an unspecified order
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: Vec<(&'a String, &'a String)>)
        ensures lists(self@, pairs(r@)), r@.len() == attr_count(self@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: Vec<&'a String>)
        ensures texts(r@).no_duplicates(), forall|k: Seq<char>| #[trigger] self@.contains_key(k) <==> texts(r@).contains(k)
    { unimplemented!() }
}
pub uninterp spec fn attr_count(m: HMap) -> nat;
impl PartialEq for Attrs {
    #[verifier::external_body]
    fn eq(&self, o: &Attrs) -> bool { unimplemented!() }
}
impl PartialEqSpecImpl for Attrs {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Attrs) -> bool { self@ == o@ }
}
// derived: equal when both texts are
impl PartialEq for ListenerRef {
    #[verifier::external_body]
    fn eq(&self, o: &ListenerRef) -> bool { unimplemented!() }
}
impl PartialEqSpecImpl for ListenerRef {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ListenerRef) -> bool { lv(*self) == lv(*o) }
}
pub open spec fn lv(l: ListenerRef) -> (Seq<char>, Seq<char>) { (l.listener_name@, l.js_event@) }
pub open spec fn lvs(s: Seq<ListenerRef>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(s.len(), |i: int| lv(s[i])) }
pub open spec fn tv(t: Option<String>) -> Option<Seq<char>> { match t { Some(s) => Some(s@), None => None } }
// the tree an element stands for
#[verifier::ext_equal]
pub struct N {
    pub id: usize,
    pub name: Seq<char>,
    pub attrs: HMap,
    pub listeners: Seq<(Seq<char>, Seq<char>)>,
    pub text: Option<Seq<char>>,
    pub c: Seq<N>,
}
pub open spec fn tree(e: Element) -> N decreases e {
    N {
        id: e.id, name: e.name@, attrs: e.attributes@, listeners: lvs(e.listeners@), text: tv(e.text),
        c: Seq::new(e.children@.len(), |i: int| if 0 <= i < e.children@.len() { tree(e.children@[i]) } else { arbitrary() }),
    }
}
