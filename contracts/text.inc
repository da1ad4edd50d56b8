// ---------------------------------------------------------------- the HTTP/1.1 wire form
//@map .iter().collect::<Vec<_>>() => .iter()
//@map .iter().collect() => .iter()
//@map $v.sort_unstable_by_key(|($a, _)| $b.as_str()) => sort_by_name(&mut $v)
//@map $v.sort_by_key(|($a, _)| $b.as_str()) => sort_by_name(&mut $v)
//@map $v.sort_by(|$a, $b| $a.0.cmp($b.0)) => sort_by_name(&mut $v)
//@map $v.sort_by(|$a, $b| $a.0.cmp(&$b.0)) => sort_by_name(&mut $v)
//@map $v.sort_unstable_by(|$a, $b| $a.0.cmp($b.0)) => sort_by_name(&mut $v)
//@map $v.sort_unstable_by(|$a, $b| $a.0.cmp(&$b.0)) => sort_by_name(&mut $v)
//@map $v.sort_by(|($a, _), ($b, _)| $a.cmp($b)) => sort_by_name(&mut $v)
//@map $v.sort_unstable_by(|($a, _), ($b, _)| $a.cmp($b)) => sort_by_name(&mut $v)
//@map $v.sort_by_key(|$a| $a.0) => sort_by_name(&mut $v)
//@map $v.sort_unstable_by_key(|$a| $a.0) => sort_by_name(&mut $v)
//@map $v.sort_by_key(|$a| $a.0.as_str()) => sort_by_name(&mut $v)
//@map $v.sort_unstable_by_key(|$a| $a.0.as_str()) => sort_by_name(&mut $v)
//@map $v.sort() => sort_by_name(&mut $v)
//@map $v.sort_unstable() => sort_by_name(&mut $v)
//@map $v.sort_by($$x) => sort_other(&mut $v)
//@map $v.sort_unstable_by($$x) => sort_other(&mut $v)
//@map $v.sort_by_key($$x) => sort_other(&mut $v)
//@map $v.sort_unstable_by_key($$x) => sort_other(&mut $v)
//@map $v.sort_by_cached_key($$x) => sort_other(&mut $v)
pub open spec fn u(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }
pub open spec fn enc_line(p: (Seq<char>, Seq<char>)) -> Seq<u8> { u(p.0) + u(": "@) + u(p.1) + u("\r\n"@) }
pub open spec fn enc_lines(s: HList) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { enc_lines(s.drop_last()) + enc_line(s.last()) }
}
pub proof fn lemma_enc_lines(s: HList, i: int)
    requires 0 <= i < s.len()
    ensures enc_lines(s.take(i + 1)) == enc_lines(s.take(i)) + enc_line(s[i])
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
// byte order of names, as `str`'s `Ord` has it
pub open spec fn lex_le(a: Seq<u8>, b: Seq<u8>) -> bool decreases a.len() {
    a.len() == 0 || (b.len() > 0 && (a[0] < b[0] || (a[0] == b[0] && lex_le(a.skip(1), b.skip(1)))))
}
pub open spec fn ascending(s: HList) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lex_le(u((#[trigger] s[i]).0), u((#[trigger] s[j]).0)) }
pub open spec fn same_entries(a: HList, b: HList) -> bool { a.to_multiset() == b.to_multiset() }
// what was written between `a` and `b`: one line for every header (in order of the names, if `sorted`)
pub open spec fn lined(m: HMap, a: Seq<u8>, b: Seq<u8>, sorted: bool) -> bool {
    exists|l: HList| #[trigger] lists(m, l) && (sorted ==> ascending(l)) && b == a + enc_lines(l)
}
// trusted: sorting by name keeps the entries
#[verifier::external_body]
pub fn sort_by_name(v: &mut Vec<(&String, &String)>)
    ensures ascending(pairs(final(v)@)), same_entries(pairs(old(v)@), pairs(final(v)@)),
        final(v)@.len() == old(v)@.len(),
{ v.sort_unstable_by_key(|(h, _)| h.as_str()); }
// sorted in some other order
#[verifier::external_body]
pub fn sort_other(v: &mut Vec<(&String, &String)>)
    ensures same_entries(pairs(old(v)@), pairs(final(v)@)), final(v)@.len() == old(v)@.len(),
{ unimplemented!() }
pub proof fn lemma_lists_sorted(m: HMap, a: HList, b: HList)
    requires lists(m, a), same_entries(a, b)
    ensures lists(m, b)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    a.lemma_multiset_has_no_duplicates();
    assert forall|x: (Seq<char>, Seq<char>)| #[trigger] b.to_multiset().contains(x) implies b.to_multiset().count(x) == 1 by { assert(a.to_multiset().contains(x)); }
    b.lemma_multiset_has_no_duplicates_conv();
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies b.contains((k, m[k])) by {
        assert(a.contains((k, m[k])));
        assert(a.to_multiset().count((k, m[k])) > 0);
    }
    assert forall|i: int| 0 <= i < b.len() implies m.contains_key((#[trigger] b[i]).0) && m[b[i].0] == b[i].1 by {
        assert(b.to_multiset().count(b[i]) > 0);
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i];
    }
}
