// ---------------------------------------------------------------- Changeset::apply
//@fn ap Changeset::parse
//@| props C16
//@| sigtype $0 impl Textual
//@| map .as_ref() => .as_text()
//@| spec
        requires usize_of($0.tx()) is Some,
        ensures Some(res) == usize_of($0.tx()), //#C16
//@end
//@fn ap Changeset::try_parse
//@| props C16
//@| sigtype $0 impl Textual
//@| spec
        ensures res is Ok <==> usize_of($0.tx()) is Some, res is Ok ==> Some(res->Ok_0) == usize_of($0.tx()), //#C16
//@end
//@fn ap Changeset::crudely_remove_cow_lifetime_problems
//@| props C16
//@| spec
        ensures res@ == $0@, //#C16
//@end
//@fn ap Changeset::find_el_with_id
//@| props C16
//@| opt eqfn attr:verifier::loop_isolation(false)
//@| spec
        ensures
            res is Some <==> inn(tree(*old($1)), $0), //#C16
            res is Some ==> tree(*res->Some_0) == get(tree(*old($1)), $0) && tree(*final($1)) =~= put(tree(*old($1)), $0, tree(*final(res->Some_0))), //#C16
            res is None ==> tree(*final($1)) =~= tree(*old($1)), //#C16
        decreases *old($1),
//@| start
        let ghost e0 = *$1;
        let ghost t0 = tree(e0);
        let ghost fe = *final($1);
//@| beforeloop 0
        let ghost all = $its@;
//@| inv 0
            invariant
                $n == all.len(), $its@ == all.skip($k as int),
                forall|i: int| 0 <= i < all.len() ==> *(#[trigger] all[i]) == e0.children@[i],
                forall|i: int| 0 <= i < $k ==> tree(*final(#[trigger] all[i])) == t0.c[i],
                forall|i: int| 0 <= i < $k ==> !inn(#[trigger] t0.c[i], $0),
//@| loopstart 0
            let ghost kk = $k as int;
            proof { assert($its@[0] == all[kk]); assert(decreases_to!(e0 => e0.children@[kk])); }
//@| after el
            proof {
                assert($its@ == all.skip(kk + 1));
                if el is Some {
                    assert(inn(t0.c[kk], $0));
                    assert(is_fst(t0, $0, kk));
                    lemma_fst_is(t0, $0, kk);
                    assert(inn(t0, $0));
                    assert(forall|i: int| kk < i < all.len() ==> #[trigger] all[i] == $its@[i - kk - 1]);
                    assert((forall|i: int| kk < i < all.len() ==> *final(#[trigger] all[i]) == *all[i]) ==> tree(fe) =~= put(t0, $0, tree(*final(el->Some_0)))) by {
                        if forall|i: int| kk < i < all.len() ==> *final(#[trigger] all[i]) == *all[i] {
                            let p = put(t0, $0, tree(*final(el->Some_0)));
                            assert(fe.children@.len() == all.len());
                            assert(forall|i: int| 0 <= i < all.len() ==> *final(#[trigger] all[i]) == fe.children@[i]);
                            assert(tree(fe).c =~= p.c);
                        }
                    }
                }
            }
//@| afterloop 0
        proof {
            assert(!inn(t0, $0));
            assert(fe.children@.len() == all.len());
            assert(forall|i: int| 0 <= i < all.len() ==> *final(#[trigger] all[i]) == fe.children@[i]);
            assert(tree(fe).c =~= t0.c);
            assert(tree(fe) =~= t0);
        }
//@end
//@fn ap Changeset::find_parent_id
//@| props C16
//@| opt eqfn
//@| spec
        ensures res == parent_from(tree(*$0), $1, 0), //#C16
        decreases *$0,
//@| iter 0 it
//@| inv 0
            invariant
                it.seq().len() == $0.children@.len(),
                forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == $0.children@[i],
                parent_from(tree(*$0), $1, 0) == parent_from(tree(*$0), $1, it.index@ as int),
//@| loopstart 0
            proof { assert(*child == $0.children@[it.index@ as int]); assert(decreases_to!(*$0 => $0.children@[it.index@ as int])); assert(tree(*child) == tree(*$0).c[it.index@ as int]); }
//@end
// what the children of an element are after the usual edits
pub proof fn lemma_children()
    ensures
        forall|a: Element, b: Element| #![trigger tree(a), tree(b)] a.children@ == b.children@ ==> tree(a).c == tree(b).c,
        forall|a: Element, b: Element, x: Element| #![trigger tree(a), tree(b), a.children@.push(x)] b.children@ == a.children@.push(x) ==> tree(b).c == tree(a).c.push(tree(x)),
        forall|a: Element, b: Element, i: int| #![trigger tree(a), tree(b), a.children@.remove(i)] 0 <= i < a.children@.len() && b.children@ == a.children@.remove(i) ==> tree(b).c == tree(a).c.remove(i),
        forall|a: Element| a.children@.len() == 0 ==> (#[trigger] tree(a)).c == Seq::<N>::empty(),
        forall|v: Seq<ListenerRef>| v.len() == 0 ==> #[trigger] lvs(v) == Seq::<(Seq<char>, Seq<char>)>::empty(),
        forall|v: Seq<ListenerRef>, l: ListenerRef| #[trigger] lvs(v.push(l)) == lvs(v).push(lv(l)),
{
    assert forall|a: Element| a.children@.len() == 0 implies (#[trigger] tree(a)).c == Seq::<N>::empty() by { assert(tree(a).c =~= Seq::<N>::empty()); }
    assert forall|v: Seq<ListenerRef>| v.len() == 0 implies #[trigger] lvs(v) == Seq::<(Seq<char>, Seq<char>)>::empty() by { assert(lvs(v) =~= Seq::<(Seq<char>, Seq<char>)>::empty()); }
    assert forall|v: Seq<ListenerRef>, l: ListenerRef| #[trigger] lvs(v.push(l)) == lvs(v).push(lv(l)) by { assert(lvs(v.push(l)) =~= lvs(v).push(lv(l))); }
    assert forall|a: Element, b: Element| #![trigger tree(a), tree(b)] a.children@ == b.children@ implies tree(a).c == tree(b).c by { assert(tree(a).c =~= tree(b).c); }
    assert forall|a: Element, b: Element, x: Element| #![trigger tree(a), tree(b), a.children@.push(x)] b.children@ == a.children@.push(x) implies tree(b).c == tree(a).c.push(tree(x)) by {
        assert(tree(b).c =~= tree(a).c.push(tree(x)));
    }
    assert forall|a: Element, b: Element, i: int| #![trigger tree(a), tree(b), a.children@.remove(i)] 0 <= i < a.children@.len() && b.children@ == a.children@.remove(i) implies tree(b).c == tree(a).c.remove(i) by {
        assert(tree(b).c =~= tree(a).c.remove(i));
    }
}
//@fn ls ListenerRef::new
//@| props C16
//@| generics
//@| sigtype $0 impl Words
//@| sigtype $1 impl Words
//@| map .to_string() => .words()
//@| spec
        ensures lv(res) == ($0.w(), $1.w()), //#C16
//@end
//@fn ap Changeset::apply
//@| props C16
//@| opt eqfn attr:verifier::rlimit(60)
//@| map .clone().into_owned() => .text_owned()
//@| spec
        requires follow(tree(*old($0)), ovs(self.ops@)) is Some,
        ensures Some(tree(*final($0))) == follow(tree(*old($0)), ovs(self.ops@)), //#C16
//@| iter 0 it
//@| start
        hide(inn); hide(get); hide(put); hide(parent_from); hide(follow);
        let ghost t0 = tree(*$0);
        let ghost s = ovs(self.ops@);
        proof { lemma_follow_none(t0, s.take(0)); }
//@| inv 0
            invariant
                s == ovs(self.ops@), t0 == tree(*old($0)), follow(t0, s) is Some,
                it.seq().len() == self.ops@.len(),
                forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.ops@[i],
                follow(t0, s.take(it.index@ as int)) == Some(tree(*$0)),
//@| loopstart 0
            let ghost k = it.index@ as int;
            let ghost t = tree(*$0);
            proof {
                lemma_follow_prefix(t0, s, k + 1);
                lemma_follow_push(t0, s.take(k), s[k]);
                assert(s.take(k + 1) =~= s.take(k).push(s[k]));
                assert(s[k] == ov(self.ops@[k]));
                assert(step(t, s[k]) is Some);
                lemma_children();
            }
//@| iter 3 jt
//@| inv 3
                invariant_except_break
                    $pos is None, $k == jt.index@,
                    forall|i: int| 0 <= i < jt.index@ ==> (#[trigger] el.children@[i]).id != el_id,
                invariant
                    jt.seq().len() == el.children@.len(), jt.seq().len() <= usize::MAX,
                    forall|i: int| 0 <= i < jt.seq().len() ==> *#[trigger] jt.seq()[i] == el.children@[i],
                ensures
                    $pos is Some ==> 0 <= $pos->Some_0 < el.children@.len() && el.children@[$pos->Some_0 as int].id == el_id
                        && forall|i: int| 0 <= i < $pos->Some_0 ==> (#[trigger] el.children@[i]).id != el_id,
                    $pos is None ==> forall|i: int| 0 <= i < el.children@.len() ==> (#[trigger] el.children@[i]).id != el_id,
//@| loopend 0
            proof {
                let o = s[k];
                match o.i {
                    InstrV::Create { name, parent: Some(p) } => { assert(tree(*$0) == put(t, p, add_child(get(t, p), blank(o.id, name)))); }
                    InstrV::Create { name, parent: None } => { }
                    InstrV::Delete => { let p = parent_from(t, o.id, 0)->Some_0; assert(tree(*$0) == put(t, p, del_child(get(t, p), o.id))); }
                    InstrV::Other => { }
                    InstrV::SetAttr { k, v } => { assert(tree(*$0) == put(t, o.id, local(get(t, o.id), o.i))); }
                    InstrV::RemAttr { k } => { assert(tree(*$0) == put(t, o.id, local(get(t, o.id), o.i))); }
                    InstrV::SetText { t: x } => { assert(tree(*$0) == put(t, o.id, local(get(t, o.id), o.i))); }
                    InstrV::RemText => { assert(tree(*$0) == put(t, o.id, local(get(t, o.id), o.i))); }
                    InstrV::SetName { n } => { assert(tree(*$0) == put(t, o.id, local(get(t, o.id), o.i))); }
                    InstrV::SetId { id } => { assert(tree(*$0) == put(t, o.id, local(get(t, o.id), o.i))); }
                    InstrV::RemListeners => { assert(tree(*$0) == put(t, o.id, local(get(t, o.id), o.i))); }
                    InstrV::Attach { name, on } => { assert(tree(*$0) == put(t, o.id, local(get(t, o.id), o.i))); }
                }
                assert(Some(tree(*$0)) == step(t, s[k]));
            }
//@| afterloop 0
        proof { assert(s.take(s.len() as int) =~= s); }
//@| beforeloop 3
            proof {
                assert(el.children.len() == el.children@.len());
                assert forall|i: int| 0 <= i < el.children@.len() implies tree(*el).c[i].id == (#[trigger] el.children@[i]).id by { assert(tree(*el).c[i] == tree(el.children@[i])); }
            }
//@| afterloop 3
            proof {
                let i = choose|i: int| is_child(tree(*el), el_id, i);
                assert(is_child(tree(*el), el_id, i));
                assert(el.children@[i].id == el_id);
                assert($pos is Some);
                let p = $pos->Some_0 as int;
                assert(el.children@[p].id == el_id);
                if i < p { } else if p < i { assert(tree(*el).c[p].id == el_id); }
                assert(i == p);
            }
//@end
