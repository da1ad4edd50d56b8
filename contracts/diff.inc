// ---------------------------------------------------------------- lists of changes
pub proof fn lemma_ops()
    ensures
        forall|t: N, x: Seq<Op>| x.len() == 0 ==> #[trigger] follow(t, ovs(x)) == Some(t),
        forall|t: N, x: Seq<Op>, o: Op| #[trigger] follow(t, ovs(x.push(o))) == (match follow(t, ovs(x)) { Some(z) => step(z, ov(o)), None => None }),
        forall|t: N, x: Seq<Op>, y: Seq<Op>| #[trigger] follow(t, ovs(x + y)) == (match follow(t, ovs(x)) { Some(z) => follow(z, ovs(y)), None => None }),
        forall|x: Seq<Op>, o: Op, id: usize| #[trigger] all_own(ovs(x.push(o)), id) == (all_own(ovs(x), id) && own_op(ov(o), id)),
        forall|x: Seq<Op>, y: Seq<Op>, id: usize| #[trigger] all_own(ovs(x + y), id) == (all_own(ovs(x), id) && all_own(ovs(y), id)),
        forall|x: Seq<Op>, o: Op, a: N, b: N, top: usize| #[trigger] all_inside(ovs(x.push(o)), a, b, top) == (all_inside(ovs(x), a, b, top) && inside(ov(o), a, b, top)),
        forall|x: Seq<Op>, y: Seq<Op>, a: N, b: N, top: usize| #[trigger] all_inside(ovs(x + y), a, b, top) == (all_inside(ovs(x), a, b, top) && all_inside(ovs(y), a, b, top)),
{
    assert forall|t: N, x: Seq<Op>, o: Op| #[trigger] follow(t, ovs(x.push(o))) == (match follow(t, ovs(x)) { Some(z) => step(z, ov(o)), None => None }) by {
        lemma_ovs_push(x, o); lemma_follow_push(t, ovs(x), ov(o));
    }
    assert forall|t: N, x: Seq<Op>, y: Seq<Op>| #[trigger] follow(t, ovs(x + y)) == (match follow(t, ovs(x)) { Some(z) => follow(z, ovs(y)), None => None }) by {
        lemma_ovs_add(x, y);
        if follow(t, ovs(x)) is Some { lemma_follow_add(t, ovs(x), ovs(y)); } else { lemma_follow_lost(t, ovs(x), ovs(y)); }
    }
    assert forall|x: Seq<Op>, o: Op, id: usize| #[trigger] all_own(ovs(x.push(o)), id) == (all_own(ovs(x), id) && own_op(ov(o), id)) by {
        lemma_ovs_push(x, o);
        let (p, q) = (ovs(x), ovs(x).push(ov(o)));
        assert(q[p.len() as int] == ov(o));
        if all_own(q, id) { assert forall|k: int| 0 <= k < p.len() implies own_op(#[trigger] p[k], id) by { assert(q[k] == p[k]); } }
    }
    assert forall|x: Seq<Op>, y: Seq<Op>, id: usize| #[trigger] all_own(ovs(x + y), id) == (all_own(ovs(x), id) && all_own(ovs(y), id)) by {
        lemma_ovs_add(x, y);
        let (p, q, r) = (ovs(x), ovs(y), ovs(x) + ovs(y));
        if all_own(r, id) {
            assert forall|k: int| 0 <= k < p.len() implies own_op(#[trigger] p[k], id) by { assert(r[k] == p[k]); }
            assert forall|k: int| 0 <= k < q.len() implies own_op(#[trigger] q[k], id) by { assert(r[p.len() + k] == q[k]); }
        }
    }
    assert forall|x: Seq<Op>, o: Op, a: N, b: N, top: usize| #[trigger] all_inside(ovs(x.push(o)), a, b, top) == (all_inside(ovs(x), a, b, top) && inside(ov(o), a, b, top)) by {
        lemma_ovs_push(x, o);
        let (p, q) = (ovs(x), ovs(x).push(ov(o)));
        assert(q[p.len() as int] == ov(o));
        if all_inside(q, a, b, top) { assert forall|k: int| 0 <= k < p.len() implies inside(#[trigger] p[k], a, b, top) by { assert(q[k] == p[k]); } }
    }
    assert forall|x: Seq<Op>, y: Seq<Op>, a: N, b: N, top: usize| #[trigger] all_inside(ovs(x + y), a, b, top) == (all_inside(ovs(x), a, b, top) && all_inside(ovs(y), a, b, top)) by {
        lemma_ovs_add(x, y);
        let (p, q, r) = (ovs(x), ovs(y), ovs(x) + ovs(y));
        if all_inside(r, a, b, top) {
            assert forall|k: int| 0 <= k < p.len() implies inside(#[trigger] p[k], a, b, top) by { assert(r[k] == p[k]); }
            assert forall|k: int| 0 <= k < q.len() implies inside(#[trigger] q[k], a, b, top) by { assert(r[p.len() + k] == q[k]); }
        }
    }
}
pub proof fn lemma_follow_lost(t: N, a: Seq<OpV>, b: Seq<OpV>)
    requires follow(t, a) is None
    ensures follow(t, a + b) is None
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        lemma_follow_lost(t, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
pub proof fn lemma_own_inside(s: Seq<OpV>, a: N, b: N, id: usize)
    requires all_own(s, id), inn(a, id)
    ensures all_inside(s, a, b, id)
{
    assert forall|k: int| 0 <= k < s.len() implies inside(#[trigger] s[k], a, b, id) by { assert(own_op(s[k], id)); }
}
pub proof fn lemma_one()
    ensures
        forall|t: N, o: Op| #[trigger] follow(t, ovs(seq![o])) == step(t, ov(o)),
        forall|o: Op, id: usize| #[trigger] all_own(ovs(seq![o]), id) == own_op(ov(o), id),
        forall|x: Seq<Op>, id: usize| x.len() == 0 ==> #[trigger] all_own(ovs(x), id),
        forall|x: Seq<Op>, a: N, b: N, id: usize| x.len() == 0 ==> #[trigger] all_inside(ovs(x), a, b, id),
{
    lemma_ops();
    assert forall|t: N, o: Op| #[trigger] follow(t, ovs(seq![o])) == step(t, ov(o)) by {
        let e = Seq::<Op>::empty();
        assert(seq![o] =~= e.push(o));
        assert(follow(t, ovs(e)) == Some(t));
        assert(follow(t, ovs(e.push(o))) == step(t, ov(o)));
    }
    assert forall|o: Op, id: usize| #[trigger] all_own(ovs(seq![o]), id) == own_op(ov(o), id) by {
        let s = ovs(seq![o]);
        assert(s[0] == ov(o));
    }
}
//@fn cs Changeset::empty
//@| props C16 C17
//@| spec
        ensures res.ops@.len() == 0, //#C16 C17
//@end
//@fn cs Changeset::from_op
//@| props C16 C17
//@| spec
        ensures res.ops@ == seq![$0], //#C16 C17
//@end
//@fn cs Changeset::extend
//@| props C16 C17
//@| spec
        ensures final(self).ops@ == old(self).ops@ + $0.ops@, //#C16 C17
//@end
pub trait IntoOps<'a> { spec fn io(&self) -> Seq<Op<'a>>; fn list(self) -> (r: Vec<Op<'a>>) ensures r@ == self.io(); }
impl<'a> IntoOps<'a> for Vec<Op<'a>> { open spec fn io(&self) -> Seq<Op<'a>> { self@ } fn list(self) -> (r: Vec<Op<'a>>) { self } }
impl<'a> IntoOps<'a> for Changeset<'a> { open spec fn io(&self) -> Seq<Op<'a>> { self.ops@ } fn list(self) -> (r: Vec<Op<'a>>) { self.into_iter() } }
pub trait ExtendAll<'a> { spec fn eo(&self) -> Seq<Op<'a>>; fn extend_all<I: IntoOps<'a>>(&mut self, i: I) ensures final(self).eo() == old(self).eo() + i.io(); }
impl<'a> ExtendAll<'a> for Vec<Op<'a>> { open spec fn eo(&self) -> Seq<Op<'a>> { self@ } fn extend_all<I: IntoOps<'a>>(&mut self, i: I) { let mut v = i.list(); self.append(&mut v); } }
// the iterator over the list is modelled by the list
//@fn cs <IntoIterator for Changeset>::into_iter
//@| props C16 C17
//@| opt inherent
//@| ret Vec<Op<'a>>
//@| map .ops.into_iter() => .ops
//@| spec
        ensures res@ == self.ops@, //#C16 C17
//@end
//@fn df Element::diff_name
//@| props C16
//@| opt eqfn
//@| spec
        ensures
            self.id == $0.id ==> all_own(ovs(res.ops@), self.id), //#C16
            self.id == $0.id ==> forall|t: N| t.id == self.id && t.name == self.name@ ==> #[trigger] follow(t, ovs(res.ops@)) == Some(N { name: $0.name@, ..t }), //#C16
            self.name@ == $0.name@ ==> res.ops@.len() == 0, //#C16
//@| start
        hide(follow);
        proof { lemma_ops(); lemma_one(); }
//@end
//@fn df Element::diff_id
//@| props C16
//@| opt eqfn
//@| spec
        ensures self.id == $0.id ==> res.ops@.len() == 0, //#C16
//@end
//@fn df Element::diff_text
//@| props C16
//@| opt eqfn
//@| spec
        ensures
            all_own(ovs(res.ops@), self.id), //#C16
            forall|t: N| t.id == self.id && t.text == tv(self.text) ==> #[trigger] follow(t, ovs(res.ops@)) == Some(N { text: tv($0.text), ..t }), //#C16
            tv(self.text) == tv($0.text) ==> res.ops@.len() == 0, //#C16
//@| start
        hide(follow);
        proof { lemma_ops(); lemma_one(); }
//@end
//@fn df Element::generate_listeners
//@| props C16 C17
//@| opt eqfn
//@| map .to_string() => .words()
//@| spec
        ensures
            all_own(ovs(res.ops@), self.id), //#C16 C17
            forall|t: N| t.id == self.id ==> #[trigger] follow(t, ovs(res.ops@)) == Some(N { listeners: t.listeners + lvs(self.listeners@), ..t }), //#C16 C17
            res.ops@.len() == self.listeners@.len(), //#C16 C17
//@| iter 0 it
//@| start
        hide(follow);
        proof { lemma_ops(); lemma_one(); }
//@| beforeloop 0
        proof {
            let none = lvs(self.listeners@).take(0);
            assert forall|t: N| t.id == self.id implies #[trigger] follow(t, ovs(c.ops@)) == Some(N { listeners: t.listeners + none, ..t }) by { assert(t.listeners + none =~= t.listeners); }
        }
//@| inv 0
            invariant
                c.ops@.len() == it.index@, all_own(ovs(c.ops@), self.id),
                it.seq().len() == self.listeners@.len(),
                forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.listeners@[i],
                forall|t: N| t.id == self.id ==> #[trigger] follow(t, ovs(c.ops@)) == Some(N { listeners: t.listeners + lvs(self.listeners@).take(it.index@ as int), ..t }),
//@| loopstart 0
            let ghost k = it.index@ as int;
            let ghost ops0 = c.ops@;
            proof { lemma_ops(); }
//@| loopend 0
            proof {
                let l = lvs(self.listeners@);
                assert forall|t: N| t.id == self.id implies #[trigger] follow(t, ovs(c.ops@)) == Some(N { listeners: t.listeners + l.take(k + 1), ..t }) by {
                    assert(follow(t, ovs(ops0)) == Some(N { listeners: t.listeners + l.take(k), ..t }));
                    assert(t.listeners + l.take(k + 1) =~= (t.listeners + l.take(k)).push(l[k]));
                }
            }
//@| afterloop 0
        proof { assert(lvs(self.listeners@).take(self.listeners@.len() as int) =~= lvs(self.listeners@)); }
//@end
//@fn df Element::diff_listeners
//@| props C16
//@| opt eqfn
//@| spec
        ensures
            self.id == $0.id ==> all_own(ovs(res.ops@), self.id), //#C16
            self.id == $0.id ==> forall|t: N| t.id == self.id && t.listeners == lvs(self.listeners@) ==> #[trigger] follow(t, ovs(res.ops@)) == Some(N { listeners: lvs($0.listeners@), ..t }), //#C16
            lvs(self.listeners@) == lvs($0.listeners@) ==> res.ops@.len() == 0, //#C16
//@| start
        hide(follow);
        proof { lemma_ops(); lemma_one(); let e = Seq::<(Seq<char>, Seq<char>)>::empty(); assert(e + lvs($0.listeners@) =~= lvs($0.listeners@)); }
//@end
//@fn df Element::diff_attributes
//@| props C16
//@| opt eqfn
//@| spec
        ensures
            all_own(ovs(res.ops@), self.id), //#C16
            forall|t: N| t.id == self.id && t.attrs == self.attributes@ ==> #[trigger] follow(t, ovs(res.ops@)) == Some(N { attrs: $0.attributes@, ..t }), //#C16
            self.attributes@ == $0.attributes@ ==> res.ops@.len() == 0, //#C16
//@| start
        hide(follow);
        let ghost a = self.attributes@;
        let ghost b = $0.attributes@;
        let ghost mut m = a;
        proof { lemma_ops(); lemma_one(); }
//@| iter 0 it
//@| inv 0
            invariant
                a == self.attributes@, b == $0.attributes@,
                texts(it.seq()).no_duplicates(), forall|k: Seq<char>| #[trigger] a.contains_key(k) <==> texts(it.seq()).contains(k),
                all_own(ovs(c.ops@), self.id), a == b ==> c.ops@.len() == 0,
                forall|t: N| t.id == self.id && t.attrs == a ==> #[trigger] follow(t, ovs(c.ops@)) == Some(N { attrs: m, ..t }),
                forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> a.contains_key(k) && m[k] == a[k],
                forall|k: Seq<char>| a.contains_key(k) && b.contains_key(k) ==> #[trigger] m.contains_key(k),
                forall|j: int| 0 <= j < it.index@ && !b.contains_key((#[trigger] it.seq()[j])@) ==> !m.contains_key(it.seq()[j]@),
//@| loopstart 0
            let ghost n0 = it.index@ as int;
            let ghost key0 = key@;
            let ghost ops0 = c.ops@;
            proof { lemma_ops(); assert(it.seq()[n0] == key); assert(texts(it.seq())[n0] == key0); assert(texts(it.seq()).contains(key0)); }
//@| loopend 0
            proof {
                let m0 = m;
                if !b.contains_key(key0) { m = m.remove(key0); assert(a != b) by { assert(a.contains_key(key0)); } }
                assert forall|t: N| t.id == self.id && t.attrs == a implies #[trigger] follow(t, ovs(c.ops@)) == Some(N { attrs: m, ..t }) by {
                    assert(follow(t, ovs(ops0)) == Some(N { attrs: m0, ..t }));
                }
            }
//@| afterloop 0
        proof {
            assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies b.contains_key(k) by {
                if !b.contains_key(k) {
                    assert(a.contains_key(k));
                }
            }
        }
//@| iter 1 jt
//@| inv 1
            invariant
                a == self.attributes@, b == $0.attributes@,
                lists(b, pairs(jt.seq())),
                all_own(ovs(c.ops@), self.id), a == b ==> c.ops@.len() == 0,
                forall|t: N| t.id == self.id && t.attrs == a ==> #[trigger] follow(t, ovs(c.ops@)) == Some(N { attrs: m, ..t }),
                forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> b.contains_key(k) && (m[k] == b[k] || a.contains_key(k) && m[k] == a[k]),
                forall|k: Seq<char>| a.contains_key(k) && (#[trigger] b.contains_key(k)) && a[k] == b[k] ==> m.contains_key(k) && m[k] == b[k],
                forall|j: int| 0 <= j < jt.index@ ==> m.contains_key((#[trigger] pairs(jt.seq())[j]).0) && m[pairs(jt.seq())[j].0] == pairs(jt.seq())[j].1,
//@| loopstart 1
            let ghost n0 = jt.index@ as int;
            let ghost p0 = (their_key@, their_value@);
            let ghost ops0 = c.ops@;
            proof { lemma_ops(); assert(p0 == (jt.seq()[n0].0@, jt.seq()[n0].1@)); assert(pairs(jt.seq())[n0] == p0); assert(b.contains_key(p0.0) && b[p0.0] == p0.1); }
//@| loopend 1
            proof {
                let m0 = m;
                m = m.insert(p0.0, p0.1);
                if a.contains_key(p0.0) && a[p0.0] == p0.1 { assert(m =~= m0); }
                assert forall|t: N| t.id == self.id && t.attrs == a implies #[trigger] follow(t, ovs(c.ops@)) == Some(N { attrs: m, ..t }) by {
                    assert(follow(t, ovs(ops0)) == Some(N { attrs: m0, ..t }));
                }
                assert forall|k: Seq<char>| a.contains_key(k) && (#[trigger] b.contains_key(k)) && a[k] == b[k] implies m.contains_key(k) && m[k] == b[k] by { assert(m0.contains_key(k)); }
                assert forall|j: int| 0 <= j < n0 + 1 implies m.contains_key((#[trigger] pairs(jt.seq())[j]).0) && m[pairs(jt.seq())[j].0] == pairs(jt.seq())[j].1 by {
                    assert(b[pairs(jt.seq())[j].0] == pairs(jt.seq())[j].1);
                }
            }
//@| afterloop 1
        proof {
            assert forall|k: Seq<char>| #[trigger] b.contains_key(k) implies m.contains_key(k) && m[k] == b[k] by { }
            assert(m =~= b);
        }
//@end
// ---------------------------------------------------------------- the first paint
pub open spec fn after_first(x: Seq<Op>) -> Seq<OpV> { ovs(x).skip(1) }
pub proof fn lemma_first()
    ensures
        forall|t: N, x: Seq<Op>| x.len() == 1 ==> #[trigger] follow(t, after_first(x)) == Some(t),
        forall|x: Seq<Op>, id: usize| x.len() == 1 ==> #[trigger] all_own(after_first(x), id),
        forall|t: N, x: Seq<Op>, o: Op| x.len() > 0 ==> #[trigger] follow(t, after_first(x.push(o))) == (match follow(t, after_first(x)) { Some(z) => step(z, ov(o)), None => None }),
        forall|t: N, x: Seq<Op>, y: Seq<Op>| x.len() > 0 ==> #[trigger] follow(t, after_first(x + y)) == (match follow(t, after_first(x)) { Some(z) => follow(z, ovs(y)), None => None }),
        forall|x: Seq<Op>, o: Op, id: usize| x.len() > 0 ==> #[trigger] all_own(after_first(x.push(o)), id) == (all_own(after_first(x), id) && own_op(ov(o), id)),
        forall|x: Seq<Op>, y: Seq<Op>, id: usize| x.len() > 0 ==> #[trigger] all_own(after_first(x + y), id) == (all_own(after_first(x), id) && all_own(ovs(y), id)),
{
    hide(follow); hide(step); hide(own_op); hide(ov);
    lemma_ops();
    assert forall|x: Seq<Op>, o: Op| x.len() > 0 implies #[trigger] after_first(x.push(o)) == ovs(x.skip(1).push(o)) && after_first(x) == ovs(x.skip(1)) by {
        assert(after_first(x.push(o)) =~= ovs(x.skip(1).push(o)));
        assert(after_first(x) =~= ovs(x.skip(1)));
    }
    assert forall|x: Seq<Op>, y: Seq<Op>| x.len() > 0 implies #[trigger] after_first(x + y) == ovs(x.skip(1) + y) && after_first(x) == ovs(x.skip(1)) by {
        assert(after_first(x + y) =~= ovs(x.skip(1) + y));
        assert(after_first(x) =~= ovs(x.skip(1)));
    }
    assert forall|x: Seq<Op>| x.len() == 1 implies #[trigger] after_first(x) =~= ovs(Seq::<Op>::empty()) by { assert(x.skip(1) =~= Seq::<Op>::empty()); }
}
pub proof fn lemma_painted_more(s: Seq<OpV>, q: Seq<OpV>, x: N, n: nat)
    requires n <= x.c.len(), painted_children(s, x, n), s.len() >= start_of(x, n)
    ensures painted_children(s + q, x, n)
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_painted_more(s, q, x, m);
        assert((s + q).subrange(start_of(x, m) as int, start_of(x, n) as int) =~= s.subrange(start_of(x, m) as int, start_of(x, n) as int));
    }
}
pub proof fn lemma_no_children(s: Seq<OpV>, x: N)
    ensures painted_children(s, x, 0), start_of(x, 0) == 1 + own_count(x)
{ }
// one more child
pub proof fn lemma_painted_next(s: Seq<OpV>, q: Seq<OpV>, x: N, n: nat)
    requires n < x.c.len(), painted_children(s, x, n), s.len() == start_of(x, n), painted(q, x.c[n as int], Some(x.id))
    ensures painted_children(s + q, x, n + 1), (s + q).len() == start_of(x, n + 1)
{
    lemma_painted_more(s, q, x, n);
    assert(q.len() == paint_size(x.c[n as int]));
    assert(start_of(x, n + 1) == start_of(x, n) + paint_size(x.c[n as int]));
    assert((s + q).subrange(start_of(x, n) as int, start_of(x, n + 1) as int) =~= q);
}
pub proof fn lemma_painted_all(s: Seq<OpV>, own: Seq<OpV>, x: N, parent: Option<usize>)
    requires painted_children(s, x, x.c.len()), s.len() == start_of(x, x.c.len()), own.len() == 1 + own_count(x), s.take(own.len() as int) == own,
        own[0] == (OpV { id: x.id, i: InstrV::Create { name: x.name, parent } }),
        all_own(own_part(own, x), x.id), fold(blank(x.id, x.name), own_part(own, x)) == (N { c: Seq::empty(), ..x }),
    ensures painted(s, x, parent)
{
    lemma_sizes(x, x.c.len());
    assert(own_part(s, x) =~= own_part(own, x)) by { assert forall|i: int| 0 <= i < own.len() implies s[i] == own[i] by { assert(s.take(own.len() as int)[i] == s[i]); } }
    assert(s.take(own.len() as int)[0] == s[0]);
}
//@fn df Element::create_from_scratch
//@| props C16 C17
//@| opt eqfn option
//@| spec
        ensures painted(ovs(res.ops@), tree(*self), match $0 { Some(p) => Some(p.id), None => None }), //#C16 C17
        decreases *self,
//@| start
        hide(follow); hide(painted); hide(painted_children); hide(paint_sizes);
        let ghost x = tree(*self);
        let ghost b = blank(x.id, x.name);
        let ghost h = OpV { id: x.id, i: InstrV::Create { name: x.name, parent: match $0 { Some(p) => Some(p.id), None => None } } };
        proof { lemma_ops(); lemma_one(); lemma_first(); }
//@| beforeloop 0
        let ghost n0 = follow(b, after_first(cs.ops@))->Some_0;
        let ghost l0 = cs.ops@.len();
        let ghost mut m = n0.attrs;
//@| iter 0 it
//@| inv 0
            invariant
                x == tree(*self), b == blank(x.id, x.name), n0.id == x.id,
                lists(x.attrs, pairs(it.seq())),
                cs.ops@.len() == l0 + it.index@, l0 >= 1, ov(cs.ops@[0]) == h,
                all_own(after_first(cs.ops@), x.id),
                follow(b, after_first(cs.ops@)) == Some(N { attrs: m, ..n0 }),
                forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> x.attrs.contains_key(k) && m[k] == x.attrs[k],
                forall|j: int| 0 <= j < it.index@ ==> m.contains_key((#[trigger] pairs(it.seq())[j]).0),
//@| loopstart 0
            let ghost i0 = it.index@ as int;
            let ghost p0 = (key@, value@);
            proof { lemma_first(); assert(p0 == (it.seq()[i0].0@, it.seq()[i0].1@)); assert(pairs(it.seq())[i0] == p0); assert(x.attrs.contains_key(p0.0) && x.attrs[p0.0] == p0.1); }
//@| loopend 0
            proof { m = m.insert(p0.0, p0.1); }
//@| afterloop 0
        proof {
            assert forall|k: Seq<char>| #[trigger] x.attrs.contains_key(k) implies m.contains_key(k) by { }
            assert(m =~= x.attrs);
        }
//@| beforeloop 1
        let ghost own = cs.ops@;
        proof {
            let s = ovs(own);
            assert(own.len() == 1 + own_count(x));
            assert(own_part(s, x) =~= after_first(own));
            lemma_fold_follow(b, own_part(s, x));
            lemma_no_children(s, x);
            assert(Seq::<(Seq<char>, Seq<char>)>::empty() + x.listeners =~= x.listeners);
            assert(fold(b, own_part(s, x)) == N { c: Seq::empty(), ..x });
        }
//@| iter 1 jt
//@| inv 1
            invariant
                x == tree(*self), b == blank(x.id, x.name),
                jt.seq().len() == self.children@.len(),
                forall|i: int| 0 <= i < jt.seq().len() ==> *#[trigger] jt.seq()[i] == self.children@[i],
                ov(own[0]) == h, own.len() == 1 + own_count(x),
                all_own(own_part(ovs(own), x), x.id), fold(b, own_part(ovs(own), x)) == (N { c: Seq::empty(), ..x }),
                cs.ops@.len() == start_of(x, jt.index@ as nat), cs.ops@.len() >= own.len(), cs.ops@.take(own.len() as int) == own,
                painted_children(ovs(cs.ops@), x, jt.index@ as nat),
//@| loopstart 1
            let ghost i0 = jt.index@ as int;
            let ghost ops0 = cs.ops@;
            proof { assert(*child == self.children@[i0]); assert(decreases_to!(*self => self.children@[i0])); assert(tree(*child) == x.c[i0]); }
//@| loopend 1
            proof {
                let q = cs.ops@.skip(ops0.len() as int);
                assert(cs.ops@ =~= ops0 + q);
                assert forall|r: Seq<Op>| #[trigger] (ops0 + r) == cs.ops@ implies r == q by { assert(r =~= q); }
                lemma_ovs_add(ops0, q);
                lemma_painted_next(ovs(ops0), ovs(q), x, i0 as nat);
                assert(cs.ops@.take(own.len() as int) =~= own);
            }
//@| afterloop 1
        proof {
            assert(ovs(cs.ops@).take(own.len() as int) =~= ovs(own));
            lemma_painted_all(ovs(cs.ops@), ovs(own), x, match $0 { Some(p) => Some(p.id), None => None });
        }
//@end
// ---------------------------------------------------------------- children
pub open spec fn nokeys(e: Element) -> bool decreases e {
    forall|i: int| 0 <= i < e.children@.len() ==> (#[trigger] e.children@[i]).key is None && nokeys(e.children@[i])
}
pub open spec fn fewer(a: N, b: N) -> nat { if a.c.len() < b.c.len() { a.c.len() } else { b.c.len() } }
// the children once the first n pairs are done
pub open spec fn mix(a: N, b: N, n: nat) -> Seq<N> { Seq::new(fewer(a, b), |j: int| if j < n { b.c[j] } else { a.c[j] }) }
// these instructions stay inside a and b and turn the children of a into c
pub open spec fn turns(x: Seq<Op>, a: N, b: N, c: Seq<N>) -> bool {
    fits(a, b) ==> all_inside(ovs(x), a, b, a.id) && forall|t: N| t.id == a.id && t.c == a.c ==> #[trigger] follow(t, ovs(x)) == Some(N { c, ..t })
}
pub proof fn lemma_turn_none(x: Seq<Op>, a: N, b: N)
    requires x.len() == 0
    ensures turns(x, a, b, a.c)
{ lemma_ops(); lemma_one(); }
pub proof fn lemma_zip(t: N, a: N, b: N, i: nat, s: Seq<OpV>)
    requires fits(a, b), i < fewer(a, b), t.id == a.id, t.c == mix(a, b, i),
        all_inside(s, a.c[i as int], b.c[i as int], a.c[i as int].id), follow(a.c[i as int], s) == Some(b.c[i as int])
    ensures follow(t, s) == Some(N { c: mix(a, b, i + 1), ..t }), all_inside(s, a, b, a.id)
{
    let k = i as int;
    let (x, y) = (a.c[k], b.c[k]);
    assert(t.c[k] == x);
    assert forall|id: usize| #[trigger] inn2(x, y, id) implies id != t.id && forall|j: int| 0 <= j < t.c.len() && j != k ==> !inn(#[trigger] t.c[j], id) by {
        assert forall|j: int| 0 <= j < t.c.len() && j != k implies !inn(#[trigger] t.c[j], id) by { lemma_apart(a, b, k, j, id); }
        lemma_apart(a, b, k, k + 1, id);
    }
    assert forall|id: usize| #[trigger] inn(x, id) implies inn2(x, y, id) by { }
    lemma_follow_child(t, k, s, x, y);
    assert(with_child(t, k, y).c =~= mix(a, b, i + 1));
    assert forall|j: int| 0 <= j < s.len() implies inside(#[trigger] s[j], a, b, a.id) by {
        assert(inside(s[j], x, y, x.id));
        assert forall|id: usize| #[trigger] inn2(x, y, id) implies inn2(a, b, id) && id != a.id by { lemma_apart(a, b, k, k + 1, id); if inn(x, id) { assert(inn(a, id)); } else { assert(inn(b, id)); } }
        match s[j].i {
            InstrV::Create { name, parent: Some(p) } => { assert(inn2(x, y, p)); assert(inn2(x, y, s[j].id)); }
            InstrV::Create { name, parent: None } => { }
            InstrV::SetId { id } => { }
            InstrV::Other => { }
            _ => { assert(inn2(x, y, s[j].id)); }
        }
    }
}
pub proof fn lemma_turn_zip(x: Seq<Op>, q: Seq<Op>, a: N, b: N, i: nat)
    requires turns(x, a, b, mix(a, b, i)), i < fewer(a, b),
        fits(a.c[i as int], b.c[i as int]) ==> all_inside(ovs(q), a.c[i as int], b.c[i as int], a.c[i as int].id) && follow(a.c[i as int], ovs(q)) == Some(b.c[i as int])
    ensures turns(x + q, a, b, mix(a, b, i + 1))
{
    hide(follow);
    if fits(a, b) {
        lemma_ops();
        lemma_fits_child(a, b, i as int);
        let t0 = N { c: mix(a, b, i), ..a };
        lemma_zip(t0, a, b, i, ovs(q));
        assert(all_inside(ovs(x + q), a, b, a.id));
        assert forall|t: N| t.id == a.id && t.c == a.c implies #[trigger] follow(t, ovs(x + q)) == Some(N { c: mix(a, b, i + 1), ..t }) by {
            assert(follow(t, ovs(x)) == Some(N { c: mix(a, b, i), ..t }));
            lemma_zip(N { c: mix(a, b, i), ..t }, a, b, i, ovs(q));
        }
    }
}
// children n.. are deleted one by one
pub open spec fn cut(a: N, n: nat, j: nat) -> Seq<N> { a.c.take(n as int) + a.c.skip(n as int + j as int) }
pub proof fn lemma_parent_at(t: N, id: usize, n: int, i: int)
    requires 0 <= i <= n < t.c.len(), t.c[n].id == id, forall|j: int| 0 <= j < n ==> !inn(#[trigger] t.c[j], id)
    ensures parent_from(t, id, i) == Some(t.id)
    decreases n - i
{
    if i < n {
        assert(!inn(t.c[i], id));
        assert forall|j: int| 0 <= j < t.c[i].c.len() implies !inn(#[trigger] t.c[i].c[j], id) by { }
        lemma_no_parent(t.c[i], id, 0);
        lemma_parent_at(t, id, n, i + 1);
    }
}
pub proof fn lemma_delete(t: N, id: usize, n: int)
    requires 0 <= n < t.c.len(), t.c[n].id == id, t.id != id, forall|j: int| 0 <= j < n ==> !inn(#[trigger] t.c[j], id)
    ensures step(t, OpV { id, i: InstrV::Delete }) == Some(N { c: t.c.remove(n), ..t })
{
    lemma_parent_at(t, id, n, 0);
    assert forall|j: int| 0 <= j < n implies (#[trigger] t.c[j]).id != id by { assert(!inn(t.c[j], id)); }
    assert(is_child(t, id, n));
    let d = choose|i: int| is_child(t, id, i);
    assert(is_child(t, id, d));
    if d < n { assert(t.c[d].id != id); } else if n < d { assert(t.c[n].id != id); }
    assert(get(t, t.id) == t);
}
pub proof fn lemma_turn_cut(x: Seq<Op>, o: Op, a: N, b: N, n: nat, j: nat)
    requires turns(x, a, b, cut(a, n, j)), n + j < a.c.len(), ov(o) == (OpV { id: a.c[n as int + j as int].id, i: InstrV::Delete })
    ensures turns(x.push(o), a, b, cut(a, n, j + 1))
{
    hide(follow); hide(all_own); hide(all_inside);
    if fits(a, b) {
        lemma_ops();
        let id = a.c[n as int + j as int].id;
        assert(inn(a.c[n as int + j as int], id));
        assert(inn(a, id));
        assert(inside(ov(o), a, b, a.id));
        assert forall|t: N| t.id == a.id && t.c == a.c implies #[trigger] follow(t, ovs(x.push(o))) == Some(N { c: cut(a, n, j + 1), ..t }) by {
            let u = N { c: cut(a, n, j), ..t };
            assert(follow(t, ovs(x)) == Some(u));
            assert(u.c[n as int] == a.c[n as int + j as int]);
            assert forall|k: int| 0 <= k < n implies !inn(#[trigger] u.c[k], id) by { assert(u.c[k] == a.c[k]); }
            lemma_delete(u, id, n as int);
            assert(u.c.remove(n as int) =~= cut(a, n, j + 1));
        }
    }
}
// children of b are painted one by one
pub proof fn lemma_turn_paint(x: Seq<Op>, q: Seq<Op>, a: N, b: N, n: nat)
    requires turns(x, a, b, b.c.take(n as int)), n < b.c.len(), painted(ovs(q), b.c[n as int], Some(a.id))
    ensures turns(x + q, a, b, b.c.take(n as int + 1))
{
    hide(follow); hide(painted);
    if fits(a, b) {
        lemma_ops();
        let y = b.c[n as int];
        let s = ovs(q);
        assert forall|t: N| t.id == a.id && t.c == a.c implies #[trigger] follow(t, ovs(x + q)) == Some(N { c: b.c.take(n as int + 1), ..t }) && all_make(s, y, a.id) by {
            let u = N { c: b.c.take(n as int), ..t };
            assert(follow(t, ovs(x)) == Some(u));
            assert forall|id: usize| #[trigger] inn(y, id) implies !inn(u, id) by {
                assert forall|j: int| 0 <= j < u.c.len() implies !inn(#[trigger] u.c[j], id) by { assert(u.c[j] == b.c[j]); }
            }
            lemma_paint(s, y, a.id, u);
            assert(u.c.push(y) =~= b.c.take(n as int + 1));
        }
        assert(follow(a, ovs(x + q)) is Some);
        assert(all_make(s, y, a.id));
        assert forall|j: int| 0 <= j < s.len() implies inside(#[trigger] s[j], a, b, a.id) by {
            assert(makes(s[j], y, a.id));
            assert forall|id: usize| #[trigger] inn(y, id) implies inn(b, id) by { }
            assert(inn(a, a.id));
            assert(inn(b, s[j].id));
        }
    }
}
//@fn df Element::children_are_all_keyed
//@| props C16
//@| opt eqfn option
//@| spec
        ensures res <==> forall|i: int| 0 <= i < self.children@.len() ==> (#[trigger] self.children@[i]).key is Some, //#C16
//@| iter 0 it
//@| inv 0
            invariant_except_break
                $all, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self.children@[i]).key is Some,
            invariant
                it.seq().len() == self.children@.len(),
                forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.children@[i],
            ensures
                $all <==> forall|i: int| 0 <= i < self.children@.len() ==> (#[trigger] self.children@[i]).key is Some,
//@end
//@fn df Element::locate_child_by_key
//@| props C16
//@| opt eqfn option
//@| spec
        requires forall|i: int| 0 <= i < self.children@.len() ==> (#[trigger] self.children@[i]).key is Some,
        ensures res is Some ==> self.children@.len() > 0, //#C16
//@| iter 0 it
//@| inv 0
            invariant
                it.seq().len() == self.children@.len(),
                forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.children@[i],
                forall|i: int| 0 <= i < self.children@.len() ==> (#[trigger] self.children@[i]).key is Some,
                $found is Some ==> self.children@.len() > 0,
//@| loopstart 0
            proof { assert(*it.seq()[it.index@ as int] == self.children@[it.index@ as int]); }
//@end
//@fn df Element::diff_children
//@| props C16
//@| opt eqfn option
//@| spec
        requires nokeys(*self), nokeys(*$0),
        ensures
            turns(res.ops@, tree(*self), tree(*$0), tree(*$0).c), //#C16
            tree(*self).c == tree(*$0).c ==> res.ops@.len() == 0, //#C16
        decreases *self, 0int,
//@| start
        hide(follow); hide(turns); hide(painted); hide(fits); hide(tree);
        let ghost a = tree(*self);
        let ghost b = tree(*$0);
        proof {
            lemma_tree_len(*self); lemma_tree_len(*$0);
            if self.children@.len() > 0 { assert(self.children@[0].key is None); }
            if $0.children@.len() > 0 { assert($0.children@[0].key is None); }
            if a.c.len() == 0 && b.c.len() == 0 { assert(a.c =~= b.c); }
            assert forall|x: Seq<Op>| x.len() == 0 implies #[trigger] turns(x, a, b, a.c) by { lemma_turn_none(x, a, b); }
            assert(mix(a, b, 0) =~= a.c.take(fewer(a, b) as int));
            assert(mix(a, b, fewer(a, b)) =~= b.c.take(fewer(a, b) as int));
            assert(a.c.take(a.c.len() as int) =~= a.c);
            assert(b.c.take(b.c.len() as int) =~= b.c);
            assert(cut(a, fewer(a, b), 0) =~= a.c);
            assert(cut(a, fewer(a, b), (a.c.len() - fewer(a, b)) as nat) =~= a.c.take(fewer(a, b) as int));
        }
//@| iter 0 e0
//@| inv 0
                invariant e0.seq().len() == 0, changeset.ops@.len() == 0, unpaired@.len() == 0,
//@| iter 1 e1
//@| inv 1
                invariant e1.seq().len() == 0, changeset.ops@.len() == 0,
//@| iter 2 e2
//@| inv 2
                invariant e2.seq().len() == 0, changeset.ops@.len() == 0,
//@| iter 3 it
//@| inv 3
                    invariant
                        nokeys(*self), nokeys(*$0), a == tree(*self), b == tree(*$0), a.c.len() == self.children@.len(), b.c.len() == $0.children@.len(),
                        it.seq().len() == fewer(a, b),
                        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == self.children@[i] && *it.seq()[i].1 == $0.children@[i],
                        turns(changeset.ops@, a, b, mix(a, b, it.index@ as nat)),
                        a.c == b.c ==> changeset.ops@.len() == 0,
//@| loopstart 3
                    let ghost k = it.index@ as int;
                    let ghost ops0 = changeset.ops@;
                    proof { assert(*my_child == self.children@[k] && *their_child == $0.children@[k]); assert(decreases_to!(*self => self.children@[k])); lemma_tree_at(*self, k); lemma_tree_at(*$0, k); lemma_tree_len(*my_child); }
//@| loopend 3
                    proof {
                        let q = changeset.ops@.skip(ops0.len() as int);
                        assert(changeset.ops@ =~= ops0 + q);
                        assert forall|r: Seq<Op>| #[trigger] (ops0 + r) == changeset.ops@ implies r == q by { assert(r =~= q); }
                        lemma_turn_zip(ops0, q, a, b, k as nat);
                    }
//@| iter 4 dt
//@| inv 4
                    invariant
                        a == tree(*self), a.c.len() == self.children@.len(), b.c.len() < a.c.len(), a.c != b.c, fewer(a, b) == b.c.len(),
                        dt.seq().len() == a.c.len() - b.c.len(),
                        forall|i: int| 0 <= i < dt.seq().len() ==> *#[trigger] dt.seq()[i] == self.children@[b.c.len() + i],
                        turns(changeset.ops@, a, b, cut(a, b.c.len(), dt.index@ as nat)),
//@| loopstart 4
                    let ghost k = dt.index@ as int;
                    let ghost ops0 = changeset.ops@;
                    proof { assert(*el == self.children@[b.c.len() + k]); lemma_tree_at(*self, b.c.len() + k); lemma_tree_len(*el); }
//@| loopend 4
                    proof { lemma_turn_cut(ops0, changeset.ops@.last(), a, b, b.c.len(), k as nat); assert(ops0.push(changeset.ops@.last()) =~= changeset.ops@); }
//@| iter 5 it
//@| inv 5
                    invariant
                        nokeys(*self), nokeys(*$0), a == tree(*self), b == tree(*$0), a.c.len() == self.children@.len(), b.c.len() == $0.children@.len(), a.c != b.c,
                        it.seq().len() == fewer(a, b),
                        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == self.children@[i] && *it.seq()[i].1 == $0.children@[i],
                        turns(changeset.ops@, a, b, mix(a, b, it.index@ as nat)),
//@| loopstart 5
                    let ghost k = it.index@ as int;
                    let ghost ops0 = changeset.ops@;
                    proof { assert(*my_child == self.children@[k] && *their_child == $0.children@[k]); assert(decreases_to!(*self => self.children@[k])); lemma_tree_at(*self, k); lemma_tree_at(*$0, k); lemma_tree_len(*my_child); }
//@| loopend 5
                    proof {
                        let q = changeset.ops@.skip(ops0.len() as int);
                        assert(changeset.ops@ =~= ops0 + q);
                        assert forall|r: Seq<Op>| #[trigger] (ops0 + r) == changeset.ops@ implies r == q by { assert(r =~= q); }
                        lemma_turn_zip(ops0, q, a, b, k as nat);
                    }
//@| iter 6 it
//@| inv 6
                    invariant
                        nokeys(*self), nokeys(*$0), a == tree(*self), b == tree(*$0), a.c.len() == self.children@.len(), b.c.len() == $0.children@.len(), a.c != b.c,
                        it.seq().len() == fewer(a, b),
                        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == self.children@[i] && *it.seq()[i].1 == $0.children@[i],
                        turns(changeset.ops@, a, b, mix(a, b, it.index@ as nat)),
//@| loopstart 6
                    let ghost k = it.index@ as int;
                    let ghost ops0 = changeset.ops@;
                    proof { assert(*my_child == self.children@[k] && *their_child == $0.children@[k]); assert(decreases_to!(*self => self.children@[k])); lemma_tree_at(*self, k); lemma_tree_at(*$0, k); lemma_tree_len(*my_child); }
//@| loopend 6
                    proof {
                        let q = changeset.ops@.skip(ops0.len() as int);
                        assert(changeset.ops@ =~= ops0 + q);
                        assert forall|r: Seq<Op>| #[trigger] (ops0 + r) == changeset.ops@ implies r == q by { assert(r =~= q); }
                        lemma_turn_zip(ops0, q, a, b, k as nat);
                    }
//@| iter 7 at
//@| inv 7
                    invariant
                        a == tree(*self), b == tree(*$0), a.c.len() < b.c.len(), b.c.len() == $0.children@.len(), a.c != b.c, a.id == self.id,
                        at.seq().len() == b.c.len() - a.c.len(),
                        forall|i: int| 0 <= i < at.seq().len() ==> *#[trigger] at.seq()[i] == $0.children@[a.c.len() + i],
                        turns(changeset.ops@, a, b, b.c.take(a.c.len() + at.index@ as int)),
//@| loopstart 7
                    let ghost k = at.index@ as int;
                    let ghost ops0 = changeset.ops@;
                    proof { assert(*el == $0.children@[a.c.len() + k]); lemma_tree_at(*$0, a.c.len() + k); }
//@| loopend 7
                    proof {
                        let q = changeset.ops@.skip(ops0.len() as int);
                        assert(changeset.ops@ =~= ops0 + q);
                        assert forall|r: Seq<Op>| #[trigger] (ops0 + r) == changeset.ops@ implies r == q by { assert(r =~= q); }
                        lemma_turn_paint(ops0, q, a, b, (a.c.len() + k) as nat);
                    }
//@end
pub proof fn lemma_tree_len(e: Element)
    ensures tree(e).c.len() == e.children@.len(), tree(e).id == e.id
{ }
pub proof fn lemma_tree_at(e: Element, i: int)
    requires 0 <= i < e.children@.len()
    ensures tree(e).c[i] == tree(e.children@[i])
{ }
//@fn df Element::diff
//@| props C16 C17
//@| opt eqfn option
//@| spec
        requires $0 is Some ==> nokeys(*self) && nokeys(*$0->Some_0),
        ensures
            $0 is Some && fits(tree(*self), tree(*$0->Some_0)) ==> follow(tree(*self), ovs(res.ops@)) == Some(tree(*$0->Some_0)), //#C16
            $0 is Some && fits(tree(*self), tree(*$0->Some_0)) ==> all_inside(ovs(res.ops@), tree(*self), tree(*$0->Some_0), self.id), //#C16
            $0 is Some && tree(*self) == tree(*$0->Some_0) ==> res.ops@.len() == 0, //#C16
            $0 is None ==> painted(ovs(res.ops@), tree(*self), None), //#C17
        decreases *self, 1int,
//@| start
        hide(follow); hide(painted);
        proof {
            lemma_ops(); lemma_one();
            if $0 is Some {
                let a = tree(*self);
                let b = tree(*$0->Some_0);
                assert(inn(a, a.id));
                assert forall|x: Seq<Op>| #[trigger] all_own(ovs(x), a.id) implies all_inside(ovs(x), a, b, a.id) by { lemma_own_inside(ovs(x), a, b, a.id); }
            }
        }
//@| tail
        proof {
            assert forall|x: Seq<Op>, y: Seq<Op>| x.len() == 0 implies #[trigger] (x + y) == y by { assert(x + y =~= y); }
        }
//@end
