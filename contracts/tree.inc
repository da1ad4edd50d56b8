// ---------------------------------------------------------------- about trees
pub proof fn lemma_least(t: N, id: usize, i: int)
    requires 0 <= i < t.c.len(), inn(t.c[i], id)
    ensures exists|k: int| is_fst(t, id, k)
    decreases i
{
    if forall|j: int| 0 <= j < i ==> !inn(#[trigger] t.c[j], id) { assert(is_fst(t, id, i)); }
    else { let j = choose|j: int| 0 <= j < i && inn(#[trigger] t.c[j], id); lemma_least(t, id, j); }
}
pub proof fn lemma_fst(t: N, id: usize)
    requires inn(t, id), t.id != id
    ensures is_fst(t, id, fst(t, id))
{
    let i = choose|i: int| 0 <= i < t.c.len() && inn(#[trigger] t.c[i], id);
    lemma_least(t, id, i);
}
pub proof fn lemma_fst_is(t: N, id: usize, i: int)
    requires is_fst(t, id, i)
    ensures fst(t, id) == i
{
    let k = fst(t, id);
    assert(is_fst(t, id, k));
    if k < i { assert(!inn(t.c[k], id)); } else if i < k { assert(!inn(t.c[i], id)); }
}
pub proof fn lemma_get(t: N, id: usize)
    requires inn(t, id)
    ensures get(t, id).id == id, forall|k: usize| inn(get(t, id), k) ==> #[trigger] inn(t, k)
    decreases t
{
    if t.id != id {
        lemma_fst(t, id);
        let i = fst(t, id);
        lemma_get(t.c[i], id);
        assert forall|k: usize| inn(get(t, id), k) implies #[trigger] inn(t, k) by { assert(inn(t.c[i], k)); }
    }
}
pub proof fn lemma_put(t: N, id: usize, w: N)
    requires inn(t, id)
    ensures forall|k: usize| #[trigger] inn(put(t, id, w), k) ==> inn(t, k) || inn(w, k),
        w.id == id ==> put(t, id, w).id == t.id
    decreases t
{
    if t.id != id {
        lemma_fst(t, id);
        let i = fst(t, id);
        lemma_put(t.c[i], id, w);
        let p = put(t, id, w);
        assert forall|k: usize| #[trigger] inn(p, k) implies inn(t, k) || inn(w, k) by {
            if p.id != k {
                let j = choose|j: int| 0 <= j < p.c.len() && inn(#[trigger] p.c[j], k);
                if j != i { assert(inn(t.c[j], k)); } else if inn(t.c[i], k) { }
            }
        }
    }
}
// instructions which stay inside x and y, below the top node
pub open spec fn inn2(x: N, y: N, id: usize) -> bool { inn(x, id) || inn(y, id) }
pub open spec fn inside(o: OpV, x: N, y: N, top: usize) -> bool {
    match o.i {
        InstrV::Create { name, parent: Some(p) } => inn2(x, y, p) && inn2(x, y, o.id),
        InstrV::Create { name, parent: None } => false,
        InstrV::Delete => inn2(x, y, o.id) && o.id != top,
        InstrV::SetId { id } => false,
        InstrV::Other => false,
        _ => inn2(x, y, o.id),
    }
}
pub open spec fn all_inside(s: Seq<OpV>, x: N, y: N, top: usize) -> bool { forall|k: int| 0 <= k < s.len() ==> inside(#[trigger] s[k], x, y, top) }
pub open spec fn no_other(t: N, i: int, x: N, y: N) -> bool {
    forall|id: usize| #[trigger] inn2(x, y, id) ==> id != t.id && forall|j: int| 0 <= j < t.c.len() && j != i ==> !inn(#[trigger] t.c[j], id)
}
pub open spec fn ids_in(t: N, x: N, y: N) -> bool { forall|id: usize| #[trigger] inn(t, id) ==> inn2(x, y, id) }
pub open spec fn with_child(t: N, i: int, z: N) -> N { N { c: t.c.update(i, z), ..t } }
pub proof fn lemma_in_child(t: N, i: int, g: usize, w: N)
    requires 0 <= i < t.c.len(), inn(t.c[i], g), t.id != g, forall|j: int| 0 <= j < t.c.len() && j != i ==> !inn(#[trigger] t.c[j], g)
    ensures inn(t, g), get(t, g) == get(t.c[i], g), put(t, g, w) == with_child(t, i, put(t.c[i], g, w))
{
    assert(is_fst(t, g, i));
    lemma_fst_is(t, g, i);
}
pub proof fn lemma_no_parent(t: N, id: usize, i: int)
    requires 0 <= i, forall|j: int| i <= j < t.c.len() ==> !inn(#[trigger] t.c[j], id)
    ensures parent_from(t, id, i) is None
    decreases t, t.c.len() - i
{
    if i < t.c.len() {
        assert(!inn(t.c[i], id));
        assert forall|j: int| 0 <= j < t.c[i].c.len() implies !inn(#[trigger] t.c[i].c[j], id) by { }
        lemma_no_parent(t.c[i], id, 0);
        lemma_no_parent(t, id, i + 1);
    }
}
pub proof fn lemma_parent_in_child(t: N, i: int, id: usize, k: int)
    requires 0 <= k <= i < t.c.len(), t.c[i].id != id, parent_from(t.c[i], id, 0) is Some,
        forall|j: int| 0 <= j < t.c.len() && j != i ==> !inn(#[trigger] t.c[j], id)
    ensures parent_from(t, id, k) == parent_from(t.c[i], id, 0)
    decreases i - k
{
    if k < i {
        assert(!inn(t.c[k], id));
        assert forall|j: int| 0 <= j < t.c[k].c.len() implies !inn(#[trigger] t.c[k].c[j], id) by { }
        lemma_no_parent(t.c[k], id, 0);
        lemma_parent_in_child(t, i, id, k + 1);
    }
}
pub proof fn lemma_step_ids(t: N, o: OpV, x: N, y: N)
    requires step(t, o) is Some, inside(o, x, y, t.id), ids_in(t, x, y)
    ensures ids_in(step(t, o)->Some_0, x, y), step(t, o)->Some_0.id == t.id
{
    let z = step(t, o)->Some_0;
    let g = match o.i { InstrV::Create { name, parent: Some(p) } => p, InstrV::Delete => parent_from(t, o.id, 0)->Some_0, _ => o.id };
    let n = get(t, g);
    let w = match o.i { InstrV::Create { name, parent: Some(p) } => add_child(n, blank(o.id, name)), InstrV::Delete => del_child(n, o.id), _ => local(n, o.i) };
    assert(z == put(t, g, w));
    lemma_get(t, g);
    lemma_put(t, g, w);
    assert forall|id: usize| #[trigger] inn(z, id) implies inn2(x, y, id) by {
        if !inn(t, id) {
            assert(inn(w, id));
            if w.id != id {
                let j = choose|j: int| 0 <= j < w.c.len() && inn(#[trigger] w.c[j], id);
                match o.i {
                    InstrV::Create { name, parent: Some(p) } => {
                        if j < n.c.len() { assert(inn(n.c[j], id)); assert(inn(n, id)); } else { assert(id == o.id); }
                    }
                    InstrV::Delete => {
                        let d = choose|i: int| is_child(n, o.id, i);
                        if j < d { assert(w.c[j] == n.c[j]); assert(inn(n.c[j], id)); } else { assert(w.c[j] == n.c[j + 1]); assert(inn(n.c[j + 1], id)); }
                        assert(inn(n, id));
                    }
                    _ => { assert(inn(n.c[j], id)); assert(inn(n, id)); }
                }
            } else { assert(inn(n, id)); }
        } else { assert(inn2(x, y, id)); }
    }
}
pub proof fn lemma_step_child(t: N, i: int, o: OpV, x: N, y: N)
    requires 0 <= i < t.c.len(), inside(o, x, y, t.c[i].id), no_other(t, i, x, y), ids_in(t.c[i], x, y), step(t.c[i], o) is Some
    ensures step(t, o) == Some(with_child(t, i, step(t.c[i], o)->Some_0))
{
    let c = t.c[i];
    match o.i {
        InstrV::Create { name, parent: Some(p) } => {
            assert(inn2(x, y, p));
            lemma_in_child(t, i, p, add_child(get(c, p), blank(o.id, name)));
        }
        InstrV::Delete => {
            assert(inn2(x, y, o.id));
            let p = parent_from(c, o.id, 0)->Some_0;
            assert(inn2(x, y, p));
            lemma_parent_in_child(t, i, o.id, 0);
            lemma_in_child(t, i, p, del_child(get(c, p), o.id));
        }
        _ => {
            assert(inn2(x, y, o.id));
            lemma_in_child(t, i, o.id, local(get(c, o.id), o.i));
        }
    }
}
// a change list that stays inside one child changes that child alone
pub proof fn lemma_follow_child(t: N, i: int, s: Seq<OpV>, x: N, y: N)
    requires 0 <= i < t.c.len(), all_inside(s, x, y, t.c[i].id), no_other(t, i, x, y), ids_in(t.c[i], x, y), follow(t.c[i], s) is Some
    ensures follow(t, s) == Some(with_child(t, i, follow(t.c[i], s)->Some_0)),
        ids_in(follow(t.c[i], s)->Some_0, x, y), follow(t.c[i], s)->Some_0.id == t.c[i].id
    decreases s.len()
{
    if s.len() > 0 {
        let s1 = s.drop_last();
        assert forall|k: int| 0 <= k < s1.len() implies inside(#[trigger] s1[k], x, y, t.c[i].id) by { assert(s1[k] == s[k]); }
        lemma_follow_child(t, i, s1, x, y);
        let z = follow(t.c[i], s1)->Some_0;
        let t1 = with_child(t, i, z);
        assert(inside(s[s.len() - 1], x, y, t.c[i].id));
        lemma_step_ids(z, s.last(), x, y);
        assert(t1.c[i] == z);
        assert forall|id: usize| #[trigger] inn2(x, y, id) implies id != t1.id && forall|j: int| 0 <= j < t1.c.len() && j != i ==> !inn(#[trigger] t1.c[j], id) by { }
        lemma_step_child(t1, i, s.last(), x, y);
        let z2 = step(z, s.last())->Some_0;
        assert(with_child(t1, i, z2).c =~= with_child(t, i, z2).c);
    } else {
        assert(with_child(t, i, t.c[i]).c =~= t.c);
    }
}
pub proof fn lemma_follow_add(t: N, a: Seq<OpV>, b: Seq<OpV>)
    requires follow(t, a) is Some
    ensures follow(t, a + b) == follow(follow(t, a)->Some_0, b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        lemma_follow_add(t, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}
pub proof fn lemma_follow_push(t: N, a: Seq<OpV>, o: OpV)
    ensures follow(t, a.push(o)) == (match follow(t, a) { Some(x) => step(x, o), None => None })
{ assert(a.push(o).drop_last() =~= a); }
pub proof fn lemma_follow_prefix(t: N, s: Seq<OpV>, k: int)
    requires follow(t, s) is Some, 0 <= k <= s.len()
    ensures follow(t, s.take(k)) is Some
    decreases s.len()
{
    if k < s.len() {
        lemma_follow_prefix(t, s.drop_last(), k);
        assert(s.drop_last().take(k) =~= s.take(k));
    } else { assert(s.take(k) =~= s); }
}
pub proof fn lemma_step_local(t: N, o: OpV)
    requires o.id == t.id, is_local(o.i)
    ensures step(t, o) == Some(local(t, o.i))
{ }
pub proof fn lemma_follow_none(t: N, s: Seq<OpV>)
    requires s.len() == 0
    ensures follow(t, s) == Some(t)
{ }
