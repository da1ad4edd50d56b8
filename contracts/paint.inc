// ---------------------------------------------------------------- trees whose nodes can be told apart
pub open spec fn unique(t: N) -> bool decreases t {
    &&& forall|i: int| 0 <= i < t.c.len() ==> unique(#[trigger] t.c[i])
    &&& forall|i: int| 0 <= i < t.c.len() ==> !inn(#[trigger] t.c[i], t.id)
    &&& forall|i: int, j: int, id: usize| 0 <= i < t.c.len() && 0 <= j < t.c.len() && i != j && #[trigger] inn(t.c[i], id) ==> !#[trigger] inn(t.c[j], id)
}
// nodes kept in their position keep their identifier
pub open spec fn aligned(a: N, b: N) -> bool decreases a {
    a.id == b.id && forall|i: int| #![trigger a.c[i]] #![trigger b.c[i]] 0 <= i < a.c.len() && i < b.c.len() ==> aligned(a.c[i], b.c[i])
}
// an identifier of a node which b has and a has no node in its position
pub open spec fn newid(a: N, b: N, id: usize) -> bool decreases a {
    ||| exists|i: int| 0 <= i < a.c.len() && i < b.c.len() && newid(#[trigger] a.c[i], b.c[i], id)
    ||| exists|i: int| a.c.len() <= i < b.c.len() && inn(#[trigger] b.c[i], id)
}
pub open spec fn fits(a: N, b: N) -> bool {
    aligned(a, b) && unique(a) && unique(b) && forall|id: usize| #[trigger] newid(a, b, id) ==> !inn(a, id)
}
pub proof fn lemma_fits_child(a: N, b: N, i: int)
    requires fits(a, b), 0 <= i < a.c.len(), i < b.c.len()
    ensures fits(a.c[i], b.c[i])
{
    assert forall|id: usize| #[trigger] newid(a.c[i], b.c[i], id) implies !inn(a.c[i], id) by { assert(newid(a, b, id)); if inn(a.c[i], id) { assert(inn(a, id)); } }
}
pub proof fn lemma_old_or_new(a: N, b: N, id: usize)
    requires aligned(a, b), inn(b, id)
    ensures inn(a, id) || newid(a, b, id)
    decreases a
{
    if b.id != id {
        let i = choose|i: int| 0 <= i < b.c.len() && inn(#[trigger] b.c[i], id);
        if i < a.c.len() { assert(aligned(a.c[i], b.c[i])); lemma_old_or_new(a.c[i], b.c[i], id); }
    }
}
// a node of one position is in no other position, before or after the change
pub proof fn lemma_apart(a: N, b: N, i: int, j: int, id: usize)
    requires fits(a, b), i != j, 0 <= i < a.c.len(), i < b.c.len(), inn2(a.c[i], b.c[i], id), 0 <= j
    ensures j < a.c.len() ==> !inn(a.c[j], id), j < b.c.len() ==> !inn(b.c[j], id), id != a.id
{
    if inn(b.c[i], id) { lemma_old_or_new(a.c[i], b.c[i], id); }
    if j < a.c.len() && inn(a.c[j], id) {
        assert(inn(a, id));
        if !inn(a.c[i], id) { assert(newid(a.c[i], b.c[i], id)); assert(newid(a, b, id)); }
    }
    if j < b.c.len() && inn(b.c[j], id) {
        if !inn(b.c[i], id) {
            assert(inn(a.c[i], id));
            assert(inn(a, id));
            if j < a.c.len() {
                assert(aligned(a.c[j], b.c[j]));
                lemma_old_or_new(a.c[j], b.c[j], id);
                if newid(a.c[j], b.c[j], id) { assert(newid(a, b, id)); }
            } else { assert(newid(a, b, id)); }
        }
    }
}
// ---------------------------------------------------------------- changes to one node alone
pub open spec fn own_op(o: OpV, id: usize) -> bool { o.id == id && is_local(o.i) && !(o.i is SetId) }
pub open spec fn all_own(s: Seq<OpV>, id: usize) -> bool { forall|k: int| 0 <= k < s.len() ==> own_op(#[trigger] s[k], id) }
pub open spec fn fold(t: N, s: Seq<OpV>) -> N decreases s.len() { if s.len() == 0 { t } else { local(fold(t, s.drop_last()), s.last().i) } }
pub proof fn lemma_fold_follow(t: N, s: Seq<OpV>)
    requires all_own(s, t.id)
    ensures follow(t, s) == Some(fold(t, s)), fold(t, s).id == t.id, fold(t, s).c == t.c
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|k: int| 0 <= k < s.drop_last().len() implies own_op(#[trigger] s.drop_last()[k], t.id) by { assert(s.drop_last()[k] == s[k]); }
        lemma_fold_follow(t, s.drop_last());
        assert(own_op(s[s.len() - 1], t.id));
        lemma_step_local(fold(t, s.drop_last()), s.last());
    }
}
// ---------------------------------------------------------------- the first paint
pub open spec fn own_count(x: N) -> nat { attr_count(x.attrs) + x.listeners.len() + if x.text is Some { 1nat } else { 0nat } }
pub open spec fn paint_size(x: N) -> nat decreases x, x.c.len() + 1 { 1 + own_count(x) + paint_sizes(x, x.c.len()) }
// the instructions of the first n children
pub open spec fn paint_sizes(x: N, n: nat) -> nat decreases x, n {
    if n == 0 || n > x.c.len() { 0 } else { paint_sizes(x, (n - 1) as nat) + paint_size(x.c[n - 1]) }
}
// x is created under its parent, then given all its own parts with as many instructions as it has parts,
// then its children are painted in order
pub open spec fn painted(s: Seq<OpV>, x: N, parent: Option<usize>) -> bool decreases x, x.c.len() + 1 {
    &&& s.len() == paint_size(x)
    &&& s[0] == OpV { id: x.id, i: InstrV::Create { name: x.name, parent } }
    &&& all_own(own_part(s, x), x.id)
    &&& fold(blank(x.id, x.name), own_part(s, x)) == N { c: Seq::empty(), ..x }
    &&& painted_children(s, x, x.c.len())
}
pub open spec fn own_part(s: Seq<OpV>, x: N) -> Seq<OpV> { s.subrange(1, 1 + own_count(x) as int) }
pub open spec fn start_of(x: N, n: nat) -> nat { 1 + own_count(x) + paint_sizes(x, n) }
pub open spec fn painted_children(s: Seq<OpV>, x: N, n: nat) -> bool decreases x, n {
    n == 0 || n > x.c.len() || {
        &&& painted_children(s, x, (n - 1) as nat)
        &&& painted(s.subrange(start_of(x, (n - 1) as nat) as int, start_of(x, n) as int), x.c[n - 1], Some(x.id))
    }
}
// every instruction makes a node of x, or gives it a part
pub open spec fn makes(o: OpV, x: N, p: usize) -> bool {
    inn(x, o.id) && match o.i {
        InstrV::Create { name, parent: Some(q) } => q == p || inn(x, q),
        InstrV::Create { name, parent: None } => false,
        _ => is_local(o.i) && !(o.i is SetId),
    }
}
pub open spec fn all_make(s: Seq<OpV>, x: N, p: usize) -> bool { forall|k: int| 0 <= k < s.len() ==> makes(#[trigger] s[k], x, p) }
pub open spec fn apart(t: N, x: N) -> bool { forall|id: usize| #[trigger] inn(x, id) ==> !inn(t, id) }
pub proof fn lemma_sizes(x: N, n: nat)
    requires n <= x.c.len()
    ensures start_of(x, n) <= paint_size(x), 1 + own_count(x) <= start_of(x, n)
    decreases x.c.len() - n
{
    if n < x.c.len() { lemma_sizes(x, n + 1); }
}
pub open spec fn upto(x: N, n: nat) -> N { N { c: x.c.take(n as int), ..x } }
pub proof fn lemma_paint_children(s: Seq<OpV>, x: N, n: nat)
    requires s.len() == paint_size(x), all_own(own_part(s, x), x.id), fold(blank(x.id, x.name), own_part(s, x)) == (N { c: Seq::empty(), ..x }), unique(x), n <= x.c.len(), painted_children(s, x, n)
    ensures follow(blank(x.id, x.name), s.subrange(1, start_of(x, n) as int)) == Some(upto(x, n)), all_make(s.subrange(1, start_of(x, n) as int), x, x.id)
    decreases x, n
{
    lemma_sizes(x, n);
    let b = blank(x.id, x.name);
    if n == 0 {
        let o = own_part(s, x);
        assert(s.subrange(1, start_of(x, 0) as int) =~= o);
        lemma_fold_follow(b, o);
        assert(upto(x, 0).c =~= Seq::<N>::empty());
    } else {
        let m = (n - 1) as nat;
        lemma_sizes(x, m);
        lemma_paint_children(s, x, m);
        let p = s.subrange(1, start_of(x, m) as int);
        let q = s.subrange(start_of(x, m) as int, start_of(x, n) as int);
        let c = x.c[m as int];
        let t = upto(x, m);
        assert(painted(q, c, Some(x.id)));
        assert forall|id: usize| #[trigger] inn(c, id) implies !inn(t, id) by {
            assert(id != x.id);
            assert forall|j: int| 0 <= j < t.c.len() implies !inn(#[trigger] t.c[j], id) by { assert(t.c[j] == x.c[j]); if inn(x.c[j], id) { assert(inn(x.c[m as int], id)); } }
        }
        lemma_paint(q, c, x.id, t);
        lemma_follow_add(b, p, q);
        assert(s.subrange(1, start_of(x, n) as int) =~= p + q);
        assert(add_child(t, c).c =~= upto(x, n).c);
        assert forall|k: int| 0 <= k < (p + q).len() implies makes(#[trigger] (p + q)[k], x, x.id) by {
            if k < p.len() { assert(makes(p[k], x, x.id)); } else { assert(makes(q[k - p.len()], c, x.id)); lemma_makes_up(q[k - p.len()], x, m as int); }
        }
    }
}
pub proof fn lemma_makes_up(o: OpV, x: N, i: int)
    requires 0 <= i < x.c.len(), makes(o, x.c[i], x.id)
    ensures makes(o, x, x.id)
{
    assert(inn(x.c[i], o.id));
    assert(inn(x, o.id));
}
// following the first paint of x under p adds x to p
pub proof fn lemma_paint(s: Seq<OpV>, x: N, p: usize, t: N)
    requires painted(s, x, Some(p)), unique(x), apart(t, x), t.id == p
    ensures follow(t, s) == Some(add_child(t, x)), all_make(s, x, p)
    decreases x, x.c.len() + 1
{
    let n = x.c.len();
    lemma_sizes(x, n);
    lemma_paint_children(s, x, n);
    let b = blank(x.id, x.name);
    let rest = s.subrange(1, s.len() as int);
    assert(upto(x, n).c =~= x.c);
    let t1 = add_child(t, b);
    let l = t.c.len() as int;
    let first = seq![s[0]];
    assert(first.drop_last() =~= Seq::<OpV>::empty());
    assert(follow(t, first.drop_last()) == Some(t));
    assert(follow(t, first) == step(t, s[0]));
    assert(step(t, s[0]) == Some(t1));
    assert(t1.c[l] == b);
    assert forall|k: int| 0 <= k < rest.len() implies inside(#[trigger] rest[k], x, x, x.id) by { assert(makes(rest[k], x, x.id)); }
    assert forall|id: usize| #[trigger] inn2(x, x, id) implies id != t1.id && forall|j: int| 0 <= j < t1.c.len() && j != l ==> !inn(#[trigger] t1.c[j], id) by {
        assert(inn(x, id));
        assert(!inn(t, id));
    }
    assert forall|id: usize| #[trigger] inn(b, id) implies inn2(x, x, id) by { assert(id == x.id); assert(inn(x, id)); }
    lemma_follow_child(t1, l, rest, x, x);
    assert(with_child(t1, l, x).c =~= add_child(t, x).c);
    lemma_follow_add(t, first, rest);
    assert(first + rest =~= s);
    assert forall|k: int| 0 <= k < s.len() implies makes(#[trigger] s[k], x, p) by {
        if k == 0 { assert(inn(x, x.id)); } else { assert(makes(rest[k - 1], x, x.id)); assert(rest[k - 1] == s[k]); assert(inn(x, x.id)); }
    }
}
