//! The liveview sources themselves, compiled as modules of this program.
#![allow(dead_code)]
#[macro_use]
extern crate derive_builder;
#[path = "../../puckx/src/ctx.rs"]
mod ctx;
#[path = "/repo/puck_liveview/src/dom/mod.rs"]
mod dom;
#[path = "/repo/puck_liveview/src/html/mod.rs"]
mod html;

use ctx::{ensure, Case, Ctx, Rng};
use dom::element::diff::changeset::instruction_serializer::InstructionSerializer;
use dom::element::diff::changeset::{Changeset, Instruction, Op};
use dom::element::Element;
use dom::listener::ListenerRef;
use html::id::IdGen;
use html::{IntoWrappedBodyNode, WrappedBodyNode};
use malvolio::prelude as mal;
use std::borrow::Cow;
use std::collections::HashMap;

#[global_allocator]
static A: ctx::Watch = ctx::Watch;

// ------------------------------------------------------------ trees
const NAMES: [&str; 10] = ["div", "p", "h1", "a", "input", "x-y", "DIV", "P", "linearGradient", ""];
fn txt(r: &mut Rng) -> String {
    if let Some(s) = r.dict_str(1, 4, |_| true) {
        return match r.below(4) {
            0 => format!("{}a", s),
            1 => format!("b{}", s),
            _ => s.to_string(),
        };
    }
    if let Some(n) = r.dict_num(1, 25).filter(|n| *n <= 2000).or(if r.chance(1, 400) { Some(600) } else { None }) {
        return r.text("ab", n.min(2000), n.min(2000));
    }
    match r.below(9) {
        0 => String::new(),
        1 => "+".to_string(),
        3 => (*r.pick(&[" ", "\n", " a", "a ", "A", "é", "a+", "+a", "undefined", "null", "0"])).to_string(),
        4 if r.chance(1, 20) => r.text("abcé ", 200, 400),
        2 => r.text("ab+ é\u{1F600}\"\\<>&\n", 0, 6),
        _ => r.text("abc", 1, 2),
    }
}
/// a number of things in one of many nodes
fn few(r: &mut Rng, a: usize, b: usize) -> usize {
    r.dict_num(1, 40).filter(|n| a <= *n && *n <= 600).unwrap_or_else(|| r.range(a, b))
}
/// a text which differs a little from this one
fn near(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = c.len();
    if n == 0 {
        return txt(r);
    }
    let k = if r.bool() { n - 1 } else { r.below(n) };
    match r.below(6) {
        0 => c.push(*r.pick(&['a', ' ', '\n', '+', '0'])),
        1 => drop(c.remove(k)),
        2 => c.insert(0, *r.pick(&['a', ' ', '\n', '+', '0'])),
        3 => c[k] = if c[k].is_ascii_lowercase() { c[k].to_ascii_uppercase() } else { c[k].to_ascii_lowercase() },
        4 => c = c.iter().map(|x| x.to_ascii_uppercase()).collect(),
        _ => c[k] = if c[k] == 'b' { 'c' } else { 'b' },
    }
    c.into_iter().collect()
}
fn attrs(r: &mut Rng) -> HashMap<Cow<'static, str>, Cow<'static, str>> {
    let n = if r.chance(1, 60) { r.range(10, 60) } else { few(r, 0, 3) };
    (0..n)
        .map(|_| {
            let k = if let Some(s) = r.dict_str(1, 4, |_| true) { s.to_string() } else if r.chance(1, 6) { (*r.pick(&["A", "data-a", "onclick", "é", "", "id", "class", "a b", "a+b"])).to_string() } else { r.text("abc", 1, if n > 4 { 3 } else { 1 }) };
            (Cow::Owned(k), Cow::Owned(txt(r)))
        })
        .collect()
}
fn listeners(r: &mut Rng) -> Vec<ListenerRef> {
    let n = if r.chance(1, 40) { r.range(3, 12) } else { few(r, 0, 2) };
    (0..n)
        .map(|_| {
            let name = if let Some(s) = r.dict_str(1, 4, |_| true) { s.to_string() } else if r.chance(1, 8) { (*r.pick(&["", "M", "m n", "é", "a+b"])).to_string() } else { r.text("mn", 1, 1) };
            let on = r.dict_str(1, 6, |_| true).unwrap_or("click");
            ListenerRef::new(name, *r.pick(&[on, "input", "submit", "click", "input", "submit", "Click", "touchStart", ""]))
        })
        .collect()
}
fn node(r: &mut Rng, id: usize) -> Element {
    Element {
        id,
        name: Cow::Borrowed(r.dict_str(1, 4, |_| true).unwrap_or(*r.pick(&NAMES))),
        attributes: attrs(r),
        listeners: listeners(r),
        children: vec![],
        text: if r.bool() { Some(Cow::Owned(txt(r))) } else { None },
        key: None,
    }
}
fn grow(r: &mut Rng, depth: usize, next: &mut dyn FnMut() -> usize) -> Element {
    let mut e = node(r, next());
    if depth > 0 {
        let n = if r.chance(1, 1200) { r.range(60, 300) } else if depth == 1 { few(r, 0, 3) } else { r.below(4) };
        for _ in 0..n {
            e.children.push(grow(r, depth - 1, next));
        }
    }
    e
}
/// a new tree whose nodes keep the identifier of the node in the same position
fn evolve(r: &mut Rng, old: &Element, depth: usize, next: &mut dyn FnMut() -> usize) -> Element {
    let fresh = node(r, old.id);
    let mut e = Element { children: vec![], ..old.clone() };
    match r.below(15) {
        // the same, but for a little
        12 => {
            if let Some(t) = &old.text {
                e.text = Some(Cow::Owned(near(r, t)));
            }
        }
        13 => e.name = Cow::Owned(near(r, &old.name)),
        14 if !old.attributes.is_empty() => {
            let mut ks: Vec<_> = old.attributes.keys().cloned().collect();
            ks.sort();
            let k = r.pick(&ks).clone();
            let v = e.attributes.remove(&k).unwrap();
            if r.bool() {
                e.attributes.insert(k, Cow::Owned(near(r, &v)));
            } else {
                e.attributes.insert(Cow::Owned(near(r, &k)), v);
            }
        }
        11 if !old.listeners.is_empty() => {
            let k = r.below(old.listeners.len());
            let (n, j) = (old.listeners[k].listener_name().to_string(), old.listeners[k].js_event().to_string());
            e.listeners[k] = if r.bool() { ListenerRef::new(near(r, &n), j) } else { ListenerRef::new(n, near(r, &j)) };
        }
        8 => e.listeners.reverse(),
        9 => {
            // the same values at other names
            let v: Vec<_> = e.attributes.values().cloned().collect();
            let k: Vec<_> = e.attributes.keys().cloned().collect();
            let m = v.len();
            e.attributes = k.into_iter().enumerate().map(|(i, k)| (k, v[(i + 1) % m].clone())).collect();
        }
        10 => e.text = if e.text.is_some() { None } else { Some(Cow::Borrowed("")) },
        0 => e = fresh,
        1 => e.name = fresh.name,
        2 => e.attributes = fresh.attributes,
        3 => e.listeners = fresh.listeners,
        4 => e.text = fresh.text,
        5 => {
            e.text = fresh.text;
            e.attributes.extend(fresh.attributes)
        }
        _ => {}
    }
    let n = match r.below(4) {
        0 if depth <= 1 => few(r, 0, 4),
        0 => r.below(5),
        1 if r.chance(1, 300) => r.range(60, 300),
        1 => old.children.len() + r.below(3),
        _ => old.children.len(),
    };
    for i in 0..n {
        match old.children.get(i) {
            Some(c) => e.children.push(if r.below(3) == 0 { c.clone() } else { evolve(r, c, depth.saturating_sub(1), next) }),
            None => e.children.push(grow(r, depth.saturating_sub(1).min(2), next)),
        }
    }
    e
}
fn ids(e: &Element, out: &mut Vec<usize>) {
    out.push(e.id);
    for c in &e.children {
        ids(c, out)
    }
}
/// an own reading of what the instructions mean
fn follow(root: &mut Element, ops: &[Op]) -> Result<(), String> {
    fn find(e: &mut Element, id: usize) -> Option<&mut Element> {
        let mut path = vec![];
        fn locate(e: &Element, id: usize, path: &mut Vec<usize>) -> bool {
            if e.id == id {
                return true;
            }
            for (i, c) in e.children.iter().enumerate() {
                path.push(i);
                if locate(c, id, path) {
                    return true;
                }
                path.pop();
            }
            false
        }
        if !locate(e, id, &mut path) {
            return None;
        }
        let mut e = e;
        for i in path {
            e = &mut e.children[i];
        }
        Some(e)
    }
    fn delete(e: &mut Element, id: usize) -> bool {
        if let Some(i) = e.children.iter().position(|c| c.id == id) {
            e.children.remove(i);
            return true;
        }
        e.children.iter_mut().any(|c| delete(c, id))
    }
    for op in ops {
        let id: usize = op.id.parse().map_err(|_| format!("not an identifier: {:?}", op.id))?;
        if let Instruction::DeleteEl = op.instruction {
            ensure(delete(root, id), || format!("{:?}: no such element", op))?;
            continue;
        }
        if let Instruction::CreateTag { name, parent_id } = &op.instruction {
            let p: usize = parent_id.as_ref().and_then(|p| p.parse().ok()).ok_or(format!("{:?}: no parent", op))?;
            let p = find(root, p).ok_or(format!("{:?}: no such parent", op))?;
            p.children.push(Element { id, name: name.clone().into_owned(), ..Default::default() });
            continue;
        }
        let e = find(root, id).ok_or(format!("{:?}: no such element", op))?;
        match &op.instruction {
            Instruction::SetAttribute { key, value } => {
                e.attributes.insert(key.clone().into_owned(), value.clone().into_owned());
            }
            Instruction::RemoveAttribute { key } => {
                e.attributes.remove(&key.clone().into_owned());
            }
            Instruction::SetText { value } => e.text = Some(Cow::Owned(value.to_string())),
            Instruction::RemoveText => e.text = None,
            Instruction::SetTagName { name } => e.name = name.clone().into_owned(),
            Instruction::SetId { value } => e.id = value.parse().map_err(|_| "bad id".to_string())?,
            Instruction::RemoveListeners => e.listeners.clear(),
            Instruction::AttachListener { name, on } => e.listeners.push(ListenerRef::new(name, on)),
            _ => return Err(format!("{:?}: unexpected instruction", op)),
        }
    }
    Ok(())
}
fn pair(case: &mut Case, a: &Element, b: &Element) -> Result<(), String> {
    case.input(format!("old={:?} new={:?}", a, b));
    let cs = a.diff(Some(b));
    let mut x = a.clone();
    follow(&mut x, &cs.ops)?;
    ensure(x == *b, || format!("following {:?} gives {:?}", cs.ops, x))?;
    let mut y = a.clone();
    cs.apply(&mut y);
    ensure(y == *b, || format!("applying {:?} gives {:?}", cs.ops, y))?;
    for e in [a, b] {
        let same = e.diff(Some(e));
        ensure(same.ops.is_empty(), || format!("{:?} against itself: {:?}", e, same.ops))?;
    }
    Ok(())
}
fn c16(c: &mut Ctx) {
    // every pair of shapes with up to 3 children and up to 2 grandchildren each
    c.enumerate("shapes", 13 * 13, |case, r, i| {
        let shapes: Vec<Vec<usize>> = {
            let mut v = vec![vec![]];
            for a in 0..3 {
                v.push(vec![a]);
            }
            for a in 0..3 {
                for b in 0..3 {
                    v.push(vec![a, b]);
                }
            }
            v
        };
        let (sa, sb) = (&shapes[(i % 13) as usize], &shapes[(i / 13) as usize]);
        let mk = |r: &mut Rng, s: &[usize], base: usize| {
            let mut root = node(r, 0);
            for (x, n) in s.iter().enumerate() {
                let keep = |y: usize, have: bool| if have { 10 * (x + 1) + y } else { base + 10 * (x + 1) + y };
                let mut ch = node(r, keep(0, sa.len() > x));
                for y in 0..*n {
                    ch.children.push(node(r, keep(y + 1, sa.get(x).map_or(false, |m| y < *m))));
                }
                root.children.push(ch);
            }
            root
        };
        let a = mk(r, sa, 0);
        let b = mk(r, sb, 1000);
        pair(case, &a, &b)
    });
    c.enumerate("large", 6, |case, r, i| {
        let mut n = 0;
        let mut next = || {
            n += 1;
            n
        };
        let mut a = node(r, 0);
        match i {
            0 | 1 => a.children = (0..1500).map(|_| grow(r, (i % 2) as usize, &mut next)).collect(),
            2 | 3 => {
                for _ in 0..80 {
                    let mut up = node(r, next());
                    up.children.push(a);
                    up.children.push(node(r, next()));
                    a = up;
                }
            }
            _ => {
                a.text = Some(Cow::Owned("t".repeat(70_000)));
                a.attributes = (0..500).map(|k| (Cow::Owned(format!("k{}", k)), Cow::Owned("v".repeat(k * 7)))).collect();
                a.listeners = (0..200).map(|k| ListenerRef::new(format!("n{}", k), "click")).collect();
                a.children = (0..5).map(|_| grow(r, 1, &mut next)).collect();
            }
        }
        let mut b = evolve(r, &a, if i % 4 > 1 { 90 } else { 3 }, &mut next);
        if i > 3 {
            b.text = a.text.as_ref().map(|t| Cow::Owned(near(r, t)));
            b.attributes = a.attributes.iter().map(|(k, v)| (k.clone(), if r.bool() { v.clone() } else { Cow::Owned(near(r, v)) })).collect();
            b.listeners = a.listeners.clone();
            let k = r.range(1, 199);
            b.listeners[k] = ListenerRef::new("m", "click");
        }
        pair(case, &a, &b)
    });
    c.family("trees", 4000, |case, r, i| {
        let mut n = r.below(50);
        let down = r.bool();
        let depth = r.below(4);
        // identifiers in either direction
        let mut next = || {
            n += 1;
            if down { 100_000 - n } else { n }
        };
        let a = grow(r, depth, &mut next);
        let b = evolve(r, &a, 3, &mut next);
        let mut v = vec![];
        ids(&b, &mut v);
        v.sort();
        v.dedup();
        let _ = i;
        pair(case, &a, &b)
    });
    c.family("histories", 400, |case, r, _| {
        let mut n = 0;
        let mut next = || {
            n += 1;
            n
        };
        let mut a = grow(r, 2, &mut next);
        let mut shown = a.clone();
        for _ in 0..6 {
            let b = evolve(r, &a, 3, &mut next);
            case.input(format!("old={:?} new={:?}", a, b));
            a.diff(Some(&b)).apply(&mut shown);
            ensure(shown == b, || format!("page shows {:?}", shown))?;
            a = b;
        }
        Ok(())
    });
}
// ------------------------------------------------------------ first paint
fn painted<'a>(e: &Element, parent: Option<usize>, mut ops: &'a [Op<'a>]) -> Result<&'a [Op<'a>], String> {
    let id = e.id.to_string();
    match ops.get(0) {
        Some(Op { id: i, instruction: Instruction::CreateTag { name, parent_id } })
            if *i == id && name.as_ref() == &e.name && *parent_id == parent.map(|p| p.to_string()) => {}
        o => return Err(format!("creating {} {:?} under {:?}: {:?}", id, e.name, parent, o)),
    }
    ops = &ops[1..];
    let n = e.attributes.len() + e.listeners.len() + e.text.is_some() as usize;
    ensure(ops.len() >= n, || format!("too few instructions for {}", id))?;
    let mut at = HashMap::new();
    let mut ls = vec![];
    let mut text = None;
    for o in &ops[..n] {
        ensure(o.id == id, || format!("{:?} while setting up {}", o, id))?;
        match &o.instruction {
            Instruction::SetAttribute { key, value } => {
                ensure(at.insert(key.clone().into_owned(), value.clone().into_owned()).is_none(), || format!("{:?} again", o))?
            }
            Instruction::AttachListener { name, on } => ls.push(ListenerRef::new(name, on)),
            Instruction::SetText { value } => {
                ensure(text.is_none(), || format!("{:?} again", o))?;
                text = Some(value.to_string())
            }
            _ => return Err(format!("{:?} while setting up {}", o, id)),
        }
    }
    ensure(at == e.attributes, || format!("attributes of {}: {:?}", id, at))?;
    ensure(ls == e.listeners, || format!("listeners of {}: {:?}", id, ls))?;
    ensure(text.as_deref() == e.text.as_deref(), || format!("text of {}: {:?}", id, text))?;
    ops = &ops[n..];
    for ch in &e.children {
        ops = painted(ch, Some(e.id), ops)?;
    }
    Ok(ops)
}
fn c17(c: &mut Ctx) {
    c.family("trees", 6000, |case, r, _| {
        let mut n = r.below(50);
        let mut next = || {
            n += 1;
            if n % 7 == 0 { 7 } else { n }
        };
        let depth = r.below(4);
        let e = grow(r, depth, &mut next);
        case.input(format!("tree={:?}", e));
        let cs = e.diff(None);
        let rest = painted(&e, None, &cs.ops)?;
        ensure(rest.is_empty(), || format!("after the last element: {:?}", rest))
    });
    c.enumerate("large", 1, |case, r, _| {
        let mut n = 0;
        let mut next = || {
            n += 1;
            n
        };
        let mut e = node(r, 0);
        for _ in 0..300 {
            let mut x = node(r, next());
            x.children = (0..100).map(|_| node(r, next())).collect();
            e.children.push(x);
        }
        case.input("a tree of 30301 elements".to_string());
        let cs = e.diff(None);
        let rest = painted(&e, None, &cs.ops)?;
        ensure(rest.is_empty(), || "instructions after the last element".into())
    });
    c.enumerate("deep", 3, |case, r, i| {
        let mut e = node(r, 0);
        for k in 0..(60 << i) {
            let mut up = node(r, k + 1);
            up.children.push(e);
            e = up;
        }
        case.input(format!("a chain of {} elements", 60 << i));
        let cs = e.diff(None);
        let rest = painted(&e, None, &cs.ops)?;
        ensure(rest.is_empty(), || format!("after the last element: {:?}", rest))
    });
}
// ------------------------------------------------------------ JSON
fn c18(c: &mut Ctx) {
    fn one(case: &mut Case, r: &mut Rng, kinds: &[u64], any: bool) -> Result<(), String> {
        let mut want = vec![];
        let mut input = vec![];
        let texts: Vec<(String, String, String)> = kinds.iter().map(|_| if any {
            let long = if kinds.len() < 50 && r.chance(1, 20) { r.dict_len().or(if r.chance(1, 20) { Some(70_000) } else { None }) } else { None };
            let (a, b) = (if let Some(n) = long { r.text("ab+", n, n) } else if r.chance(1, 8) { (*r.pick(&["DIV", "linearGradient", "viewBox", "touchStart"])).to_string() } else { txt(r) }, txt(r));
            let id = r.size(0, 999).to_string();
            // an argument which is the element's own identifier
            (a, if r.chance(1, 10) { id.clone() } else { b }, id)
        } else { ("k".into(), "v".into(), "1".into()) }).collect();
        let cows: Vec<(Cow<'static, str>, Cow<'static, str>)> = texts.iter().map(|t| (Cow::Owned(t.0.clone()), Cow::Owned(t.1.clone()))).collect();
        let mut ops = vec![];
        for (i, k) in kinds.iter().enumerate() {
            let (a, b, id) = texts[i].clone();
            let (ca, cb) = (Cow::Borrowed(&cows[i].0), Cow::Borrowed(&cows[i].1));
            let (instruction, ty, p) = match k {
                0 => (Instruction::InsertChild { new_child_id: a.clone() }, "insertChild", Some(a)),
                1 => (Instruction::InsertAfter { after_id: a.clone() }, "insertAfter", Some(a)),
                2 => (Instruction::InsertBefore { before_id: a.clone() }, "insertBefore", Some(a)),
                3 => (Instruction::SetAttribute { key: ca, value: cb }, "setAttr", Some(format!("{}+{}", a, b))),
                4 => (Instruction::RemoveAttribute { key: ca }, "removeAttr", Some(a)),
                5 => (Instruction::SetId { value: a.clone() }, "setId", Some(a)),
                6 => (Instruction::SetText { value: Cow::Borrowed(&cows[i].0) }, "setText", Some(a)),
                7 => (Instruction::SetTagName { name: ca }, "setTagName", Some(a)),
                8 => (Instruction::CreateTag { name: ca, parent_id: None }, "createTag", Some(format!("{}+", a))),
                9 => (Instruction::CreateTag { name: ca, parent_id: Some(b.clone()) }, "createTag", Some(format!("{}+{}", a, b))),
                10 => (Instruction::RemoveText, "removeText", None),
                11 => (Instruction::RemoveListeners, "removeListeners", None),
                12 => (Instruction::AttachListener { name: a.clone(), on: b.clone() }, "attachListener", Some(format!("{}+{}", a, b))),
                _ => (Instruction::DeleteEl, "deleteEl", None),
            };
            let mut o = serde_json::Map::new();
            o.insert("el".into(), id.clone().into());
            o.insert("ty".into(), ty.into());
            if let Some(p) = p {
                o.insert("payload".into(), p.into());
            }
            want.push(serde_json::Value::Object(o));
            let op = Op { id, instruction };
            input.push(format!("{:?}", op));
            ops.push(op);
        }
        case.input(input.join(" "));
        let s = serde_json::to_string(&InstructionSerializer(Changeset { ops })).map_err(|e| e.to_string())?;
        let got: serde_json::Value = serde_json::from_str(&s).map_err(|e| format!("{}: {}", e, s))?;
        let want = serde_json::Value::Array(want);
        ensure(got == want, || format!("serialised as {}, expected {}", s, want))?;
        // no key twice in one object, `el` first as the client does not care
        ensure(s.matches("\"ty\":").count() >= kinds.len(), || format!("serialised as {}", s))
    }
    c.enumerate("each instruction", 14, |case, r, i| one(case, r, &[i], false));
    c.enumerate("none", 1, |case, r, _| one(case, r, &[], false));
    c.enumerate("long", 2, |case, r, i| {
        let k: Vec<u64> = (0..if i == 0 { 5000 } else { 70000 }).map(|_| r.below(14) as u64).collect();
        one(case, r, &k, true)
    });
    c.family("lists", 4000, |case, r, _| {
        let k: Vec<u64> = (0..r.count(0, 7)).map(|_| r.below(14) as u64).collect();
        one(case, r, &k, true)
    });
}
// ------------------------------------------------------------ HTML to elements
#[derive(Debug, Clone)]
struct H {
    tag: usize,
    attrs: Vec<(String, String)>,
    text: String,
    listeners: Vec<(String, String)>,
    children: Vec<H>,
}
const TAGS: [&str; 15] = ["h1", "h2", "h3", "h4", "h5", "h6", "p", "form", "br", "div", "a", "input", "label", "select", "noscript"];
const IMG: usize = 15;
fn has_attrs(t: usize) -> bool {
    t != 8 && t != 14
}
fn has_text(t: usize) -> bool {
    t <= 6 || t == 10 || t == 12 || t == 14
}
/// the nodes which keep the children given to them
fn has_children(t: usize) -> bool {
    matches!(t, 6 | 7 | 9 | 11 | 13)
}
fn has_listeners(t: usize) -> bool {
    t != 8 && t != 14
}
fn hgen(r: &mut Rng, depth: usize) -> H {
    let tag = if depth > 0 && r.bool() { *r.pick(&[6usize, 7, 9, 11, 13]) } else { r.below(16) };
    H {
        tag,
        attrs: (0..few(r, 0, 2)).map(|k| (if k == 0 { r.dict_str(1, 3, |_| true).map_or("k0".to_string(), |s| s.to_string()) } else { format!("k{}", k) }, txt(r))).collect(),
        text: txt(r),
        listeners: (0..few(r, 0, 2)).map(|_| (r.text("mn", 1, 2), r.dict_str(1, 4, |_| true).unwrap_or(*r.pick(&["click", "input"])).to_string())).collect(),
        children: if depth > 0 {
            let n = if r.chance(1, 60) { r.range(5, 40) } else if depth == 1 { few(r, 0, 3) } else { r.below(4) };
            (0..n).map(|_| hgen(r, depth - 1)).collect()
        } else {
            vec![]
        },
    }
}
fn wrap(h: &H, r: &mut Rng) -> WrappedBodyNode {
    let attrs: HashMap<Cow<'static, str>, Cow<'static, str>> = h.attrs.iter().map(|(k, v)| (Cow::Owned(k.clone()), Cow::Owned(v.clone()))).collect();
    let text: Cow<'static, str> = Cow::Owned(h.text.clone());
    let mut w = match h.tag {
        0 => mal::H1 { text, attrs }.wrap(),
        1 => mal::H2 { text, attrs }.wrap(),
        2 => mal::H3 { text, attrs }.wrap(),
        3 => mal::H4 { text, attrs }.wrap(),
        4 => mal::H5 { text, attrs }.wrap(),
        5 => mal::H6 { text, attrs }.wrap(),
        6 => mal::P { text, attrs, children: vec![] }.wrap(),
        7 => mal::Form { attrs, children: vec![] }.wrap(),
        8 => mal::Br {}.wrap(),
        9 => mal::Div { attrs, children: vec![] }.wrap(),
        10 => mal::A { text, attrs }.wrap(),
        11 => mal::Input { attrs }.wrap(),
        12 => mal::Label { text, attrs }.wrap(),
        13 => mal::Select { attrs, children: vec![] }.wrap(),
        14 => mal::NoScript { text }.wrap(),
        _ => mal::Img { attrs }.wrap(),
    };
    for (n, e) in &h.listeners {
        w = w.listener(ListenerRef::new(n, e));
    }
    // children one by one, or in groups
    let kids: Vec<WrappedBodyNode> = h.children.iter().map(|c| wrap(c, r)).collect();
    let k = if r.bool() { kids.len() } else { r.below(kids.len() + 1) };
    let mut rest = vec![];
    for (i, x) in kids.into_iter().enumerate() {
        if i < k {
            w = w.child(x);
        } else {
            rest.push(x);
        }
    }
    w.children(rest)
}
fn elem(h: &H, n: &mut usize) -> Element {
    let id = *n;
    *n += 1;
    Element {
        id,
        name: Cow::Borrowed(if h.tag == IMG { "img" } else { TAGS[h.tag] }),
        attributes: if has_attrs(h.tag) { h.attrs.iter().map(|(k, v)| (Cow::Owned(k.clone()), Cow::Owned(v.clone()))).collect() } else { HashMap::new() },
        listeners: if has_listeners(h.tag) { h.listeners.iter().map(|(a, b)| ListenerRef::new(a, b)).collect() } else { vec![] },
        children: if has_children(h.tag) { h.children.iter().map(|c| elem(c, n)).collect() } else { vec![] },
        text: if has_text(h.tag) { Some(Cow::Owned(h.text.clone())) } else { None },
        key: None,
    }
}
fn c19(c: &mut Ctx) {
    fn one(case: &mut Case, r: &mut Rng, h: &H, start: usize) -> Result<(), String> {
        case.input(format!("from {}: {:?}", start, h));
        let mut g = IdGen::new();
        for k in 0..start {
            let x = g.new_id();
            ensure(x == k, || format!("identifier number {} is {}", k, x))?;
        }
        let got = wrap(h, r).into_element(&mut g);
        let mut n = start;
        let want = elem(h, &mut n);
        ensure(got == want, || format!("made {:?}, expected {:?}", got, want))?;
        let next = g.new_id();
        ensure(next == n, || format!("the next identifier is {}, expected {}", next, n))
    }
    c.enumerate("each node", 16 * 4, |case, r, i| {
        let leaf = |t| H { tag: t, attrs: vec![("a".into(), "b".into())], text: "t".into(), listeners: vec![("n".into(), "click".into())], children: vec![] };
        let mut h = leaf((i % 16) as usize);
        match i / 16 {
            1 => h.children = vec![leaf(9), leaf(0)],
            2 => h.children = vec![H { children: vec![leaf(15), leaf(6)], ..leaf(9) }, leaf(0), leaf(8)],
            3 => h = H { children: vec![h, leaf(9)], ..leaf(7) },
            _ => {}
        }
        one(case, r, &h, i as usize % 3)
    });
    c.family("trees", 4000, |case, r, _| {
        let d = r.below(5);
        let h = hgen(r, d);
        let s = r.dict_num(1, 3).filter(|n| *n < 100_000).unwrap_or(r.below(4));
        one(case, r, &h, s)
    });
    c.enumerate("large", 4, |case, r, i| {
        let leaf = |r: &mut Rng| hgen(r, 0);
        let mut h = hgen(r, 0);
        h.tag = 9;
        let mut start = 0;
        match i {
            0 => h.children = (0..5000).map(|_| leaf(r)).collect(),
            1 => {
                for k in 0..200 {
                    h = H { tag: [6, 7, 9, 11, 13][k % 5], attrs: vec![], text: format!("{}", k), listeners: vec![], children: vec![leaf(r), h, leaf(r)] };
                }
            }
            2 => start = 70_000,
            _ => {
                h.listeners = (0..300).map(|k| (format!("n{}", k), "click".to_string())).collect();
                h.attrs = (0..300).map(|k| (format!("k{}", k), "v".to_string())).collect();
                h.text = "t".repeat(100_000);
            }
        }
        one(case, r, &h, start)
    });
}
// ------------------------------------------------------------ C27: HTML text
const ORDINARY: [&str; 14] = ["div", "p", "span", "h1", "a", "label", "section", "x-y", "ul", "li", "em", "b", "button", "i"];
/// void elements, and those whose content is not read as usual
const UNUSUAL: [&str; 28] = [
    "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr", "script", "style", "textarea",
    "title", "pre", "listing", "plaintext", "xmp", "iframe", "noembed", "noframes", "noscript", "template", "keygen",
];
fn tag_name(s: &str) -> bool {
    s.starts_with(|c: char| c.is_ascii_lowercase()) && s.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '-') && !UNUSUAL.contains(&s)
}
fn attr_name(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| !c.is_ascii_uppercase() && !c.is_ascii_control() && c != '\0' && !" \t\n\r\u{c}\"'<>/=`".contains(c))
}
fn marked(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        match r.below(4) {
            0 => s.push_str(&txt(r)),
            1 => s.push_str(*r.pick(&["&", "<", ">", "\"", "'", "&&", "<<", "\"\"", "=", "/", " ", "\n"])),
            2 => s.push_str(*r.pick(&["&amp;", "&lt;b&gt;", "</p>", "</div>", "<b>", "<b", "' x='", "\" x=\"y", "a&b", "&copy;", "&copy", "&#65;", "&#x41;", "&quot", "<!-- ", "-->", "]]>", "<?a", "<!a>", "&lt", "&gt;x", "/>"])),
            _ => s.push_str(&r.text("ab<>&\"'; ", 0, 8)),
        }
    }
    s.retain(|c| c != '\r' && c != '\0');
    s
}
fn ordinary(r: &mut Rng, depth: usize) -> Element {
    let mut attributes = HashMap::new();
    for _ in 0..few(r, 0, 3) {
        let k = r.dict_str(1, 3, |_| true).filter(|s| attr_name(s)).unwrap_or(*r.pick(&["a", "b", "class", "id", "data-a", "onclick", "x1", "aria-label", "é", "value", "style", "a:b"])).to_string();
        attributes.insert(Cow::Owned(k), Cow::Owned(marked(r)));
    }
    let n = if depth == 0 { 0 } else { few(r, 0, 3) };
    let n = if depth > 1 { n.min(4) } else { n };
    Element {
        id: r.below(5),
        name: Cow::Borrowed(r.dict_str(1, 4, |_| true).filter(|s| tag_name(s)).unwrap_or(*r.pick(&ORDINARY))),
        attributes,
        listeners: listeners(r),
        children: (0..n).map(|_| ordinary(r, depth - 1)).collect(),
        text: if r.chance(2, 3) { Some(Cow::Owned(marked(r))) } else { None },
        key: if r.chance(1, 5) { Some(txt(r)) } else { None },
    }
}
/// What HTML text says: the states of HTML's tokeniser which ordinary elements need.
struct Rd<'a> {
    s: &'a [char],
    p: usize,
}
impl<'a> Rd<'a> {
    fn at(&self, t: &str) -> bool {
        t.chars().enumerate().all(|(i, c)| self.s.get(self.p + i) == Some(&c))
    }
    fn blank(&mut self) {
        while self.p < self.s.len() && " \t\n\u{c}\r".contains(self.s[self.p]) {
            self.p += 1;
        }
    }
    /// a character, or a reference to one
    fn chr(&mut self, attr: bool, o: &mut String) {
        let c = self.s[self.p];
        if c == '&' {
            if self.at("&#") {
                let hex = self.at("&#x") || self.at("&#X");
                let mut q = self.p + if hex { 3 } else { 2 };
                let a = q;
                while q < self.s.len() && self.s[q].is_digit(if hex { 16 } else { 10 }) {
                    q += 1;
                }
                let d: String = self.s[a..q].iter().collect();
                if let Some(c) = u32::from_str_radix(&d, if hex { 16 } else { 10 }).ok().and_then(char::from_u32) {
                    o.push(c);
                    self.p = if self.s.get(q) == Some(&';') { q + 1 } else { q };
                    return;
                }
            }
            for (n, c, bare) in [("amp", '&', true), ("lt", '<', true), ("gt", '>', true), ("quot", '"', true), ("apos", '\'', false), ("copy", '©', true), ("nbsp", '\u{a0}', true), ("reg", '®', true), ("not", '¬', true), ("times", '×', true)] {
                if self.at(&format!("&{}", n)) {
                    let e = self.p + 1 + n.len();
                    let next = self.s.get(e).copied();
                    if next == Some(';') {
                        o.push(c);
                        self.p = e + 1;
                        return;
                    }
                    if bare && !(attr && next.map_or(false, |x| x == '=' || x.is_ascii_alphanumeric())) {
                        o.push(c);
                        self.p = e;
                        return;
                    }
                }
            }
        }
        o.push(c);
        self.p += 1;
    }
    fn tag(&mut self) -> (String, Vec<(String, String)>) {
        let mut name = String::new();
        while self.p < self.s.len() && !" \t\n\u{c}\r/>".contains(self.s[self.p]) {
            name.push(self.s[self.p].to_ascii_lowercase());
            self.p += 1;
        }
        let mut attrs: Vec<(String, String)> = vec![];
        loop {
            self.blank();
            match self.s.get(self.p) {
                None => return (name, attrs),
                Some('>') => {
                    self.p += 1;
                    return (name, attrs);
                }
                Some('/') => self.p += 1,
                Some(_) => {
                    let mut k = String::new();
                    while self.p < self.s.len() && !" \t\n\u{c}\r/>".contains(self.s[self.p]) && (k.is_empty() || self.s[self.p] != '=') {
                        k.push(self.s[self.p].to_ascii_lowercase());
                        self.p += 1;
                    }
                    let mut v = String::new();
                    self.blank();
                    if self.at("=") {
                        self.p += 1;
                        self.blank();
                        match self.s.get(self.p) {
                            Some(&q) if q == '"' || q == '\'' => {
                                self.p += 1;
                                while self.p < self.s.len() && self.s[self.p] != q {
                                    self.chr(true, &mut v);
                                }
                                self.p += 1;
                            }
                            Some('>') => {}
                            _ => {
                                while self.p < self.s.len() && !" \t\n\u{c}\r>".contains(self.s[self.p]) {
                                    self.chr(true, &mut v);
                                }
                            }
                        }
                    }
                    if !attrs.iter().any(|a| a.0 == k) {
                        attrs.push((k, v));
                    }
                }
            }
        }
    }
    fn letter(&self, k: usize) -> bool {
        self.s.get(self.p + k).map_or(false, |c| c.is_ascii_alphabetic())
    }
}
#[derive(PartialEq, Debug)]
enum Tok {
    Open(String, Vec<(String, String)>),
    Text(String),
    Close(String),
    Other(String),
}
fn tokens(s: &str) -> Vec<Tok> {
    let cs: Vec<char> = s.chars().collect();
    let mut r = Rd { s: &cs, p: 0 };
    let mut out = vec![];
    while r.p < cs.len() {
        if r.at("</") && r.letter(2) {
            r.p += 2;
            let (n, _) = r.tag();
            out.push(Tok::Close(n));
        } else if r.at("<") && r.letter(1) {
            r.p += 1;
            let (n, mut a) = r.tag();
            a.sort();
            out.push(Tok::Open(n, a));
        } else if r.at("<!") || r.at("<?") || r.at("</") {
            let a = r.p;
            while r.p < cs.len() && cs[r.p] != '>' {
                r.p += 1;
            }
            out.push(Tok::Other(cs[a..r.p].iter().collect()));
            r.p += 1;
        } else {
            let mut t = String::new();
            r.chr(false, &mut t);
            match out.last_mut() {
                Some(Tok::Text(x)) => x.push_str(&t),
                _ => out.push(Tok::Text(t)),
            }
        }
    }
    out
}
fn expected(e: &Element, out: &mut Vec<Tok>) {
    let mut a: Vec<(String, String)> = e.attributes.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    a.sort();
    out.push(Tok::Open(e.name.to_string(), a));
    if let Some(t) = &e.text {
        if !t.is_empty() {
            out.push(Tok::Text(t.to_string()));
        }
    }
    for c in &e.children {
        expected(c, out);
    }
    out.push(Tok::Close(e.name.to_string()));
}
fn c27(c: &mut Ctx) {
    fn one(case: &mut Case, e: &Element) -> Result<(), String> {
        case.input(format!("{:?}", e));
        let before = e.clone();
        let html = e.render();
        ensure(*e == before, || "rendering changes the element".to_string())?;
        let mut want = vec![];
        expected(e, &mut want);
        let got = tokens(&html);
        let k = (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i));
        ensure(k.is_none(), || {
            let k = k.unwrap();
            format!("token {} reads {:?}, expected {:?}, in {:?}", k, got.get(k), want.get(k), html.chars().take(300).collect::<String>())
        })
    }
    let bare = |name: &'static str| Element { name: Cow::Borrowed(name), ..Default::default() };
    c.enumerate("characters", 2 * 160, |case, _, i| {
        let ch = match (i / 2) as u32 {
            n @ 0..=127 => char::from_u32(n).unwrap(),
            n => *['\u{80}', '\u{a0}', 'é', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{10ffff}', '\u{1f600}'].get((n - 128) as usize % 8).unwrap(),
        };
        if ch == '\r' || ch == '\0' {
            return Ok(());
        }
        let t = format!("x{}y", ch);
        let mut e = bare("div");
        if i % 2 == 0 {
            e.text = Some(Cow::Owned(t));
        } else {
            e.attributes.insert(Cow::Borrowed("a"), Cow::Owned(t));
            e.attributes.insert(Cow::Borrowed("b"), Cow::Owned(ch.to_string()));
        }
        one(case, &e)
    });
    c.family("trees", 4000, |case, r, _| {
        let d = r.below(4);
        let e = ordinary(r, d);
        one(case, &e)
    });
    c.enumerate("large", 5, |case, r, i| {
        let mut e = ordinary(r, 1);
        match i {
            0 => e.children = (0..3000).map(|_| ordinary(r, 0)).collect(),
            1 => {
                for k in 0..150 {
                    e = Element { text: Some(Cow::Owned(format!("{}<", k))), children: vec![ordinary(r, 0), e, ordinary(r, 0)], ..bare(ORDINARY[k % 14]) };
                }
            }
            2 => e.text = Some(Cow::Owned("a<b>&\"c ".repeat(20_000))),
            3 => e.attributes = (0..400).map(|k| (Cow::Owned(format!("k{}", k)), Cow::Owned(marked(r)))).collect(),
            _ => drop(e.attributes.insert(Cow::Borrowed("v"), Cow::Owned("\"&<' ".repeat(20_000)))),
        }
        one(case, &e)
    });
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string());
    let prop = a.get(1).cloned().unwrap_or_default();
    let only = if a.iter().any(|x| x == "--family") { Some((get("--family", ""), get("--index", "0").parse().unwrap())) } else { None };
    let mut c = Ctx::new(&prop, get("--seed", "1").parse().unwrap(), get("--scale", "1").parse().unwrap(), get("--secs", "60").parse().unwrap(), only);
    match prop.as_str() {
        "C16" => c16(&mut c),
        "C17" => c17(&mut c),
        "C18" => c18(&mut c),
        "C19" => c19(&mut c),
        "C27" => c27(&mut c),
        _ => std::process::exit(2),
    }
    println!("RESULT {}", c.json());
}
