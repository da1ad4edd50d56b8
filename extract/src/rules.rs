//! The rewriting rules.  Each is an expansion that keeps the meaning of the code (DESIGN.md gives
//! the argument for each); each application is counted.
use crate::source::{toks, Found};
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub enum Pat {
    Tok(String),
    One(String),
    Many(String),
    Grp(Delimiter, Vec<Pat>),
}
pub fn pattern(ts: TokenStream) -> Vec<Pat> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    let dollar = |t: Option<&TokenTree>| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == '$');
    while i < v.len() {
        if dollar(v.get(i)) && dollar(v.get(i + 1)) {
            out.push(Pat::Many(v[i + 2].to_string()));
            i += 3;
        } else if dollar(v.get(i)) {
            out.push(Pat::One(v[i + 1].to_string()));
            i += 2;
        } else {
            match &v[i] {
                TokenTree::Group(g) => out.push(Pat::Grp(g.delimiter(), pattern(g.stream()))),
                t => out.push(Pat::Tok(t.to_string())),
            }
            i += 1;
        }
    }
    out
}
type Bind = HashMap<String, Vec<TokenTree>>;
fn match_at(p: &[Pat], v: &[TokenTree], b: &mut Bind, whole: bool) -> Option<usize> {
    if p.is_empty() {
        return if whole && !v.is_empty() { None } else { Some(0) };
    }
    match &p[0] {
        Pat::Tok(s) => {
            if v.first().map(|t| !matches!(t, TokenTree::Group(_)) && t.to_string() == *s).unwrap_or(false) {
                match_at(&p[1..], &v[1..], b, whole).map(|n| n + 1)
            } else {
                None
            }
        }
        Pat::One(n) => {
            let t = v.first()?;
            if let Some(x) = b.get(n) {
                if x.len() != 1 || x[0].to_string() != t.to_string() {
                    return None;
                }
            }
            b.insert(n.clone(), vec![t.clone()]);
            match_at(&p[1..], &v[1..], b, whole).map(|n| n + 1)
        }
        Pat::Many(n) => {
            for k in 0..=v.len() {
                // never across a statement end
                if k > 0 && matches!(&v[k - 1], TokenTree::Punct(q) if q.as_char() == ';') {
                    break;
                }
                let mut b2 = b.clone();
                b2.insert(n.clone(), v[..k].to_vec());
                if let Some(m) = match_at(&p[1..], &v[k..], &mut b2, whole) {
                    *b = b2;
                    return Some(m + k);
                }
            }
            None
        }
        Pat::Grp(d, inner) => {
            if let Some(TokenTree::Group(g)) = v.first() {
                if g.delimiter() == *d {
                    let mut iv: Vec<TokenTree> = g.stream().into_iter().collect();
                    // a trailing comma means nothing among several arguments
                    let comma = |t: &TokenTree| matches!(t, TokenTree::Punct(q) if q.as_char() == ',');
                    if iv.len() > 2 && comma(iv.last().unwrap()) && iv[..iv.len() - 1].iter().any(comma) && !matches!(inner.last(), Some(Pat::Tok(s)) if s == ",") {
                        iv.pop();
                    }
                    match_at(inner, &iv, b, true)?;
                    return match_at(&p[1..], &v[1..], b, whole).map(|n| n + 1);
                }
            }
            None
        }
    }
}
fn subst(ts: TokenStream, b: &Bind) -> Vec<TokenTree> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                let mut k = i + 1;
                if matches!(&v[k], TokenTree::Punct(p) if p.as_char() == '$') {
                    k += 1;
                }
                out.extend(b.get(&v[k].to_string()).cloned().unwrap_or_default());
                i = k + 1;
            }
            TokenTree::Group(g) => {
                out.push(TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), b).into_iter().collect())));
                i += 1;
            }
            t => {
                out.push(t.clone());
                i += 1;
            }
        }
    }
    out
}
#[derive(Clone)]
pub struct Map {
    pub name: String,
    pub pat: Vec<Pat>,
    pub repl: TokenStream,
}
pub fn apply_map(ts: TokenStream, m: &Map, n: &mut usize) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut b = Bind::new();
        // a pattern that starts with an identifier must not match behind `.` or `::`
        let punct = |k: usize, c: char| out.len() >= k && matches!(&out[out.len() - k], TokenTree::Punct(p) if p.as_char() == c);
        let glued = (punct(1, '.') && !punct(2, '.') || punct(1, ':') && punct(2, ':'))
            && matches!(m.pat.first(), Some(Pat::Tok(s)) if s.chars().next().map(|c| c.is_alphabetic()).unwrap_or(false));
        if !glued {
            if let Some(k) = match_at(&m.pat, &v[i..], &mut b, false) {
                if k > 0 {
                    *n += 1;
                    // rewrite inside the bound parts too
                    for x in b.values_mut() {
                        let inner: TokenStream = x.drain(..).collect();
                        *x = apply_map(inner, m, n).into_iter().collect();
                    }
                    out.extend(subst(m.repl.clone(), &b));
                    i += k;
                    continue;
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), apply_map(g.stream(), m, n));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

pub struct Rw<'a> {
    pub types: &'a [(String, Type)],
    pub drops: &'a HashSet<String>,
    pub streams: HashSet<String>,
    pub locals: HashSet<String>,
    pub opts: HashSet<String>,
    pub counts: BTreeMap<String, usize>,
    pub fresh: usize,
}
impl<'a> Rw<'a> {
    fn hit(&mut self, r: &str) {
        *self.counts.entry(r.to_string()).or_insert(0) += 1;
    }
    fn name(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        Ident::new(&format!("__{}{}", p, self.fresh), proc_macro2::Span::call_site())
    }
}

fn strip_ref(e: &Expr) -> &Expr {
    match strip(e) {
        Expr::Reference(r) => &r.expr,
        e => e,
    }
}
/// `b".."` or `"..".as_bytes()` with ASCII text
fn ascii_bytes(e: &Expr) -> Option<String> {
    match strip_ref(e) {
        Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) if b.value().is_ascii() => String::from_utf8(b.value()).ok(),
        // a byte string which has been rewritten
        Expr::Array(a) => {
            let mut v = vec![];
            for x in &a.elems {
                match x {
                    Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) if n.suffix() == "u8" => v.push(n.base10_parse::<u8>().ok().filter(|b| b.is_ascii())?),
                    _ => return None,
                }
            }
            String::from_utf8(v).ok()
        }
        Expr::MethodCall(m) if m.method == "as_bytes" => match strip(&m.receiver) {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) if s.value().is_ascii() => Some(s.value()),
            _ => None,
        },
        _ => None,
    }
}
/// `y.iter().cycle()`, for a place `y`
fn cycled(e: &Expr) -> Option<Expr> {
    if let Expr::MethodCall(c) = strip(e) {
        if let (true, Expr::MethodCall(i)) = (c.method == "cycle" && c.args.is_empty(), strip(&c.receiver)) {
            if i.method == "iter" && i.args.is_empty() && is_place(&i.receiver) {
                return Some((*i.receiver).clone());
            }
        }
    }
    None
}
/// written as a `&str` or `&String`
fn is_text(e: &Expr) -> bool {
    match strip(e) {
        Expr::Reference(r) => r.mutability.is_none(),
        Expr::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
        Expr::MethodCall(m) => m.method == "as_str",
        _ => false,
    }
}
fn closure1(e: &Expr) -> Option<(syn::Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 {
            let p = match &c.inputs[0] {
                syn::Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            return keeps(&c.body).then(|| (p, (*c.body).clone()));
        }
    }
    if let Expr::Path(f) = e {
        return Some((parse_quote!(__y), parse_quote!(#f(__y))));
    }
    None
}
/// no `return` or `?`, which would mean something else outside of the closure
fn keeps(b: &Expr) -> bool {
    let mut h = HasReturn { ret: false, question: false };
    h.visit_expr(b);
    !h.ret && !h.question
}
/// an expression which does nothing but give a value: a literal, a name, a path
fn quiet(e: &Expr) -> bool {
    match strip(e) {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Unary(u) => quiet(&u.expr),
        Expr::Reference(r) => quiet(&r.expr),
        _ => false,
    }
}
#[derive(PartialEq, Clone, Copy)]
enum Kind {
    Opt,
    Res,
}
/// Whether an expression is an `Option` or a `Result`, as far as its form tells.  A wrong guess
/// gives code which does not type-check.
fn kind(e: &Expr) -> Option<Kind> {
    match strip(e) {
        Expr::MethodCall(m) => match (m.method.to_string().as_str(), m.args.len()) {
            ("map_err" | "ok_or" | "ok_or_else" | "read_exact" | "write_all" | "parse" | "try_into" | "flush" | "read_line" | "read_until" | "read_to_end" | "read_to_string", _) => Some(Kind::Res),
            ("ok" | "err" | "first" | "last" | "pop" | "pop_front" | "strip_prefix" | "strip_suffix" | "split_once" | "position" | "find" | "find_map" | "nth" | "get" | "get_mut" | "next" | "checked_add" | "checked_sub" | "checked_mul" | "split_first" | "split_last" | "domain" | "host_str", _) => Some(Kind::Opt),
            ("map" | "and_then" | "or_else" | "as_ref" | "as_mut" | "or" | "cloned" | "copied" | "filter" | "as_deref", _) => kind(&m.receiver),
            _ => None,
        },
        Expr::Call(c) => {
            let s = toks(&c.func);
            if s.ends_with("from_utf8") || s.ends_with("try_from") || s.ends_with("from_str") || s == "Ok" || s == "Err" || s.ends_with("Url::parse") || s.ends_with("Url :: parse") {
                Some(Kind::Res)
            } else if s == "Some" {
                Some(Kind::Opt)
            } else {
                None
            }
        }
        Expr::Match(m) => m.arms.iter().find_map(|a| kind(&a.body)),
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(e, None)) => kind(e),
            _ => None,
        },
        Expr::If(i) => match i.then_branch.stmts.last() {
            Some(Stmt::Expr(e, None)) => kind(e),
            _ => None,
        },
        Expr::Path(p) if p.path.is_ident("None") => Some(Kind::Opt),
        _ => None,
    }
}
fn closure0(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Closure(c) if c.inputs.is_empty() => keeps(&c.body).then(|| (*c.body).clone()),
        Expr::Path(p) => Some(parse_quote!(#p())),
        _ => None,
    }
}

pub enum Piece {
    Lit(String),
    Arg(Expr),
    /// an argument printed in another way than `{}`
    Other(Expr),
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
struct Names(Vec<String>);
impl<'ast> Visit<'ast> for Names {
    fn visit_ident(&mut self, i: &'ast Ident) {
        self.0.push(i.to_string());
    }
}
/// Splits a format string with plain `{}` / `{name}` placeholders.
pub fn format_pieces(args: &[Expr]) -> Option<Vec<Piece>> {
    let s = match args.first()? {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
        _ => return None,
    };
    let mut pos: Vec<Expr> = vec![];
    let mut named: HashMap<String, Expr> = HashMap::new();
    for a in &args[1..] {
        if let Expr::Assign(x) = a {
            named.insert(toks(&x.left), (*x.right).clone());
        } else {
            pos.push(a.clone());
        }
    }
    let mut out = vec![];
    let mut lit = String::new();
    let cs: Vec<char> = s.chars().collect();
    let (mut i, mut k) = (0, 0);
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => {
                lit.push('{');
                i += 2;
            }
            '}' if cs.get(i + 1) == Some(&'}') => {
                lit.push('}');
                i += 2;
            }
            '{' => {
                let end = cs[i..].iter().position(|c| *c == '}')? + i;
                let name: String = cs[i + 1..end].iter().collect();
                let (name, other) = match name.split_once(':') {
                    Some((n, how)) => (n.to_string(), !how.is_empty()),
                    None => (name, false),
                };
                if !lit.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut lit)));
                }
                let e = if name.is_empty() {
                    k += 1;
                    pos.get(k - 1)?.clone()
                } else if let Ok(n) = name.parse::<usize>() {
                    pos.get(n)?.clone()
                } else if let Some(e) = named.get(&name) {
                    e.clone()
                } else {
                    parse_str::<Expr>(&name).ok()?
                };
                out.push(if other { Piece::Other(e) } else { Piece::Arg(e) });
                i = end + 1;
            }
            c => {
                lit.push(c);
                i += 1;
            }
        }
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    Some(out)
}
fn macro_args(m: &Macro) -> Option<Vec<Expr>> {
    let p = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    Some(p.into_iter().collect())
}

fn str_lits(p: &syn::Pat) -> Option<Vec<Expr>> {
    match p {
        syn::Pat::Lit(l) => match &l.lit {
            Lit::Str(_) => Some(vec![Expr::Lit(ExprLit { attrs: vec![], lit: l.lit.clone() })]),
            _ => None,
        },
        syn::Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(str_lits(c)?);
            }
            Some(v)
        }
        _ => None,
    }
}
/// `match s { "a" => x, _ => y }` is `match s { m => if m == "a" { x } else { y } }`
fn match_str(m: &ExprMatch, n: &Ident) -> Option<Expr> {
    if m.arms.len() < 2 || m.arms.iter().any(|a| a.guard.is_some()) {
        return None;
    }
    let (last, firsts) = m.arms.split_last().unwrap();
    let body = &last.body;
    let mut e: Expr = match &last.pat {
        syn::Pat::Wild(_) => parse_quote!({ #body }),
        syn::Pat::Ident(i) if i.subpat.is_none() && i.ident.to_string().chars().next().unwrap().is_lowercase() => parse_quote!({ let #i = #n; #body }),
        _ => return None,
    };
    for a in firsts.iter().rev() {
        let ls = str_lits(&a.pat)?;
        let body = &a.body;
        e = parse_quote!(if #(#n == #ls)||* { #body } else #e);
    }
    let s = &m.expr;
    Some(parse_quote!(match #s { #n => #e }))
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if p.segments.len() > 1 && ["crate", "super", "self"].contains(&first.as_str()) {
            let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
            let n = segs.len();
            let k = segs
                .iter()
                .take(n - 1)
                .position(|s| s.ident.to_string().chars().next().map(|c| c.is_uppercase()).unwrap_or(false))
                .unwrap_or(n - 1);
            p.segments = segs[k..].iter().cloned().collect();
            p.leading_colon = None;
            self.hit("path-prefix");
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = toks(t);
        if let Some((_, r)) = self.types.iter().find(|(k, _)| *k == s) {
            *t = r.clone();
            self.hit("type-map");
            return;
        }
        visit_mut::visit_type_mut(self, t);
        let s = toks(t);
        if let Some((_, r)) = self.types.iter().find(|(k, _)| *k == s) {
            *t = r.clone();
            self.hit("type-map");
        }
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let before = b.stmts.len();
        let drops = self.drops;
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => !drops.contains(&m.mac.path.segments.last().unwrap().ident.to_string()),
            _ => true,
        });
        for _ in b.stmts.len()..before {
            self.hit("log-dropped");
        }
        for s in b.stmts.iter_mut() {
            match s {
                // attributes on statements
                Stmt::Local(l) => l.attrs.clear(),
                // `write!(..)` as the last statement parses as a macro statement
                Stmt::Macro(m) if m.semi_token.is_none() => {
                    *s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }), None);
                }
                Stmt::Macro(m) if ["write", "vec", "format"].contains(&m.mac.path.segments.last().unwrap().ident.to_string().as_str()) => {
                    *s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }), m.semi_token);
                }
                _ => {}
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        if let Expr::Reference(r) = &*f.expr {
            if r.mutability.is_none() {
                let x = &r.expr;
                f.expr = Box::new(parse_quote!(#x.iter()));
                self.hit("for-ref-to-iter");
            }
        }
        if self.opts.contains("pairs") && matches!(&*f.expr, Expr::Path(_)) {
            let x = &f.expr;
            f.expr = Box::new(parse_quote!(#x.into_iter()));
            self.hit("for-into-iter");
        }
        if f.label.is_none() {
            let old = f.body.stmts.clone();
            if let Some(b) = without_continue(&f.body.stmts, 0) {
                f.body.stmts = b;
                self.hit("continue-to-branch");
            }
            if continues(&f.body) {
                if let Some(b) = continue_free(&parse_quote!({ #(#old)* })) {
                    f.body = b;
                    self.hit("continue-to-branch");
                }
            }
        }
        visit_mut::visit_expr_for_loop_mut(self, f);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // attributes on expressions
        match e {
            Expr::If(x) => x.attrs.clear(),
            Expr::Match(x) => {
                x.attrs.clear();
                for a in x.arms.iter_mut() {
                    a.attrs.clear();
                }
            }
            Expr::Block(x) => x.attrs.clear(),
            _ => {}
        }
        // `for p in place.iter_mut()` takes the mutable references one by one; so do `.enumerate()` and `.zip(x.iter().cycle())` of it
        if let Expr::ForLoop(f) = &*e {
            let mut counter: Option<syn::Pat> = None;
            let mut other: Option<(syn::Pat, Expr)> = None;
            let mut p = (*f.pat).clone();
            let mut src = strip(&f.expr).clone();
            if let (Expr::MethodCall(m), syn::Pat::Tuple(t)) = (&src, &p) {
                if t.elems.len() == 2 {
                    if m.method == "enumerate" && m.args.is_empty() {
                        counter = Some(t.elems[0].clone());
                        let q = t.elems[1].clone();
                        src = strip(&m.receiver).clone();
                        p = q;
                    } else if let Some(y) = (m.method == "zip" && m.args.len() == 1).then(|| cycled(&m.args[0])).flatten() {
                        other = Some((t.elems[1].clone(), y));
                        let q = t.elems[0].clone();
                        src = strip(&m.receiver).clone();
                        p = q;
                    }
                }
            }
            if let Expr::MethodCall(m) = &src {
                if m.method == "iter_mut" && m.args.is_empty() && is_place(&m.receiver) && f.label.is_none() {
                    let x = m.receiver.clone();
                    let (its, n, k) = (self.name("its"), self.name("n"), self.name("k"));
                    let mut lets: Vec<Stmt> = vec![];
                    if let Some(c) = counter {
                        lets.push(parse_quote!(let #c = #k;));
                    }
                    if let Some((q, y)) = other {
                        lets.push(parse_quote!(let #q = &#y[#k % #y.len()];));
                    }
                    let body = &f.body.stmts;
                    *e = parse_quote!({
                        let mut #its = muts(&mut #x);
                        let #n = #its.len();
                        for #k in 0..#n {
                            let #p = next_mut(&mut #its);
                            #(#lets)*
                            #(#body)*
                        }
                    });
                    self.hit("iter_mut-one-by-one");
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let new: Option<(Expr, &str)> = match e {
            Expr::MethodCall(m) => {
                let recv = &m.receiver;
                let meth = m.method.to_string();
                match (meth.as_str(), m.args.len()) {
                    ("clone", 0) if self.streams.contains(&toks(recv)) => Some(((**recv).clone(), "stream-handle")),
                    ("map_err", 1) => closure1(&m.args[0]).map(|(p, b)| {
                        (parse_quote!(match #recv { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }), "map_err")
                    }),
                    ("map", 1) if kind(recv) == Some(Kind::Res) => closure1(&m.args[0]).map(|(p, b)| {
                        (parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(__e) => Err(__e) }), "result-map")
                    }),
                    ("and_then", 1) if kind(recv) == Some(Kind::Res) => closure1(&m.args[0]).map(|(p, b)| {
                        (parse_quote!(match #recv { Ok(#p) => #b, Err(__e) => Err(__e) }), "result-and_then")
                    }),
                    ("unwrap_or_else", 1) if kind(recv) == Some(Kind::Res) => closure1(&m.args[0]).map(|(p, b)| {
                        (parse_quote!(match #recv { Ok(__v) => __v, Err(#p) => #b }), "result-unwrap_or_else")
                    }),
                    ("map_or", 2) if (kind(recv) == Some(Kind::Opt) || kind(recv).is_none() && self.opts.contains("option")) && quiet(&m.args[0]) => closure1(&m.args[1]).map(|(p, b)| {
                        let d = &m.args[0];
                        (parse_quote!(match #recv { Some(#p) => #b, None => #d }), "option-map_or")
                    }),
                    ("map_or", 2) if kind(recv) == Some(Kind::Res) && quiet(&m.args[0]) => closure1(&m.args[1]).map(|(p, b)| {
                        let d = &m.args[0];
                        (parse_quote!(match #recv { Ok(#p) => #b, Err(_) => #d }), "result-map_or")
                    }),
                    ("ok_or_else", 1) => closure0(&m.args[0]).map(|b| {
                        (parse_quote!(match #recv { Some(__v) => Ok(__v), None => Err(#b) }), "ok_or_else")
                    }),
                    ("ok", 0) => Some((parse_quote!(match #recv { Ok(__v) => Some(__v), Err(_) => None }), "result-ok")),
                    ("is_some_and", 1) => closure1(&m.args[0]).map(|(p, b)| {
                        (parse_quote!(match #recv { Some(#p) => #b, None => false }), "is_some_and")
                    }),
                    ("filter", 1) if kind(recv) == Some(Kind::Opt) => closure1(&m.args[0]).map(|(p, b)| {
                        let x = self.name("x");
                        (parse_quote!(match #recv { Some(#x) => { let __keep = { let #p = &#x; #b }; if __keep { Some(#x) } else { None } } None => None }), "option-filter")
                    }),
                    ("is_ok_and", 1) => closure1(&m.args[0]).map(|(p, b)| {
                        (parse_quote!(match #recv { Ok(#p) => #b, Err(_) => false }), "is_ok_and")
                    }),
                    ("and_then", 1) if self.opts.contains("option") || kind(recv) == Some(Kind::Opt) => closure1(&m.args[0]).map(|(p, b)| {
                        (parse_quote!(match #recv { Some(#p) => #b, None => None }), "option-and_then")
                    }),
                    ("map", 1) if self.opts.contains("option") || kind(recv) == Some(Kind::Opt) => closure1(&m.args[0]).map(|(p, b)| {
                        (parse_quote!(match #recv { Some(#p) => Some(#b), None => None }), "option-map")
                    }),
                    ("unwrap_or_else", 1) => closure0(&m.args[0]).map(|b| {
                        (parse_quote!(match #recv { Some(__v) => __v, None => #b }), "unwrap_or_else")
                    }),
                    ("unwrap_or_default", 0) if self.opts.contains("text_add") => {
                        let mapped = match strip(recv) {
                            Expr::MethodCall(mm) if mm.method == "map" && mm.args.len() == 1 => closure1(&mm.args[0]).map(|(p, b)| ((*mm.receiver).clone(), p, b)),
                            _ => None,
                        };
                        Some((match mapped {
                            Some((r, p, b)) => parse_quote!(match #r { Some(#p) => #b, None => String::new() }),
                            None => parse_quote!(match #recv { Some(__v) => __v, None => String::new() }),
                        }, "unwrap_or_default-text"))
                    }
                    ("unwrap_or_default", 0) if self.opts.contains("bool_default") => {
                        Some((parse_quote!(match #recv { Some(__v) => __v, None => false }), "unwrap_or_default-bool"))
                    }
                    ("for_each", 1) => closure1(&m.args[0]).map(|(p, b)| (parse_quote!({ for #p in #recv { #b; } }), "for_each-to-loop")),
                    ("fold", 2) => match &m.args[1] {
                        Expr::Closure(c) if c.inputs.len() == 2 && keeps(&c.body) => {
                            let acc = match &c.inputs[0] { syn::Pat::Type(t) => &t.pat, p => p };
                            let p = match &c.inputs[1] { syn::Pat::Type(t) => &t.pat, p => p };
                            let (d, b) = (&m.args[0], &c.body);
                            match acc {
                                syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => {
                                    let a = &i.ident;
                                    Some((parse_quote!({ let mut #a = #d; for #p in #recv { #a = #b; } #a }), "fold-to-loop"))
                                }
                                _ => None,
                            }
                        }
                        _ => None,
                    },
                    ("all", 1) => closure1(&m.args[0]).map(|(p, b)| {
                        let r = self.name("all");
                        (
                            parse_quote!({ let mut #r = true; for #p in #recv { if !(#b) { #r = false; break; } } #r }),
                            "all-to-loop",
                        )
                    }),
                    ("any", 1) => closure1(&m.args[0]).map(|(p, b)| {
                        let r = self.name("any");
                        (
                            parse_quote!({ let mut #r = false; for #p in #recv { if #b { #r = true; break; } } #r }),
                            "any-to-loop",
                        )
                    }),
                    ("find", 1) => closure1(&m.args[0]).map(|(p, b)| {
                        let r = self.name("found");
                        let x = self.name("x");
                        (
                            parse_quote!({ let mut #r = None; for #x in #recv { let #p = &#x; if #b { #r = Some(#x); break; } } #r }),
                            "find-to-loop",
                        )
                    }),
                    ("and_modify", 1) => match &**recv {
                        // map.entry(k).and_modify(|p| b): as a statement, its value is unused
                        Expr::MethodCall(en) if en.method == "entry" && en.args.len() == 1 => closure1(&m.args[0]).map(|(p, b)| {
                            let (mm, k) = (&en.receiver, &en.args[0]);
                            let x = self.name("e");
                            let lets: Vec<Stmt> = match &p {
                                syn::Pat::Tuple(t) => t.elems.iter().enumerate().filter(|(_, q)| !matches!(q, syn::Pat::Wild(_))).map(|(i, q)| {
                                    let i = syn::Index::from(i);
                                    parse_quote!(let #q = &mut #x.#i;)
                                }).collect(),
                                q => vec![parse_quote!(let #q = #x;)],
                            };
                            (parse_quote!(match #mm.get_mut(&#k) { Some(#x) => { #(#lets)* #b; } None => {} }), "entry-and_modify")
                        }),
                        _ => None,
                    },
                    ("zip", 1) if cycled(&m.args[0]).is_some() => {
                        let y = cycled(&m.args[0]).unwrap();
                        Some((parse_quote!(zip_cycle(#recv, &#y)), "zip-cycle"))
                    }
                    // a fixed ASCII text, written as bytes
                    ("write_all", 1) if self.opts.contains("wire") && ascii_bytes(&m.args[0]).is_some() => {
                        let (w, s) = (strip_ref(&m.receiver), ascii_bytes(&m.args[0]).unwrap());
                        Some((parse_quote!(wr_lit(#w, #s)), "write-bytes"))
                    }
                    ("enumerate", 0) => Some((parse_quote!(enumerated(#recv)), "enumerate")),
                    ("find_map", 1) => closure1(&m.args[0]).map(|(p, b)| {
                        let r = self.name("found");
                        (
                            parse_quote!({ let mut #r = None; for #p in #recv { match #b { Some(__v) => { #r = Some(__v); break; } None => {} } } #r }),
                            "find_map-to-loop",
                        )
                    }),
                    ("position", 1) => closure1(&m.args[0]).map(|(p, b)| {
                        let r = self.name("pos");
                        let k = self.name("k");
                        (
                            parse_quote!({ let mut #r = None; let mut #k = 0usize; for #p in #recv { if #b { #r = Some(#k); break; } #k = #k + 1; } #r }),
                            "position-to-loop",
                        )
                    }),
                    ("collect", 0) if matches!(&**recv, Expr::MethodCall(mm) if mm.method == "flat_map") => {
                        // characters into a text
                        let mm = match &**recv { Expr::MethodCall(mm) => mm, _ => unreachable!() };
                        let r0 = &mm.receiver;
                        closure1(&mm.args[0]).map(|(p, b)| {
                            let r = self.name("str");
                            let y = self.name("ch");
                            (
                                parse_quote!({ let mut #r = String::new(); for #p in #r0 { for #y in #b { #r.push(#y); } } #r }),
                                "flat_map-collect-to-loops",
                            )
                        })
                    }
                    ("collect", 0) => {
                        // recv.map(|p| b).collect()
                        if let Expr::MethodCall(mm) = &**recv {
                            if mm.method == "map" && mm.args.len() == 1 {
                                let r0 = &mm.receiver;
                                let into_text = m.turbofish.as_ref().map_or(false, |t| toks(t).contains("String") && !toks(t).contains("Vec"));
                                closure1(&mm.args[0]).map(|(p, b)| {
                                    if into_text && self.opts.contains("text_add") {
                                        let r = self.name("str");
                                        return (
                                            parse_quote!({ let mut #r = String::new(); for #p in #r0 { #r.push_str(&(#b)); } #r }),
                                            "map-collect-to-text-loop",
                                        );
                                    }
                                    let r = self.name("vec");
                                    (
                                        parse_quote!({ let mut #r = Vec::new(); for #p in #r0 { #r.push(#b); } #r }),
                                        "map-collect-to-loop",
                                    )
                                })
                            } else {
                                None
                            }
                        } else {
                            None
                        }
                    }
                    _ => None,
                }
            }
            Expr::Binary(b) if self.opts.contains("eqfn") && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let (x, y) = (&b.left, &b.right);
                Some(match b.op {
                    BinOp::Eq(_) => (parse_quote!(eqv(&(#x), &(#y))), "eq-call"),
                    _ => (parse_quote!((!eqv(&(#x), &(#y)))), "eq-call"),
                })
            }
            Expr::Binary(b) if self.opts.contains("bytes") && matches!(b.op, BinOp::BitXor(_)) && (matches!(strip(&b.left), Expr::Path(_)) || matches!(strip(&b.right), Expr::Path(_))) => {
                let (x, y) = (&b.left, &b.right);
                Some((parse_quote!(byte_xor(#x, #y)), "byte-xor"))
            }
            Expr::Binary(b) if self.opts.contains("text_add") && matches!(b.op, BinOp::Add(_)) => {
                let (x, y) = (&b.left, &b.right);
                Some((parse_quote!(text_plus(#x, #y)), "text-plus"))
            }
            Expr::Binary(b) if self.opts.contains("text_add") && matches!(b.op, BinOp::AddAssign(_)) && is_text(&b.right) => {
                let (x, y) = (&b.left, &b.right);
                Some((parse_quote!(#x.push_str(#y)), "text-plus"))
            }
            // a closure called on the spot
            Expr::Call(c) if matches!(strip(&c.func), Expr::Closure(_)) => {
                let k = match strip(&c.func) { Expr::Closure(k) => k.clone(), _ => unreachable!() };
                if k.inputs.len() == c.args.len() {
                    let lets: Vec<Stmt> = k.inputs.iter().zip(c.args.iter()).map(|(p, a)| parse_quote!(let #p = #a;)).collect();
                    let b = &k.body;
                    Some((parse_quote!({ #(#lets)* #b }), "closure-call"))
                } else {
                    None
                }
            }
            // what the process does is a function of its own (`f#spawn`); here only that it is started
            Expr::Call(c) if self.opts.contains("spawn") && crate::template::is_spawn(c) => {
                let a = &c.args[0];
                Some((parse_quote!(spawn_at(#a, log)), "spawn"))
            }
            // a call through a function pointer
            Expr::Call(c) if self.opts.contains("fnptr") => {
                let f: Option<Expr> = match &*c.func {
                    Expr::Paren(p) => Some((*p.expr).clone()),
                    Expr::Path(p) => p.path.get_ident().filter(|i| self.locals.contains(&i.to_string())).map(|_| (*c.func).clone()),
                    _ => None,
                };
                f.map(|f| {
                    let mut args = c.args.clone();
                    if !args.empty_or_trailing() {
                        args.push_punct(Default::default());
                    }
                    (parse_quote!(#f.call(#args log)), "call-pointer")
                })
            }
            Expr::Unsafe(u) if self.opts.contains("unsafe") => {
                let b = &u.block;
                Some((parse_quote!(#b), "unsafe-block"))
            }
            Expr::Match(m) => match_str(m, &self.name("m")).map(|x| (x, "match-str")),
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) if !b.value().is_empty() => {
                let v = b.value();
                Some((parse_quote!(&[#(#v),*]), "byte-string"))
            }
            Expr::Reference(r) if r.mutability.is_some() && self.streams.contains(&toks(&r.expr)) => Some(((*r.expr).clone(), "stream-handle")),
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                match name.as_str() {
                    "write" => macro_args(&m.mac).and_then(|a| {
                        let w = a.first()?.clone();
                        let ps = format_pieces(&a[1..])?;
                        let mut calls: Vec<Expr> = vec![];
                        let w: Expr = match &w {
                            Expr::Path(_) => w,
                            Expr::Reference(r) => (*r.expr).clone(),
                            _ => w,
                        };
                        for p in &ps {
                            calls.push(match p {
                                Piece::Lit(s) => parse_quote!(wr_lit(#w, #s)),
                                Piece::Arg(x) => {
                                    let x: &Expr = match x {
                                        Expr::Reference(r) => &r.expr,
                                        x => x,
                                    };
                                    parse_quote!(wr_arg(#w, &(#x)))
                                }
                                Piece::Other(x) => parse_quote!(wr_other(#w, &(#x))),
                            });
                        }
                        let mut e: Expr = match calls.pop() {
                            Some(c) => c,
                            None => parse_quote!(Ok(())),
                        };
                        while let Some(c) = calls.pop() {
                            e = parse_quote!(match #c { Err(__e) => Err(__e), Ok(_) => #e });
                        }
                        Some((e, "write-pieces"))
                    }),
                    "format" => macro_args(&m.mac).and_then(|a| {
                        let ps = format_pieces(&a)?;
                        let s = self.name("s");
                        let mut st: Vec<Stmt> = vec![];
                        for p in &ps {
                            st.push(match p {
                                Piece::Lit(l) => parse_quote!(fmt_lit(&mut #s, #l);),
                                Piece::Arg(x) => parse_quote!(fmt_arg(&mut #s, &(#x));),
                                Piece::Other(x) => parse_quote!(fmt_other(&mut #s, &(#x));),
                            });
                        }
                        Some((parse_quote!({ let mut #s = String::new(); #(#st)* #s }), "format-pieces"))
                    }),
                    "matches" => {
                        let ts = m.mac.tokens.clone();
                        let parts: Vec<TokenTree> = ts.into_iter().collect();
                        parts.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ',')).map(|k| {
                            let a: TokenStream = parts[..k].iter().cloned().collect();
                            let n: TokenStream = parts[k + 1..].iter().cloned().collect();
                            (parse_quote!((match #a { #n => true, _ => false })), "matches")
                        })
                    }
                    "vec" => {
                        let ts = m.mac.tokens.clone();
                        let parts: Vec<TokenTree> = ts.into_iter().collect();
                        parts.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ';')).map(|k| {
                            let a: TokenStream = parts[..k].iter().cloned().collect();
                            let n: TokenStream = parts[k + 1..].iter().cloned().collect();
                            (parse_quote!(vec_elem(#a, #n)), "vec-elem")
                        })
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some((mut x, r)) = new {
            // the desugared loops may iterate over `&v`
            if let Expr::ForLoop(_) = &x {
                self.visit_expr_mut(&mut x);
            }
            *e = if matches!(x, Expr::Match(_)) { parse_quote!((#x)) } else { x };
            self.hit(r);
        }
    }
}

// ---------------------------------------------------------------- loops over adapted iterators
/// `for q in x.map(f)`, `.filter(f)`, `.filter_map(f)`: the loop over `x` itself
#[derive(Default)]
pub struct Adaptors(pub usize);
impl VisitMut for Adaptors {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        while let Expr::MethodCall(m) = strip(&f.expr) {
            let meth = m.method.to_string();
            if m.args.len() != 1 || !matches!(&m.args[0], Expr::Closure(_)) || !matches!(meth.as_str(), "map" | "filter" | "filter_map") {
                break;
            }
            let (p, b) = match closure1(&m.args[0]) {
                Some(x) => x,
                None => break,
            };
            let (q, body, src) = (f.pat.clone(), f.body.stmts.clone(), (*m.receiver).clone());
            self.0 += 1;
            let x = Ident::new(&format!("__item{}", self.0), proc_macro2::Span::call_site());
            let (pat, stmts): (syn::Pat, Vec<Stmt>) = match meth.as_str() {
                "map" => (p, vec![parse_quote!(let #q = #b;)].into_iter().chain(body).collect()),
                "filter" => (parse_quote!(#x), vec![parse_quote!(let __keep = { let #p = &#x; #b };), Stmt::Expr(parse_quote!(if __keep { let #q = #x; #(#body)* }), None)]),
                _ => (p, vec![Stmt::Expr(parse_quote!(match #b { Some(#q) => { #(#body)* } None => {} }), None)]),
            };
            *f.pat = pat;
            *f.expr = src;
            f.body.stmts = stmts;
        }
        visit_mut::visit_expr_for_loop_mut(self, f);
    }
}

// ---------------------------------------------------------------- shapes of loops
/// how a loop fills its vector: `+` by pushing, `=` by changing its elements, nothing otherwise
fn fills(b: &Block) -> &'static str {
    struct V(bool, bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
            self.0 |= m.method == "push" && matches!(&*m.receiver, Expr::Path(_));
            visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
            if let Expr::Index(i) = &*a.left {
                self.1 |= a.right.to_token_stream().to_string().contains(&format!("{} [", toks(&i.expr)));
            }
            visit::visit_expr_assign(self, a);
        }
        fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
            self.1 |= matches!(&*b.left, Expr::Index(_)) && !matches!(b.op, BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::Eq(_) | BinOp::Ne(_)) && toks(&b.op).ends_with('=');
            visit::visit_expr_binary(self, b);
        }
    }
    let mut v = V(false, false);
    v.visit_block(b);
    if v.1 { "=" } else if v.0 { "+" } else { "" }
}
/// the shape of every loop, numbered as `Marks` does
#[derive(Default)]
pub struct Shapes(pub Vec<String>);
impl<'ast> Visit<'ast> for Shapes {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Loop(_) => self.0.push("loop".into()),
            Expr::While(l) => self.0.push(format!("while{}", fills(&l.body))),
            Expr::ForLoop(l) => {
                let x = toks(&l.expr);
                let first = l.body.stmts.first().map(|s| s.to_token_stream().to_string()).unwrap_or_default();
                let k = if x.starts_with("enumerated") {
                    "enum"
                } else if x.starts_with("zip_cycle") {
                    "zip"
                } else if matches!(strip(&l.expr), Expr::Range(_)) {
                    if first.contains("next_mut") { "muts" } else { "range" }
                } else {
                    "for"
                };
                self.0.push(if k == "muts" { k.to_string() } else { format!("{}{}", k, fills(&l.body)) });
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

// ---------------------------------------------------------------- markers
pub struct Marks<'a> {
    pub keys: &'a HashMap<String, String>,
    pub iters: &'a HashMap<usize, String>,
    pub k: usize,
    pub kinds: Vec<String>,
    // loops which stand for an iterator chain: loop number -> number of their generated variables
    /// variables which the rules made, by loop and kind
    pub gens: HashMap<usize, Vec<(String, String)>>,
    pub vecs: HashMap<usize, String>,
}
fn mark(key: &str) -> Stmt {
    let id: TokenStream = key.parse().unwrap();
    parse_quote!(__vm!(#id);)
}
impl<'a> Marks<'a> {
    fn body(&mut self, k: usize, b: &mut Block) {
        self.visit_block_mut(b);
        if self.keys.contains_key(&format!("loopend_{}", k)) {
            // a trailing expression of a loop body is a statement of type ()
            if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                *semi = Some(Default::default());
            }
            b.stmts.push(mark(&format!("loopend_{}", k)));
        }
        if self.keys.contains_key(&format!("loopstart_{}", k)) {
            b.stmts.insert(0, mark(&format!("loopstart_{}", k)));
        }
        if self.keys.contains_key(&format!("inv_{}", k)) {
            b.stmts.insert(0, mark(&format!("inv_{}", k)));
        }
    }
}
fn generated(p: &syn::Pat, x: &Expr, b: &Block) -> Vec<(String, String)> {
    struct V(Vec<(String, String)>);
    impl<'ast> Visit<'ast> for V {
        fn visit_ident(&mut self, i: &'ast Ident) {
            let s = i.to_string();
            if let Some(r) = s.strip_prefix("__") {
                let k = r.trim_end_matches(|c: char| c.is_ascii_digit());
                if k.len() < r.len() && !self.0.iter().any(|x| x.0 == k) {
                    self.0.push((k.to_string(), s.clone()));
                }
            }
        }
    }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.visit_expr(x);
    v.visit_block(b);
    v.0.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
    v.0
}
/// the text which the loop body adds to, if it is one
fn written(b: &Block) -> Option<String> {
    struct V(Vec<String>, Vec<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
            if let (Expr::Path(p), true) = (&*m.receiver, m.method == "push_str" || m.method == "push") {
                self.0.extend(p.path.get_ident().map(|i| i.to_string()));
            }
            visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
            if let Expr::Path(p) = &*a.left {
                self.0.extend(p.path.get_ident().map(|i| i.to_string()));
            }
            visit::visit_expr_assign(self, a);
        }
        fn visit_expr_call(&mut self, c: &'ast ExprCall) {
            if let (Expr::Path(p), Some(Expr::Reference(r))) = (&*c.func, c.args.first()) {
                if r.mutability.is_some() && p.path.segments.last().map_or(false, |s| s.ident.to_string().starts_with("fmt_")) {
                    self.0.push(toks(&r.expr));
                }
            }
            visit::visit_expr_call(self, c);
        }
        fn visit_local(&mut self, l: &'ast Local) {
            pat_names(&l.pat, &mut self.1);
            visit::visit_local(self, l);
        }
    }
    let mut v = V(vec![], vec![]);
    v.visit_block(b);
    v.0.sort();
    v.0.dedup();
    let mut w = v.0.into_iter().filter(|x| !v.1.contains(x));
    match (w.next(), w.next()) {
        (Some(x), None) => Some(x),
        _ => None,
    }
}
/// the variable which the loop body pushes to
fn pushed(b: &Block) -> Option<String> {
    struct V(Option<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
            if let (Expr::Path(p), true, None) = (&*m.receiver, m.method == "push" || m.method == "insert" && m.args.len() == 2, &self.0) {
                self.0 = p.path.get_ident().map(|i| i.to_string());
            }
            visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
            if let (Expr::Index(i), None) = (&*a.left, &self.0) {
                if let Expr::Path(p) = &*i.expr {
                    self.0 = p.path.get_ident().map(|i| i.to_string());
                }
            }
            visit::visit_expr_assign(self, a);
        }
        fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
            if let (Expr::Index(i), true, None) = (&*b.left, toks(&b.op).ends_with("^="), &self.0) {
                if let Expr::Path(p) = &*i.expr {
                    self.0 = p.path.get_ident().map(|i| i.to_string());
                }
            }
            visit::visit_expr_binary(self, b);
        }
    }
    let mut v = V(None);
    v.visit_block(b);
    v.0
}
fn pat_names(p: &syn::Pat, out: &mut Vec<String>) {
    struct V<'x>(&'x mut Vec<String>);
    impl<'x, 'ast> Visit<'ast> for V<'x> {
        fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
            self.0.push(i.ident.to_string());
        }
    }
    V(out).visit_pat(p);
}
impl<'a> VisitMut for Marks<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(l) => {
                let k = self.k;
                self.k += 1;
                self.kinds.push("loop".into());
                self.body(k, &mut l.body);
            }
            Expr::While(l) => {
                let k = self.k;
                self.k += 1;
                self.kinds.push("while".into());
                let mut g = vec![("cond".to_string(), format!("({})", toks(&l.cond)))];
                if let Expr::Binary(ExprBinary { left, op: BinOp::Lt(_) | BinOp::Ne(_), right, .. }) = strip(&l.cond) {
                    g.push(("idx".to_string(), toks(left)));
                    g.push(("end".to_string(), toks(right)));
                }
                if let Some(t) = written(&l.body) {
                    g.push(("str".to_string(), t));
                }
                self.gens.insert(k, g);
                if let Some(v) = pushed(&l.body) {
                    self.vecs.insert(k, v);
                }
                visit_mut::visit_expr_mut(self, &mut l.cond);
                self.body(k, &mut l.body);
            }
            Expr::ForLoop(l) => {
                let k = self.k;
                self.k += 1;
                self.kinds.push("for".into());
                let mut g = generated(&l.pat, &l.expr, &l.body);
                if let syn::Pat::Ident(i) = &*l.pat {
                    g.insert(0, ("el".to_string(), i.ident.to_string()));
                }
                if !g.iter().any(|x| x.0 == "str") {
                    if let Some(t) = written(&l.body) {
                        g.push(("str".to_string(), t));
                        g.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
                    }
                }
                self.gens.insert(k, g);
                if let Some(v) = pushed(&l.body) {
                    self.vecs.insert(k, v);
                }
                visit_mut::visit_expr_mut(self, &mut l.expr);
                self.body(k, &mut l.body);
                if let Some(n) = self.iters.get(&k) {
                    let id: TokenStream = n.parse().unwrap();
                    let x = &l.expr;
                    l.expr = Box::new(parse_quote!(__viter!(#id, #x)));
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let k0 = self.k;
            let is_loop = matches!(&s, Stmt::Expr(Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_), _));
            self.visit_stmt_mut(&mut s);
            let mut names = vec![];
            if let Stmt::Local(l) = &s {
                pat_names(&l.pat, &mut names);
            }
            for n in &names {
                let key = format!("before_{}", n);
                if self.keys.contains_key(&key) {
                    out.push(mark(&key));
                }
            }
            let key = format!("beforeloop_{}", k0);
            if is_loop && self.keys.contains_key(&key) {
                out.push(mark(&key));
            }
            out.push(s);
            for n in &names {
                let key = format!("after_{}", n);
                if self.keys.contains_key(&key) {
                    out.push(mark(&key));
                }
            }
            let key = format!("afterloop_{}", k0);
            if is_loop && self.keys.contains_key(&key) {
                if let Some(Stmt::Expr(_, semi @ None)) = out.last_mut() {
                    *semi = Some(Default::default());
                }
                out.push(mark(&key));
            }
        }
        b.stmts = out;
    }
}

// ---------------------------------------------------------------- vocabulary
#[derive(Default)]
pub struct Vocab(pub BTreeMap<String, usize>);
impl Vocab {
    fn add(&mut self, s: String) {
        *self.0.entry(s).or_insert(0) += 1;
    }
}
impl<'ast> Visit<'ast> for Vocab {
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.add(format!("{}()", p.path.segments.last().unwrap().ident));
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        self.add(format!(".{}()", m.method));
        visit::visit_expr_method_call(self, m);
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        self.add(format!("{}!", m.path.segments.last().unwrap().ident));
    }
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        self.add("closure".into());
        visit::visit_expr_closure(self, c);
    }
    fn visit_expr_for_loop(&mut self, i: &'ast ExprForLoop) {
        self.add("for".into());
        visit::visit_expr_for_loop(self, i);
    }
    fn visit_expr_while(&mut self, i: &'ast ExprWhile) {
        self.add("while".into());
        visit::visit_expr_while(self, i);
    }
    fn visit_expr_loop(&mut self, i: &'ast ExprLoop) {
        self.add("loop".into());
        visit::visit_expr_loop(self, i);
    }
}

// ---------------------------------------------------------------- inlining of uncontracted helpers
pub struct Inliner<'a> {
    pub funcs: &'a HashMap<String, Found>,
    pub known: &'a HashSet<String>,
    pub self_ty: String,
    pub ret: String,
    pub done: Vec<String>,
    pub missing: Vec<String>,
    pub depth: usize,
    pub fresh: usize,
}
struct HasReturn {
    ret: bool,
    question: bool,
}
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, t: &'ast ExprTry) {
        self.question = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn parse_map_self(st: &Type) -> impl Fn(TokenStream) -> TokenStream {
    let to = st.to_token_stream();
    fn go(ts: TokenStream, to: &TokenStream) -> TokenStream {
        ts.into_iter()
            .flat_map(|x| match x {
                TokenTree::Ident(i) if i == "Self" => to.clone().into_iter().collect::<Vec<_>>(),
                TokenTree::Group(g) => vec![TokenTree::Group(Group::new(g.delimiter(), go(g.stream(), to)))],
                x => vec![x],
            })
            .collect()
    }
    move |ts| go(ts, &to)
}
fn returns(e: &impl ToTokens) -> bool {
    fn go(ts: TokenStream) -> bool {
        ts.into_iter().any(|t| match t {
            TokenTree::Ident(i) => i == "return",
            TokenTree::Group(g) => go(g.stream()),
            _ => false,
        })
    }
    go(e.to_token_stream())
}
/// The block as one expression whose value is what the function returns, if its `return`s are in
/// places where that is a matter of branching.
pub fn without_returns(b: &Block) -> Option<Block> {
    let e = value_of(&b.stmts, 0)?;
    Some(match e {
        Expr::Block(b) if b.label.is_none() => b.block,
        e => parse_quote!({ #e }),
    })
}
/// The statements of a `for` body with `if c { continue; } rest` as `if c {} else { rest }` (and the
/// same for `let .. else`); `None` if there is nothing to do.
fn without_continue(stmts: &[Stmt], depth: usize) -> Option<Vec<Stmt>> {
    if depth > 12 {
        return None;
    }
    fn ends_in_continue(b: &Block) -> Option<Vec<Stmt>> {
        match b.stmts.last() {
            Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none() => Some(b.stmts[..b.stmts.len() - 1].to_vec()),
            _ => None,
        }
    }
    for (i, s) in stmts.iter().enumerate() {
        let rest = &stmts[i + 1..];
        let rest = |d: usize| without_continue(rest, d + 1).unwrap_or_else(|| rest.to_vec());
        match s {
            Stmt::Expr(Expr::If(x), _) if x.else_branch.is_none() => {
                if let Some(t) = ends_in_continue(&x.then_branch) {
                    let (c, r) = (&x.cond, rest(depth));
                    let mut v = stmts[..i].to_vec();
                    v.push(Stmt::Expr(parse_quote!(if #c { #(#t)* } else { #(#r)* }), None));
                    return Some(v);
                }
            }
            Stmt::Local(Local { pat, init: Some(init), .. }) => {
                if let Some((_, d)) = &init.diverge {
                    if let Expr::Block(d) = &**d {
                        if let Some(t) = ends_in_continue(&d.block) {
                            let (e, r) = (&init.expr, rest(depth));
                            let mut v = stmts[..i].to_vec();
                            v.push(Stmt::Expr(parse_quote!(if let #pat = #e { #(#r)* } else { #(#t)* }), None));
                            return Some(v);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}
/// a `continue` of the loop with this body
fn continues(b: &Block) -> bool {
    let mut c = Continue { found: false, stash: None };
    c.visit_block_mut(&mut b.clone());
    c.found
}
/// Finds the `continue`s of one loop; with a stash, turns them into `return ()` and the returns and
/// `?`s of the body into `__stash(k)`.
struct Continue {
    found: bool,
    stash: Option<(Vec<Expr>, bool)>,
}
impl VisitMut for Continue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Continue(c) if c.label.is_none() => {
                self.found = true;
                if self.stash.is_some() {
                    *e = parse_quote!(return ());
                }
                return;
            }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => {
                if let Some((s, _)) = &mut self.stash {
                    if returns(&*e) {
                        // the whole loop or closure
                        let k = Lit::Int(LitInt::new(&s.len().to_string(), proc_macro2::Span::call_site()));
                        s.push(std::mem::replace(e, parse_quote!(__stash(#k))));
                    }
                }
                return;
            }
            Expr::Return(_) | Expr::Try(_) if self.stash.is_some() => {
                let (s, leave) = self.stash.as_mut().unwrap();
                let k = Lit::Int(LitInt::new(&s.len().to_string(), proc_macro2::Span::call_site()));
                let r = *leave && matches!(e, Expr::Return(_));
                s.push(std::mem::replace(e, if r { parse_quote!(return __stash(#k)) } else { parse_quote!(__stash(#k)) }));
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// `f(a, match e { .. => return .. })` as `let x = a; let y = match e { .. => return .. }; f(x, y)`
struct Hoist(usize);
impl Hoist {
    fn name(&mut self, e: &mut Expr, out: &mut Vec<Stmt>) {
        if matches!(e, Expr::Path(_) | Expr::Lit(_)) {
            return;
        }
        self.0 += 1;
        let n = Ident::new(&format!("__h{}", self.0), proc_macro2::Span::call_site());
        out.push(parse_quote!(let #n = #e;));
        *e = parse_quote!(#n);
    }
    fn hoist(&mut self, e: &mut Expr, out: &mut Vec<Stmt>) -> bool {
        match e {
            Expr::Match(_) | Expr::If(_) => {
                self.name(e, out);
                true
            }
            Expr::MethodCall(m) if returns(&*m.receiver) => self.hoist(&mut m.receiver, out) && !m.args.iter().any(|a| returns(a)),
            Expr::MethodCall(m) if is_place(&m.receiver) => self.args(m.args.iter_mut().collect(), out),
            Expr::Call(c) if !returns(&*c.func) => self.args(c.args.iter_mut().collect(), out),
            Expr::Reference(r) => self.hoist(&mut r.expr, out),
            Expr::Paren(p) => self.hoist(&mut p.expr, out),
            Expr::Field(f) => self.hoist(&mut f.base, out),
            _ => false,
        }
    }
    fn args(&mut self, a: Vec<&mut Expr>, out: &mut Vec<Stmt>) -> bool {
        let n = a.iter().filter(|x| returns(&***x)).count();
        for x in a {
            if returns(&*x) {
                return n == 1 && self.hoist(x, out);
            }
            self.name(x, out);
        }
        false
    }
}
impl VisitMut for Hoist {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut v = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let old = s.clone();
            let mut pre = vec![];
            let ok = match &mut s {
                Stmt::Expr(e @ (Expr::MethodCall(_) | Expr::Call(_)), _) if returns(&*e) => self.hoist(e, &mut pre),
                Stmt::Local(Local { init: Some(LocalInit { expr, diverge: None, .. }), .. }) if matches!(**expr, Expr::MethodCall(_) | Expr::Call(_)) && returns(&*expr) => self.hoist(expr, &mut pre),
                _ => false,
            };
            if ok {
                v.extend(pre);
                v.push(s);
            } else {
                v.push(old);
            }
        }
        b.stmts = v;
        visit_mut::visit_block_mut(self, b);
    }
}
struct Unstash<'a>(&'a [Expr]);
impl<'a> VisitMut for Unstash<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if toks(&c.func) == "__stash" {
                if let Ok(k) = toks(&c.args[0]).parse::<usize>() {
                    *e = self.0[k].clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// The loop body without its `continue`s: what they leave out becomes a branch.
fn continue_free(b: &Block) -> Option<Block> {
    for leave in [false, true] {
        let mut c = Continue { found: false, stash: Some((vec![], leave)) };
        let mut x = b.clone();
        // the value of the body is ()
        if let Some(Stmt::Expr(_, semi @ None)) = x.stmts.last_mut() {
            *semi = Some(Default::default());
        }
        c.visit_block_mut(&mut x);
        let s = c.stash.unwrap().0;
        if s.iter().any(|e| !matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_)) && continues(&parse_quote!({ #e; }))) {
            continue;
        }
        Hoist(0).visit_block_mut(&mut x);
        if let Some(mut v) = without_returns(&x) {
            Unstash(&s).visit_block_mut(&mut v);
            return Some(v);
        }
    }
    None
}
fn leaves(stmts: &[Stmt]) -> bool {
    match stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => i.else_branch.as_ref().is_some_and(|(_, e)| match &**e {
            Expr::Block(b) => leaves(&b.block.stmts),
            _ => false,
        }) && leaves(&i.then_branch.stmts),
        _ => false,
    }
}
fn value_of(stmts: &[Stmt], depth: usize) -> Option<Expr> {
    if depth > 12 {
        return None;
    }
    let i = match stmts.iter().position(|s| returns(s)) {
        None => return Some(parse_quote!({ #(#stmts)* })),
        Some(i) => i,
    };
    let (pre, rest) = (&stmts[..i], &stmts[i + 1..]);
    let branch = |e: &Expr| -> Option<Expr> {
        // a branch of an expression in the place of the whole value
        tail_value(e, depth + 1)
    };
    let new: Expr = match &stmts[i] {
        Stmt::Expr(Expr::Return(r), _) => match &r.expr {
            Some(e) if !returns(e) => (**e).clone(),
            _ => return None,
        },
        Stmt::Expr(e, None) if rest.is_empty() => branch(e)?,
        Stmt::Expr(Expr::If(x), _) => {
            let c = &x.cond;
            if returns(c) {
                return None;
            }
            // the branches which do not leave go on with the rest
            let go = |b: &[Stmt]| -> Option<Expr> {
                if leaves(b) {
                    value_of(b, depth + 1)
                } else {
                    let mut v: Vec<Stmt> = b.to_vec();
                    if let Some(Stmt::Expr(e, semi @ None)) = v.last_mut() {
                        let _ = e;
                        *semi = Some(Default::default());
                    }
                    v.extend(rest.iter().cloned());
                    value_of(&v, depth + 1)
                }
            };
            let els: Vec<Stmt> = match &x.else_branch {
                None => vec![],
                Some((_, e)) => match &**e {
                    Expr::Block(b) => b.block.stmts.clone(),
                    e => vec![Stmt::Expr(e.clone(), None)],
                },
            };
            // at most one of the two may go on: the rest is not copied
            if !leaves(&x.then_branch.stmts) && !leaves(&els) {
                return None;
            }
            let (t, e) = (go(&x.then_branch.stmts)?, go(&els)?);
            let (t, e) = (blocked(t), blocked(e));
            parse_quote!(if #c #t else #e)
        }
        // a match of which at most one arm goes on with the rest
        Stmt::Expr(Expr::Match(m), _) if !returns(&m.expr) => {
            let mut m = m.clone();
            let mut n = 0;
            for a in m.arms.iter_mut() {
                let b = match leaving(&a.body) {
                    Some(st) => value_of(&st, depth + 1)?,
                    None => {
                        n += 1;
                        if n > 1 || returns(&a.body) {
                            return None;
                        }
                        let x = &a.body;
                        let mut v: Vec<Stmt> = vec![parse_quote!(#x;)];
                        v.extend(rest.iter().cloned());
                        value_of(&v, depth + 1)?
                    }
                };
                *a.body = Expr::Block(parse_quote!({ #b }));
                a.comma = Some(Default::default());
            }
            Expr::Match(m)
        }
        Stmt::Local(Local { pat, init: Some(init), .. }) => {
            if let Some((_, d)) = &init.diverge {
                let d = match &**d {
                    Expr::Block(b) => value_of(&b.block.stmts, depth + 1)?,
                    _ => return None,
                };
                let e = &init.expr;
                if returns(e) {
                    return None;
                }
                let r = blocked(value_of(rest, depth + 1)?);
                let d = blocked(d);
                parse_quote!(if let #pat = #e #r else #d)
            } else {
                let mut n = 0;
                let mut cont = |v: &Expr| -> Option<Expr> {
                    n += 1;
                    if n > 1 {
                        return None;
                    }
                    let mut s: Vec<Stmt> = vec![];
                    let mut v = v.clone();
                    if let Expr::Block(b) = &v {
                        if b.label.is_none() {
                            let mut st = b.block.stmts.clone();
                            if let Some(Stmt::Expr(x, None)) = st.pop() {
                                if st.iter().any(|q| returns(q)) {
                                    return None;
                                }
                                s.extend(st);
                                v = x;
                            } else {
                                return None;
                            }
                        }
                    }
                    if returns(&v) {
                        return None;
                    }
                    s.push(parse_quote!(let #pat = #v;));
                    s.extend(rest.iter().cloned());
                    value_of(&s, depth + 1)
                };
                match &*init.expr {
                    Expr::Match(m) if !returns(&m.expr) => {
                        let mut m = m.clone();
                        for a in m.arms.iter_mut() {
                            let b = match leaving(&a.body) {
                                Some(st) => value_of(&st, depth + 1)?,
                                None => cont(&a.body)?,
                            };
                            *a.body = Expr::Block(parse_quote!({ #b }));
                            a.comma = Some(Default::default());
                        }
                        Expr::Match(m)
                    }
                    Expr::If(x) if !returns(&x.cond) => {
                        let c = &x.cond;
                        let tb: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: x.then_branch.clone() });
                        let eb = &x.else_branch.as_ref()?.1;
                        let t = match leaving(&tb) {
                            Some(st) => value_of(&st, depth + 1)?,
                            None => cont(&tb)?,
                        };
                        let e = match leaving(eb) {
                            Some(st) => value_of(&st, depth + 1)?,
                            None => cont(eb)?,
                        };
                        let (t, e) = (blocked(t), blocked(e));
                        parse_quote!(if #c #t else #e)
                    }
                    _ => return None,
                }
            }
        }
        _ => return None,
    };
    Some(parse_quote!({ #(#pre)* #new }))
}
fn blocked(e: Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block,
        e => parse_quote!({ #e }),
    }
}
/// The statements of a branch which always returns.
fn leaving(e: &Expr) -> Option<Vec<Stmt>> {
    match e {
        Expr::Return(_) => Some(vec![Stmt::Expr(e.clone(), None)]),
        Expr::Block(b) if b.label.is_none() && leaves(&b.block.stmts) => Some(b.block.stmts.clone()),
        _ => None,
    }
}
fn tail_value(e: &Expr, depth: usize) -> Option<Expr> {
    if !returns(e) {
        return Some(e.clone());
    }
    match e {
        Expr::Return(r) => r.expr.as_ref().map(|x| (**x).clone()).filter(|x| !returns(x)),
        Expr::Block(b) if b.label.is_none() => value_of(&b.block.stmts, depth + 1),
        Expr::Paren(p) => tail_value(&p.expr, depth + 1),
        Expr::Match(m) if !returns(&m.expr) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                let b = tail_value(&a.body, depth + 1)?;
                *a.body = Expr::Block(parse_quote!({ #b }));
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(m))
        }
        Expr::If(x) if !returns(&x.cond) => {
            let c = &x.cond;
            let t = blocked(value_of(&x.then_branch.stmts, depth + 1)?);
            let e = blocked(tail_value(&x.else_branch.as_ref()?.1, depth + 1)?);
            Some(parse_quote!(if #c #t else #e))
        }
        // `Ok(match .. )`: into the arms
        Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(_)) => {
            let f = &c.func;
            fn push(f: &Expr, e: &Expr, depth: usize) -> Option<Expr> {
                if let Expr::Return(r) = e {
                    return r.expr.as_ref().map(|x| (**x).clone()).filter(|x| !returns(x));
                }
                if !returns(e) {
                    return Some(parse_quote!(#f(#e)));
                }
                match e {
                    Expr::Match(m) if !returns(&m.expr) => {
                        let mut m = m.clone();
                        for a in m.arms.iter_mut() {
                            let b = push(f, &a.body, depth + 1)?;
                            *a.body = Expr::Block(parse_quote!({ #b }));
                            a.comma = Some(Default::default());
                        }
                        Some(Expr::Match(m))
                    }
                    Expr::If(x) if !returns(&x.cond) => {
                        let c = &x.cond;
                        let tb: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: x.then_branch.clone() });
                        let t = blocked(push(f, &tb, depth + 1)?);
                        let e = blocked(push(f, &x.else_branch.as_ref()?.1, depth + 1)?);
                        Some(parse_quote!(if #c #t else #e))
                    }
                    Expr::Block(b) if b.label.is_none() => match leaving(e) {
                        Some(st) => value_of(&st, depth + 1),
                        None if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                            Stmt::Expr(x, None) => push(f, x, depth + 1),
                            _ => None,
                        },
                        None => None,
                    },
                    _ => None,
                }
            }
            push(f, &c.args[0], depth)
        }
        _ => None,
    }
}
struct PatNames<'x>(&'x mut Vec<String>);
impl<'x, 'ast> Visit<'ast> for PatNames<'x> {
    fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
        self.0.push(i.ident.to_string());
        visit::visit_pat_ident(self, i);
    }
    fn visit_field_pat(&mut self, f: &'ast FieldPat) {
        self.visit_pat(&f.pat);
    }
}
fn is_local(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some_and(|i| i.to_string().chars().next().unwrap().is_lowercase()),
        _ => false,
    }
}
/// Replaces the variable `from` by `to`; where it is only looked through (method, field, index,
/// dereference), by `place`, of which `to` is a shared reference.
struct Rename {
    from: String,
    to: Expr,
    place: Option<Expr>,
}
impl VisitMut for Rename {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(pl) = &self.place {
            let is = |x: &Expr| matches!(x, Expr::Path(p) if p.path.is_ident(&self.from));
            match e {
                Expr::MethodCall(m) if is(&m.receiver) => *m.receiver = pl.clone(),
                Expr::Field(m) if is(&m.base) => *m.base = pl.clone(),
                Expr::Index(m) if is(&m.expr) => *m.expr = pl.clone(),
                Expr::Unary(m) if matches!(m.op, UnOp::Deref(_)) && is(&m.expr) => {
                    *e = pl.clone();
                    return;
                }
                _ => {}
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.from) {
                *e = self.to.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, v: &mut FieldValue) {
        // `Type { x }` stays `Type { x: .. }`
        if v.colon_token.is_none() {
            v.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, v);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let (f, t) = (self.from.clone(), self.to.to_token_stream());
        fn go(ts: TokenStream, f: &str, t: &TokenStream) -> TokenStream {
            ts.into_iter()
                .flat_map(|x| match x {
                    TokenTree::Ident(i) if i == f => t.clone().into_iter().collect::<Vec<_>>(),
                    TokenTree::Group(g) => vec![TokenTree::Group(Group::new(g.delimiter(), go(g.stream(), f, t)))],
                    x => vec![x],
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone(), &f, &t);
    }
}
fn ret_of(f: &Found) -> String {
    match &f.sig.output {
        ReturnType::Default => "()".into(),
        ReturnType::Type(_, t) => toks(&**t),
    }
}
fn err_of(s: &str) -> String {
    s.rfind(',').map(|i| s[i + 1..].trim_end_matches('>').to_string()).unwrap_or_else(|| s.to_string())
}
/// names which values of other types are likely to have as well
const COMMON: &[&str] = &[
    "len", "is_empty", "get", "get_mut", "next", "iter", "clone", "insert", "remove", "push", "pop", "read", "write", "flush", "as_str", "as_ref", "into", "map", "fmt", "eq", "ne",
    "find", "contains", "take", "first", "last", "send", "new", "default", "parse", "to_string", "into_string", "into_bytes", "body", "build", "header", "status", "method", "url",
];
fn rename_self(ts: TokenStream, to: &Ident) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    for (i, x) in v.iter().enumerate() {
        out.push(match x {
            TokenTree::Ident(k) if k == "self" && !matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == ':') => TokenTree::Ident(to.clone()),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), rename_self(g.stream(), to))),
            x => x.clone(),
        });
    }
    out.into_iter().collect()
}
impl<'a> Inliner<'a> {
    /// `mode`: 0 plain expression, 1 directly under `?`, 2 value of the enclosing function
    fn try_inline(&mut self, e: &Expr, mode: u8) -> Option<Expr> {
        let bind_self;
        let (key, recv, args): (String, Option<Expr>, Vec<Expr>) = match e {
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) => &p.path,
                    _ => return None,
                };
                let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                let lastn = segs.last()?.clone();
                let key = if segs.len() >= 2 && segs[segs.len() - 2].chars().next()?.is_uppercase() {
                    let t = if segs[segs.len() - 2] == "Self" { self.self_ty.clone() } else { segs[segs.len() - 2].clone() };
                    format!("{}::{}", t, lastn)
                } else {
                    lastn
                };
                (key, None, c.args.iter().cloned().collect())
            }
            Expr::MethodCall(m) => {
                // methods of our own type called on `self`, and `&self` methods whose name only one
                // type of the file has
                if toks(&m.receiver) != "self" {
                    let end = format!("::{}", m.method);
                    let c: Vec<&String> = self.funcs.keys().filter(|k| k.ends_with(&end)).collect();
                    if c.len() != 1 || self.known.iter().any(|k| k.ends_with(&end)) || COMMON.contains(&m.method.to_string().as_str()) {
                        return None;
                    }
                    let key = c[0].clone();
                    let f = &self.funcs[&key];
                    let (g, st) = match &f.imp {
                        Some((g, None, st)) => (g, st.clone()),
                        _ => return None,
                    };
                    match f.sig.inputs.first() {
                        Some(FnArg::Receiver(r)) if r.reference.is_some() && r.mutability.is_none() && g.params.is_empty() => {}
                        _ => return None,
                    }
                    self.fresh += 1;
                    let me = Ident::new(&format!("self__h{}", self.fresh), proc_macro2::Span::call_site());
                    let r = &m.receiver;
                    bind_self = Some((me.clone(), parse_quote!(let #me: &#st = &#r;)));
                    return self.inline(key, Some((*m.receiver).clone()), m.args.iter().cloned().collect(), mode, bind_self);
                }
                (format!("{}::{}", self.self_ty, m.method), Some((*m.receiver).clone()), m.args.iter().cloned().collect())
            }
            _ => return None,
        };
        self.inline(key, recv, args, mode, None)
    }
    fn inline(&mut self, key: String, recv: Option<Expr>, args: Vec<Expr>, mode: u8, bind_self: Option<(Ident, Stmt)>) -> Option<Expr> {
        if self.known.contains(&key) || self.depth > 4 {
            return None;
        }
        let f = self.funcs.get(&key)?.clone();
        let mut hr = HasReturn { ret: false, question: false };
        hr.visit_block(&f.block);
        let same_ret = ret_of(&f) == self.ret;
        let same_err = err_of(&ret_of(&f)) == err_of(&self.ret);
        let ok = match mode {
            _ if !hr.ret && !hr.question => true,
            2 => same_ret,
            1 => same_err && !hr.ret,
            _ => false,
        };
        let mut block = f.block.clone();
        // a helper's early returns become branches
        let mut ok = ok;
        if !ok && hr.ret && (!hr.question || (mode == 1 && same_err)) {
            if let Some(b) = without_returns(&block) {
                block = b;
                ok = true;
            }
        }
        if let Some((_, _, st)) = &f.imp {
            let own = match st {
                Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
                _ => String::new(),
            };
            if own != self.self_ty {
                let m = parse_map_self(st);
                let ts = m(block.to_token_stream());
                match syn::parse2::<Block>(ts) {
                    Ok(b) => block = b,
                    Err(_) => ok = false,
                }
            }
        }
        if !ok || !f.sig.generics.params.iter().all(|g| matches!(g, GenericParam::Lifetime(_))) {
            self.missing.push(key);
            return None;
        }
        // what the helper binds itself; a parameter bound again is not renamed
        let mut own = vec![];
        PatNames(&mut own).visit_block(&f.block);
        let mut argnames = Names(vec![]);
        for a in &args {
            if let Expr::Closure(c) = a {
                let mut bound = vec![];
                for p in &c.inputs {
                    PatNames(&mut bound).visit_pat(p);
                }
                let mut used = Names(vec![]);
                used.visit_expr(&c.body);
                argnames.0.extend(used.0.into_iter().filter(|n| !bound.contains(n)));
            } else {
                argnames.visit_expr(a);
            }
        }
        let pnames: Vec<String> = f.sig.inputs.iter().filter_map(|p| if let FnArg::Typed(t) = p { if let syn::Pat::Ident(i) = &*t.pat { Some(i.ident.to_string()) } else { None } } else { None }).collect();
        let rebound = pnames.iter().any(|n| own.contains(n));
        let caught = argnames.0.iter().any(|n| own.contains(n));
        let mut lets: Vec<Stmt> = vec![];
        let mut same: Vec<(syn::Pat, Type, Expr)> = vec![];
        let mut ai = 0;
        for p in &f.sig.inputs {
            match p {
                FnArg::Receiver(_) => {
                    if recv.is_none() {
                        // Type::method(x, ..): not handled
                        self.missing.push(key);
                        return None;
                    }
                }
                FnArg::Typed(t) => {
                    let a = args.get(ai)?.clone();
                    ai += 1;
                    let (name, mutable) = match &*t.pat {
                        syn::Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()),
                        _ => {
                            self.missing.push(key);
                            return None;
                        }
                    };
                    let ty = &t.ty;
                    let is_impl = toks(&**ty).contains("impl");
                    let place = matches!(&a, Expr::Path(_)) || matches!(&a, Expr::Reference(r) if matches!(&*r.expr, Expr::Path(_)));
                    if is_impl || (place && toks(&**ty).starts_with("&mut")) {
                        // a stream handle or exclusive borrow: use the caller's place directly
                        if rebound || caught {
                            self.missing.push(key);
                            return None;
                        }
                        let to = a.clone();
                        Rename { from: name, to, place: None }.visit_block_mut(&mut block);
                    } else if rebound || caught || matches!(&a, Expr::Closure(_)) {
                        same.push(((*t.pat).clone(), (**ty).clone(), a));
                    } else if !mutable && is_local(&a) {
                        // the caller's own variable, which the helper cannot change
                        Rename { from: name, to: a, place: None }.visit_block_mut(&mut block);
                    } else if !mutable && matches!(&a, Expr::Reference(r) if r.mutability.is_none() && is_local(&r.expr)) && toks(&**ty).starts_with('&') {
                        if let Expr::Reference(r) = &a {
                            let to: Expr = parse_quote!((#a));
                            Rename { from: name, to, place: Some((*r.expr).clone()) }.visit_block_mut(&mut block);
                        }
                    } else {
                        let pat = &t.pat;
                        lets.push(parse_quote!(let #pat: #ty = #a;));
                    }
                }
            }
        }
        if (rebound || caught) && !same.is_empty() {
            // all at once: no argument sees another parameter
            let ps = same.iter().map(|x| &x.0);
            let ts = same.iter().map(|x| &x.1);
            let es = same.iter().map(|x| &x.2);
            if same.iter().any(|x| matches!(x.2, Expr::Closure(_))) {
                self.missing.push(key);
                return None;
            }
            lets = if same.len() == 1 { vec![parse_quote!(#(let #ps: #ts = #es;)*)] } else { vec![parse_quote!(let (#(#ps),*): (#(#ts),*) = (#(#es),*);)] };
        } else {
            for (p, t, e) in same {
                lets.push(parse_quote!(let #p: #t = #e;));
            }
        }
        if let Some((me, l)) = bind_self {
            if rebound || caught {
                self.missing.push(key);
                return None;
            }
            match syn::parse2::<Block>(rename_self(block.to_token_stream(), &me)) {
                Ok(b) => block = b,
                Err(_) => {
                    self.missing.push(key);
                    return None;
                }
            }
            lets.insert(0, l);
        }
        let own_generics = !f.sig.generics.params.is_empty();
        self.done.push(key);
        self.depth += 1;
        self.visit_block_mut(&mut block);
        self.depth -= 1;
        // rename the parameters apart from the caller's names
        for l in lets.iter_mut() {
            if rebound || caught {
                break;
            }
            if let Stmt::Local(Local { pat: syn::Pat::Type(t), .. }) = l {
                if let syn::Pat::Ident(i) = &mut *t.pat {
                    if i.ident.to_string().starts_with("self__h") {
                        continue;
                    }
                    self.fresh += 1;
                    let nn = Ident::new(&format!("{}__h{}", i.ident, self.fresh), i.ident.span());
                    Rename { from: i.ident.to_string(), to: parse_quote!(#nn), place: None }.visit_block_mut(&mut block);
                    i.ident = nn;
                }
            }
        }
        let stmts = &block.stmts;
        let e: Expr = if lets.is_empty() && stmts.len() == 1 && matches!(&stmts[0], Stmt::Expr(_, None)) {
            match &stmts[0] {
                Stmt::Expr(x, None) => match x {
                    Expr::Path(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Field(_) | Expr::Block(_) => x.clone(),
                    x => parse_quote!((#x)),
                },
                _ => unreachable!(),
            }
        } else if let (ReturnType::Type(_, t), Some(Stmt::Expr(last, None))) = (&f.sig.output, stmts.last()) {
            // the helper's type stays known
            let init = &stmts[..stmts.len() - 1];
            let tt = toks(&**t);
            if tt.contains("impl") || tt.contains('&') || own_generics || tt.contains("Self") {
                parse_quote!({ #(#lets)* #(#stmts)* })
            } else {
                self.fresh += 1;
                let r = Ident::new(&format!("__h{}", self.fresh), proc_macro2::Span::call_site());
                parse_quote!({ #(#lets)* #(#init)* let #r: #t = #last; #r })
            }
        } else {
            parse_quote!({ #(#lets)* #(#stmts)* })
        };
        Some(e)
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(_) | Expr::MethodCall(_) => {
                if let Some(n) = self.try_inline(e, 2) {
                    *e = n;
                }
            }
            Expr::Block(b) => self.tail_block(&mut b.block),
            Expr::If(i) => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.tail(&mut a.body);
                }
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail(x);
                }
            }
            _ => {}
        }
    }
    fn tail_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail(e);
        }
    }
    pub fn run(&mut self, b: &mut Block) {
        self.tail_block(b);
        self.visit_block_mut(b);
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            if let Some(x) = &mut r.expr {
                self.tail(x);
            }
        }
        if let Expr::Try(t) = e {
            if let Some(n) = self.try_inline(&t.expr, 1) {
                t.expr = Box::new(n);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(n) = self.try_inline(e, 0) {
            *e = n;
        }
    }
}
pub fn block_tokens(b: &Block) -> TokenStream {
    let s = &b.stmts;
    quote!(#(#s)*)
}

// ---------------------------------------------------------------- mutants (thorough tier)
/// Small changes to an extracted body, to measure whether the contract notices them.
struct Mutator {
    target: Option<usize>,
    n: usize,
}
impl Mutator {
    fn hit(&mut self) -> bool {
        self.n += 1;
        self.target == Some(self.n - 1)
    }
}
impl VisitMut for Mutator {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Binary(b) => {
                let alt: Option<BinOp> = match b.op {
                    BinOp::Eq(_) => Some(parse_quote!(!=)),
                    BinOp::Ne(_) => Some(parse_quote!(==)),
                    BinOp::Lt(_) => Some(parse_quote!(<=)),
                    BinOp::Le(_) => Some(parse_quote!(<)),
                    BinOp::Gt(_) => Some(parse_quote!(>=)),
                    BinOp::Ge(_) => Some(parse_quote!(>)),
                    BinOp::And(_) => Some(parse_quote!(||)),
                    BinOp::Or(_) => Some(parse_quote!(&&)),
                    BinOp::Add(_) => Some(parse_quote!(-)),
                    BinOp::Sub(_) => Some(parse_quote!(+)),
                    BinOp::BitXor(_) => Some(parse_quote!(|)),
                    BinOp::BitAnd(_) => Some(parse_quote!(|)),
                    _ => None,
                };
                if let Some(o) = alt {
                    if self.hit() {
                        b.op = o;
                    }
                }
            }
            Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => {
                if self.hit() {
                    b.value = !b.value;
                }
            }
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => {
                if let Ok(v) = i.base10_parse::<u128>() {
                    if self.hit() {
                        *i = LitInt::new(&format!("{}{}", v + 1, i.suffix()), i.span());
                    }
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => {
                if self.hit() {
                    *e = (*u.expr).clone();
                }
            }
            _ => {}
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i < b.stmts.len() {
            if let Stmt::Expr(x, Some(_)) = &b.stmts[i] {
                if !matches!(x, Expr::Return(_) | Expr::Break(_)) && self.hit() {
                    b.stmts.remove(i);
                    continue;
                }
            }
            i += 1;
        }
    }
}
pub fn count_mutants(b: &Block) -> usize {
    let mut b = b.clone();
    let mut m = Mutator { target: None, n: 0 };
    m.visit_block_mut(&mut b);
    m.n
}
pub fn mutate(b: &mut Block, k: usize) {
    Mutator { target: Some(k), n: 0 }.visit_block_mut(b);
}
pub fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.segments.len() == 1,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}
