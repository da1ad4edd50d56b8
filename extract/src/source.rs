//! Finding items in the repository's source files.
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::HashMap;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Source {
    pub path: String,
    pub file: File,
    pub text: String,
}

#[derive(Clone)]
pub struct Found {
    pub attrs_dropped: usize,
    pub sig: Signature,
    pub block: Block,
    /// `impl` header: generics, trait path (if any), self type
    pub imp: Option<(Generics, Option<Path>, Type)>,
    pub line: usize,
    pub line_end: usize,
}

pub fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().split_whitespace().collect::<String>()
}

pub fn load(repo: &str, path: &str) -> std::result::Result<Source, String> {
    let p = format!("{}/{}", repo, path);
    let text = std::fs::read_to_string(&p).map_err(|e| format!("cannot read {}: {}", path, e))?;
    let mut file = parse_file(&text).map_err(|e| format!("cannot parse {}: {}", path, e))?;
    let mut ms = HashMap::new();
    macros(&file.items, &mut ms);
    if !ms.is_empty() {
        Expand(&ms).visit_file_mut(&mut file);
    }
    Ok(Source { path: path.into(), file, text })
}

/// One-armed `macro_rules!` without repetition are expanded where they are used.
struct Mac {
    params: Vec<String>,
    body: TokenStream,
}
fn macros(items: &[Item], out: &mut HashMap<String, Mac>) {
    for it in items {
        if let Item::Macro(m) = it {
            let name = match (&m.ident, m.mac.path.is_ident("macro_rules")) {
                (Some(i), true) => i.to_string(),
                _ => continue,
            };
            let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
            let semi = |t: &TokenTree| matches!(t, TokenTree::Punct(p) if p.as_char() == ';');
            let n = if v.last().map(semi).unwrap_or(false) { v.len() - 1 } else { v.len() };
            if let [TokenTree::Group(pat), TokenTree::Punct(_), TokenTree::Punct(_), TokenTree::Group(body)] = &v[..n] {
                let mut params = vec![];
                let mut ok = true;
                for part in commas(pat.stream()) {
                    match &part[..] {
                        [TokenTree::Punct(d), TokenTree::Ident(i), TokenTree::Punct(c), TokenTree::Ident(_)] if d.as_char() == '$' && c.as_char() == ':' => params.push(i.to_string()),
                        _ => ok = false,
                    }
                }
                if ok {
                    out.insert(name, Mac { params, body: body.stream() });
                }
            }
        }
    }
}
fn commas(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut out = vec![];
    let mut cur = vec![];
    for t in ts {
        if matches!(&t, TokenTree::Punct(p) if p.as_char() == ',') {
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push(t);
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
fn fill(ts: TokenStream, b: &HashMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < v.len() => {
                if let TokenTree::Ident(n) = &v[i + 1] {
                    if let Some(x) = b.get(&n.to_string()) {
                        out.extend(x.clone());
                        i += 2;
                        continue;
                    }
                }
                out.push(v[i].clone());
            }
            TokenTree::Ident(n) if n == "stringify" && i + 2 < v.len() && matches!(&v[i + 1], TokenTree::Punct(p) if p.as_char() == '!') => {
                if let TokenTree::Group(g) = &v[i + 2] {
                    let inner = fill(g.stream(), b).to_string();
                    out.push(TokenTree::Literal(proc_macro2::Literal::string(&inner)));
                    i += 3;
                    continue;
                }
                out.push(v[i].clone());
            }
            TokenTree::Group(g) => out.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), fill(g.stream(), b)))),
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
struct Expand<'a>(&'a HashMap<String, Mac>);
impl<'a> Expand<'a> {
    fn one(&self, m: &Macro) -> Option<Expr> {
        let d = self.0.get(&m.path.get_ident()?.to_string())?;
        let args = commas(m.tokens.clone());
        if args.len() != d.params.len() {
            return None;
        }
        let b = d.params.iter().cloned().zip(args.into_iter().map(|a| a.into_iter().collect())).collect();
        let body = fill(d.body.clone(), &b);
        parse2(quote::quote!({ #body })).ok()
    }
}
impl<'a> VisitMut for Expand<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = &*e {
            if let Some(x) = self.one(&m.mac) {
                *e = x;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = &*s {
            if let Some(x) = self.one(&m.mac) {
                *s = Stmt::Expr(x, m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && toks(a).contains("test"))
}

fn last(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => toks(t),
    }
}

impl Source {
    /// All functions: key is `name`, `Type::name` or `<Trait for Type>::name`.
    pub fn functions(&self) -> HashMap<String, Found> {
        let mut m = HashMap::new();
        self.walk(&self.file.items, &mut m);
        m
    }
    fn walk(&self, items: &[Item], m: &mut HashMap<String, Found>) {
        for it in items {
            match it {
                Item::Fn(f) if !is_test(&f.attrs) => {
                    m.insert(
                        f.sig.ident.to_string(),
                        Found {
                            attrs_dropped: f.attrs.len(),
                            sig: f.sig.clone(),
                            block: (*f.block).clone(),
                            imp: None,
                            line: f.sig.span().start().line,
                            line_end: f.block.span().end().line,
                        },
                    );
                }
                Item::Impl(i) if !is_test(&i.attrs) => {
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            let head = match &i.trait_ {
                                None => format!("{}::{}", last(&i.self_ty), f.sig.ident),
                                Some((_, p, _)) => format!("<{} for {}>::{}", toks(p), last(&i.self_ty), f.sig.ident),
                            };
                            m.insert(
                                head,
                                Found {
                                    attrs_dropped: f.attrs.len(),
                                    sig: f.sig.clone(),
                                    block: f.block.clone(),
                                    imp: Some((i.generics.clone(), i.trait_.clone().map(|t| t.1), (*i.self_ty).clone())),
                                    line: f.sig.span().start().line,
                                    line_end: f.block.span().end().line,
                                },
                            );
                        }
                    }
                }
                // a constant is the function which evaluates its initialiser
                Item::Const(c) if !is_test(&c.attrs) => {
                    let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                    m.entry(id.to_string()).or_insert(Found {
                        attrs_dropped: c.attrs.len(),
                        sig: parse_quote!(fn #id() -> #ty),
                        block: parse_quote!({ #e }),
                        imp: None,
                        line: c.span().start().line,
                        line_end: c.span().end().line,
                    });
                }
                Item::Mod(md) if !is_test(&md.attrs) => {
                    if let Some((_, its)) = &md.content {
                        self.walk(its, m);
                    }
                }
                _ => {}
            }
        }
    }
    pub fn item(&self, kind: &str, name: &str) -> Option<Item> {
        self.file.items.iter().find(|i| match (i, kind) {
            (Item::Struct(s), "struct") => s.ident == name,
            (Item::Enum(s), "enum") => s.ident == name,
            (Item::Const(s), "const") => s.ident == name,
            (Item::Type(s), "type") => s.ident == name,
            _ => false,
        })
        .cloned()
    }
}
