//! Printing token streams as readable Verus text, with the template's annotations spliced in at
//! the `__vm!(key)` markers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::HashMap;

pub struct Printer<'a> {
    pub out: String,
    ind: usize,
    pub inserts: &'a HashMap<String, String>,
    pub used: Vec<String>,
}

fn marker(ts: &[TokenTree], i: usize, name: &str) -> Option<Vec<TokenTree>> {
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (ts.get(i), ts.get(i + 1), ts.get(i + 2)) {
        if id == name && p.as_char() == '!' {
            return Some(g.stream().into_iter().collect());
        }
    }
    None
}

impl<'a> Printer<'a> {
    pub fn new(inserts: &'a HashMap<String, String>) -> Self {
        Printer { out: String::new(), ind: 1, inserts, used: vec![] }
    }
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        if !self.out.ends_with('\n') {
            self.out.push('\n');
        }
        self.out.push_str(&"    ".repeat(self.ind));
    }
    fn insert(&mut self, key: &str) {
        if let Some(t) = self.inserts.get(key) {
            self.used.push(key.to_string());
            self.out.push('\n');
            self.out.push_str(t.trim_end());
            self.out.push('\n');
            self.nl();
        }
    }
    pub fn print(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut joint = true;
        while i < v.len() {
            if let Some(args) = marker(&v, i, "__vm") {
                let key: String = args.iter().map(|t| t.to_string()).collect();
                if !key.starts_with("inv_") {
                    self.insert(&key);
                }
                i += 3;
                if let Some(TokenTree::Punct(p)) = v.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                joint = true;
                continue;
            }
            if let Some(args) = marker(&v, i, "__viter") {
                // __viter!(name, expr)  ->  name: expr
                self.out.push_str(&format!("{}: ", args[0]));
                let rest: TokenStream = args[2..].iter().cloned().collect();
                self.print(rest);
                i += 3;
                joint = false;
                continue;
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        if let Some(args) = marker(&inner, 0, "__vm") {
                            let key: String = args.iter().map(|t| t.to_string()).collect();
                            if key.starts_with("inv_") {
                                self.insert(&key);
                            }
                        }
                        if !joint {
                            self.out.push(' ');
                        }
                        self.out.push('{');
                        self.ind += 1;
                        self.nl();
                        self.print(g.stream());
                        self.ind -= 1;
                        self.nl();
                        self.out.push('}');
                        // new line after a block unless something glued follows
                        let glued = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if ".,;?)=-<>".contains(p.as_char()))
                            || matches!(v.get(i + 1), Some(TokenTree::Ident(id)) if id == "else");
                        if !glued {
                            self.nl();
                        }
                    } else {
                        if !joint && o == "[" {
                            // keep `x[..]` and `&[..]` as they are
                        }
                        self.out.push_str(o);
                        self.print(g.stream());
                        while self.out.ends_with(' ') {
                            self.out.pop();
                        }
                        self.out.push_str(c);
                        self.out.push(' ');
                    }
                    joint = false;
                }
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    self.out.push_str(&s);
                    self.out.push(' ');
                    joint = false;
                }
                TokenTree::Literal(l) => {
                    self.out.push_str(&l.to_string());
                    self.out.push(' ');
                    joint = false;
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if ".;,?:".contains(c) && self.out.ends_with(' ') && !self.out.ends_with(". ") {
                        self.out.pop();
                    }
                    self.out.push(c);
                    if c == ';' {
                        self.nl();
                    } else if p.spacing() == Spacing::Alone && c != '.' && c != '\'' {
                        self.out.push(' ');
                    }
                    joint = p.spacing() == Spacing::Joint;
                }
            }
            i += 1;
        }
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
