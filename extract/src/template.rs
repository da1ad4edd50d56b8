//! Template processing: Verus text with `//@` directives.
use crate::emit::{jstr, Printer};
use crate::rules::*;
use crate::source::{self, toks, Found, Source};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default)]
pub struct Opt {
    pub vacuity: bool,
    pub mutate: Option<(String, usize)>,
    /// functions to verify with `loop_isolation(false)`
    pub flat: Vec<String>,
    /// local names of each function as the annotations know them
    pub locals: HashMap<(String, String), Vec<String>>,
}
type Res<T> = std::result::Result<T, String>;

#[derive(Default, Clone)]
struct FnSpec {
    alias: String,
    path: String,
    props: Vec<String>,
    opts: HashSet<String>,
    text: HashMap<String, String>,
    iters: HashMap<usize, String>,
    as_name: Option<String>,
    extra_params: Vec<String>,
    sigtypes: HashMap<String, String>,
    ret: Option<String>,
    maps: Vec<Map>,
    generics: Option<String>,
    implhead: Option<String>,
    /// roles of the values which a spawned process gets, with their types
    ctx: Vec<(String, String)>,
}
struct Done {
    name: String,
    file: String,
    line: usize,
    line_end: usize,
    gen_start: usize,
    gen_end: usize,
    props: Vec<String>,
    loops: Vec<String>,
    vocab: BTreeMap<String, usize>,
    rules: BTreeMap<String, usize>,
    inlined: Vec<String>,
    missing: Vec<String>,
    unused: Vec<String>,
    tokens: usize,
    mutants: usize,
    locals: Vec<String>,
}
fn nows(s: &str) -> String {
    s.split_whitespace().collect()
}
fn parse_map(s: &str, n: usize) -> Res<Map> {
    let (a, b) = s.split_once("=>").ok_or_else(|| format!("bad map: {}", s))?;
    // `=>` may occur in the pattern when written `==>>`
    let a = a.replace("==>>", "=>");
    Ok(Map {
        name: format!("map{}", n),
        pat: pattern(a.parse().map_err(|e| format!("bad map {}: {}", s, e))?),
        repl: b.parse().map_err(|e| format!("bad map {}: {}", s, e))?,
    })
}
fn fn_names(text: &str) -> HashSet<String> {
    let mut s = HashSet::new();
    for l in text.lines() {
        let t = l.trim_start();
        if t.starts_with("//") {
            continue;
        }
        let ws: Vec<&str> = t.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|x| !x.is_empty()).collect();
        for w in ws.windows(2) {
            if w[0] == "fn" {
                s.insert(w[1].to_string());
            }
        }
    }
    s
}

struct Unit {
    repo: String,
    srcs: HashMap<String, (Rc<Source>, Rc<HashMap<String, Found>>)>,
    types: Vec<(String, Type)>,
    maps: Vec<Map>,
    drops: HashSet<String>,
    stream_types: HashSet<String>,
    known: HashSet<String>,
    done: Vec<Done>,
    dropped: Vec<String>,
    out: String,
    opt: Opt,
    used_idents: HashSet<String>,
}

pub fn run(repo: &str, tpl: &str, opt: Opt) -> Res<(String, String)> {
    let raw = std::fs::read_to_string(tpl).map_err(|e| format!("{}: {}", tpl, e))?;
    let dir = std::path::Path::new(tpl).parent().unwrap().to_path_buf();
    // includes
    let mut text = String::new();
    fn inc(t: &str, dir: &std::path::Path, out: &mut String) -> Res<()> {
        for l in t.lines() {
            if let Some(f) = l.trim().strip_prefix("//@include ") {
                let p = dir.join(f.trim());
                let s = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p.display(), e))?;
                inc(&s, dir, out)?;
            } else {
                out.push_str(l);
                out.push('\n');
            }
        }
        Ok(())
    }
    inc(&raw, &dir, &mut text)?;
    let mut u = Unit {
        repo: repo.into(),
        srcs: HashMap::new(),
        types: vec![],
        maps: vec![],
        drops: ["trace", "debug", "info", "warn", "error"].iter().map(|s| s.to_string()).collect(),
        stream_types: HashSet::new(),
        known: HashSet::new(),
        done: vec![],
        dropped: vec![],
        out: String::new(),
        opt,
        used_idents: HashSet::new(),
    };
    // functions the template defines itself, and those under contract
    for n in fn_names(&text) {
        u.known.insert(n);
    }
    for l in text.lines() {
        if let Some(r) = l.trim().strip_prefix("//@fn ") {
            let p = r.split_once(' ').map(|x| x.1).unwrap_or("").trim().to_string();
            u.known.insert(p.clone());
            if p.contains(" for ") {
                let t = nows(p.split(" for ").nth(1).unwrap()).replace('>', "");
                u.known.insert(t);
            }
        }
    }
    let lines: Vec<&str> = text.lines().collect();
    let mut consts_at: Option<usize> = None;
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim();
        if let Some(r) = l.strip_prefix("//@src ") {
            let (a, p) = r.split_once('=').ok_or("bad src")?;
            let s = Rc::new(source::load(&u.repo, p.trim())?);
            let f = Rc::new(s.functions());
            u.srcs.insert(a.trim().into(), (s, f));
        } else if let Some(r) = l.strip_prefix("//@type ") {
            let (a, b) = r.split_once("=>").ok_or("bad type")?;
            let a: Type = parse_str(a).map_err(|e| format!("{}: {}", r, e))?;
            let b: Type = parse_str(b).map_err(|e| format!("{}: {}", r, e))?;
            u.types.push((toks(&a), b));
        } else if let Some(r) = l.strip_prefix("//@map ") {
            let n = u.maps.len();
            u.maps.push(parse_map(r, n)?);
        } else if let Some(r) = l.strip_prefix("//@streams ") {
            for x in r.split_whitespace() {
                u.stream_types.insert(x.into());
            }
        } else if l == "//@consts" {
            consts_at = Some(u.out.len());
        } else if let Some(r) = l.strip_prefix("//@item ") {
            u.item(r)?;
        } else if let Some(r) = l.strip_prefix("//@fn ") {
            let (a, p) = r.split_once(' ').ok_or("bad fn")?;
            let mut f = FnSpec { alias: a.into(), path: p.trim().into(), ..Default::default() };
            let mut key: Option<String> = None;
            i += 1;
            while i < lines.len() && lines[i].trim() != "//@end" {
                let l = lines[i].trim();
                if let Some(r) = l.strip_prefix("//@| ") {
                    let (k, v) = r.split_once(' ').unwrap_or((r, ""));
                    let v = v.trim();
                    key = None;
                    match k {
                        "props" => f.props = v.split_whitespace().map(|s| s.to_string()).collect(),
                        "opt" => f.opts.extend(v.split_whitespace().map(|s| s.to_string())),
                        "as" => f.as_name = Some(v.into()),
                        "ret" => f.ret = Some(v.into()),
                        "generics" => f.generics = Some(v.into()),
                        "impl" => f.implhead = Some(v.into()),
                        "param" => f.extra_params.push(v.into()),
                        "sigtype" => {
                            let (a, b) = v.split_once(' ').ok_or("bad sigtype")?;
                            f.sigtypes.insert(a.into(), b.into());
                        }
                        "ctx" => {
                            let (a, b) = v.split_once(' ').ok_or("bad ctx")?;
                            f.ctx.push((a.into(), b.into()));
                        }
                        "map" => {
                            let n = f.maps.len();
                            f.maps.push(parse_map(v, 1000 + n)?)
                        }
                        "iter" => {
                            let (a, b) = v.split_once(' ').ok_or("bad iter")?;
                            f.iters.insert(a.parse().map_err(|_| "bad iter")?, b.into());
                        }
                        "spec" | "start" | "tail" | "result" | "exit" => key = Some(k.into()),
                        "inv" | "loopstart" | "loopend" | "afterloop" | "beforeloop" | "after" | "before" => key = Some(format!("{}_{}", k, v.replace(" @", "@"))),
                        x => return Err(format!("unknown section {}", x)),
                    }
                } else if let Some(k) = &key {
                    let e = f.text.entry(k.clone()).or_default();
                    e.push_str(lines[i]);
                    e.push('\n');
                }
                i += 1;
            }
            u.function(f)?;
        } else if let Some(r) = l.strip_prefix("//@") {
            return Err(format!("unknown directive {}", r));
        } else {
            u.out.push_str(lines[i]);
            u.out.push('\n');
        }
        i += 1;
    }
    // constants of the source files which extracted code uses and the template does not define
    if let Some(at) = consts_at {
        let mut c = String::new();
        let mut n = 0;
        let mut seen = HashSet::new();
        for (s, _) in u.srcs.values() {
            for it in &s.file.items {
                if let Item::Const(k) = it {
                    let name = k.ident.to_string();
                    if u.used_idents.contains(&name) && !text.contains(&format!("const {}:", name)) && seen.insert(name) {
                        let mut k = k.clone();
                        k.attrs.clear();
                        k.vis = parse_quote!(pub);
                        static_refs(&mut k.ty);
                        c.push_str(&format!("    {}\n", k.to_token_stream()));
                        n += 1;
                    }
                }
            }
        }
        u.out.insert_str(at, &c);
        for d in u.done.iter_mut() {
            d.gen_start += n;
            d.gen_end += n;
        }
    }
    let mut j = String::from("{\"functions\":[");
    for (k, d) in u.done.iter().enumerate() {
        if k > 0 {
            j.push(',');
        }
        let list = |v: &Vec<String>| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
        let map = |m: &BTreeMap<String, usize>| m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",");
        j.push_str(&format!(
            "{{\"name\":{},\"file\":{},\"line\":{},\"line_end\":{},\"gen_start\":{},\"gen_end\":{},\"props\":[{}],\"loops\":[{}],\"vocab\":{{{}}},\"rules\":{{{}}},\"inlined\":[{}],\"missing\":[{}],\"unused\":[{}],\"tokens\":{},\"mutants\":{},\"locals\":[{}]}}\n",
            jstr(&d.name), jstr(&d.file), d.line, d.line_end, d.gen_start, d.gen_end, list(&d.props), list(&d.loops),
            map(&d.vocab), map(&d.rules), list(&d.inlined), list(&d.missing), list(&d.unused), d.tokens, d.mutants, list(&d.locals)
        ));
    }
    j.push_str("],\"dropped\":[");
    j.push_str(&u.dropped.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    j.push_str("]}\n");
    Ok((u.out, j))
}

fn has_bound(t: &Type, names: &[&str]) -> bool {
    if let Type::ImplTrait(i) = t {
        return i.bounds.iter().any(|b| match b {
            TypeParamBound::Trait(t) => names.contains(&t.path.segments.last().unwrap().ident.to_string().as_str()),
            _ => false,
        });
    }
    false
}

struct IdentSet<'a>(&'a mut HashSet<String>);
impl<'a, 'ast> Visit<'ast> for IdentSet<'a> {
    fn visit_ident(&mut self, i: &'ast proc_macro2::Ident) {
        self.0.insert(i.to_string());
    }
}

impl Unit {
    fn item(&mut self, r: &str) -> Res<()> {
        let mut w = r.splitn(4, ' ');
        let (a, kind, name, rest) = (w.next().unwrap(), w.next().ok_or("bad item")?, w.next().ok_or("bad item")?, w.next().unwrap_or(""));
        let (s, _) = self.srcs.get(a).ok_or_else(|| format!("unknown source {}", a))?.clone();
        let mut it = s.item(kind, name).ok_or_else(|| format!("{} {} not found in {}", kind, name, s.path))?;
        let mut rw = Rw { types: &self.types, drops: &self.drops, streams: HashSet::new(), locals: HashSet::new(), opts: HashSet::new(), counts: BTreeMap::new(), fresh: 0 };
        match &mut it {
            Item::Struct(x) => {
                self.dropped.push(format!("{}: attributes of struct {}", s.path, name));
                x.attrs.clear();
                x.vis = parse_quote!(pub);
                for f in x.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                    rw.visit_type_mut(&mut f.ty);
                }
            }
            Item::Enum(x) => {
                self.dropped.push(format!("{}: attributes of enum {}", s.path, name));
                x.attrs.clear();
                x.vis = parse_quote!(pub);
                for v in x.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                        rw.visit_type_mut(&mut f.ty);
                    }
                }
            }
            Item::Const(x) => {
                x.attrs.clear();
                x.vis = parse_quote!(pub);
                rw.visit_type_mut(&mut x.ty);
                static_refs(&mut x.ty);
            }
            Item::Type(x) => {
                x.attrs.clear();
            }
            _ => {}
        }
        if !rest.is_empty() {
            self.out.push_str(&format!("    {}\n", rest));
        }
        let keys = HashMap::new();
        let mut p = Printer::new(&keys);
        p.print(it.to_token_stream());
        self.out.push_str("    ");
        self.out.push_str(p.out.trim());
        self.out.push('\n');
        Ok(())
    }

    fn function(&mut self, spec: FnSpec) -> Res<()> {
        let (src, funcs) = self.srcs.get(&spec.alias).ok_or_else(|| format!("unknown source {}", spec.alias))?.clone();
        let want = nows(spec.path.split('#').next().unwrap());
        let (mut name, mut f) = funcs
            .iter()
            .find(|(k, _)| nows(k) == want)
            .map(|(k, v)| (k.clone(), v.clone()))
            .ok_or_else(|| format!("function {} not found in {}", spec.path, src.path))?;
        let mut roles: Vec<(String, String)> = vec![];
        let mut spec = spec;
        if let Some(k) = spec.path.split('#').nth(1).and_then(|x| x.strip_prefix("spawn")) {
            // the function which the process spawned here runs; `#spawnN`: the N-th of three or more
            let which = if k.is_empty() { None } else { Some(k.parse::<usize>().map_err(|e| e.to_string())?) };
            let k = k.to_string();
            let (g, sigtypes, r) = spawned(&f, &funcs, &spec.ctx, which).map_err(|e| format!("{}: {}", name, e))?;
            f = g;
            spec.sigtypes.extend(sigtypes);
            roles = r;
            name = format!("{}#spawn{}", name, k);
        }
        let tokens = count_tokens(f.block.to_token_stream());
        // 1. inline helpers that have no contract
        let self_ty = match &f.imp {
            Some((_, _, Type::Path(p))) => p.path.segments.last().unwrap().ident.to_string(),
            _ => String::new(),
        };
        let ret0 = match &f.sig.output {
            ReturnType::Default => "()".to_string(),
            ReturnType::Type(_, t) => toks(&**t),
        };
        let (inlined, missing) = {
            let mut inl = Inliner { funcs: &funcs, known: &self.known, self_ty: self_ty.clone(), ret: ret0, done: vec![], missing: vec![], depth: 0, fresh: 0 };
            inl.run(&mut f.block);
            (inl.done, inl.missing)
        };
        // 2. token maps
        let mut counts: BTreeMap<String, usize> = BTreeMap::new();
        let mut ts = block_tokens(&f.block);
        for m in self.maps.iter().chain(spec.maps.iter()) {
            let mut n = 0;
            ts = apply_map(ts, m, &mut n);
            if n > 0 {
                *counts.entry(m.name.clone()).or_insert(0) += n;
            }
        }
        let by_value_self = matches!(f.sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_none());
        if by_value_self && (spec.opts.contains("selfmut") || matches!(f.sig.inputs.first(), Some(FnArg::Receiver(r)) if r.mutability.is_some())) {
            // Verus has no `mut self`: bind it to a local
            ts = rename_self(ts);
            ts = quote!(let mut __self = self; #ts);
            *counts.entry("mut-self".into()).or_insert(0) += 1;
        }
        let mut block: Block = syn::parse2(quote!({ #ts })).map_err(|e| format!("{}: after maps: {}", name, e))?;
        // 3. signature
        let keep_stream = spec.opts.contains("byvalue");
        let mut streams: HashSet<String> = HashSet::new();
        let mut params: Vec<String> = vec![];
        let mut names: Vec<String> = vec![];
        let mut rw = Rw { types: &self.types, drops: &self.drops, streams: HashSet::new(), locals: local_names(&block).into_iter().collect(), opts: spec.opts.clone(), counts, fresh: 0 };
        for p in &f.sig.inputs {
            match p {
                FnArg::Receiver(r) => {
                    let s = r.to_token_stream().to_string();
                    let s = if r.reference.is_none() {
                        "self".to_string()
                    } else if spec.opts.contains("selfmut") {
                        "&mut self".to_string()
                    } else {
                        s
                    };
                    params.push(s);
                }
                FnArg::Typed(t) => {
                    let (pname, muta) = match &*t.pat {
                        syn::Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()),
                        _ => {
                            let p = &t.pat;
                            let n = Ident::new(&format!("__arg{}", names.len()), proc_macro2::Span::call_site());
                            if !matches!(&**p, syn::Pat::Wild(_)) {
                                block.stmts.insert(0, parse_quote!(let #p = #n;));
                            }
                            (n.to_string(), false)
                        }
                    };
                    let mut ty = (*t.ty).clone();
                    let is_stream = !keep_stream && (has_bound(&ty, &["Read", "Write"]) || self.stream_types.contains(&toks(&ty)));
                    if let Some(x) = spec.sigtypes.get(&pname).or_else(|| spec.sigtypes.get(&format!("${}", names.len()))) {
                        params.push(format!("{}{}: {}", if muta { "mut " } else { "" }, pname, x));
                    } else if is_stream {
                        streams.insert(pname.clone());
                        let base = if has_bound(&ty, &["Read"]) {
                            "impl Read".to_string()
                        } else if has_bound(&ty, &["Write"]) {
                            "impl Write".to_string()
                        } else {
                            toks(&ty)
                        };
                        *rw.counts.entry("stream-param".into()).or_insert(0) += 1;
                        params.push(format!("{}: &mut {}", pname, base));
                    } else {
                        if let Type::Reference(r) = &ty {
                            // `&mut impl Write` is a stream handle already
                            if r.mutability.is_some() && has_bound(&r.elem, &["Read", "Write"]) {
                                streams.insert(pname.clone());
                            }
                        }
                        rw.visit_type_mut(&mut ty);
                        params.push(format!("{}{}: {}", if muta { "mut " } else { "" }, pname, ty.to_token_stream()));
                    }
                    names.push(pname);
                }
            }
        }
        params.extend(spec.extra_params.iter().cloned());
        rw.streams = streams;
        rw.locals.extend(names.iter().cloned());
        // 4. rules
        rw.visit_block_mut(&mut block);
        let mut ad = crate::rules::Adaptors::default();
        ad.visit_block_mut(&mut block);
        if ad.0 > 0 {
            *rw.counts.entry("adapted-loop".into()).or_insert(0) += ad.0;
        }
        let counts = std::mem::take(&mut rw.counts);
        let ret = match (&spec.ret, &f.sig.output) {
            (Some(r), _) => Some(r.clone()),
            (None, ReturnType::Default) => None,
            (None, ReturnType::Type(_, t)) => {
                let mut t = (**t).clone();
                rw.visit_type_mut(&mut t);
                Some(t.to_token_stream().to_string())
            }
        };
        // 4b. a mutant, when asked for
        let nm = crate::rules::count_mutants(&block);
        if let Some((fnm, k)) = &self.opt.mutate {
            if *fnm == name {
                crate::rules::mutate(&mut block, *k);
            }
        }
        // 5. vocabulary, markers
        let mut vocab = Vocab::default();
        vocab.visit_block(&block);
        IdentSet(&mut self.used_idents).visit_block(&block);
        let mut text: HashMap<String, String> = HashMap::new();
        // annotations of a loop may depend on its shape: `inv 0 @while`
        let mut shapes = crate::rules::Shapes::default();
        shapes.visit_block(&block);
        let shaped = |n: &str| shapes.0.iter().enumerate().any(|(k, s)| n.rsplit_once('_').map(|x| x.1) == Some(k.to_string().as_str()) && spec.text.contains_key(&format!("{}@{}", n, s)));
        for (k, v) in &spec.text {
            let k = &match (k.split_once('@'), k.rsplit_once('_')) {
                (Some((a, s)), _) => match a.rsplit_once('_').and_then(|(_, n)| n.parse::<usize>().ok()).and_then(|n| shapes.0.get(n)) {
                    Some(t) if t == s => a.to_string(),
                    _ => continue,
                },
                (None, Some((a, _))) if ["inv", "loopstart", "loopend", "beforeloop", "afterloop"].contains(&a) && shaped(k) => continue,
                _ => k.clone(),
            };
            let mut v = v.clone();
            for (i, n) in names.iter().enumerate().rev() {
                v = v.replace(&format!("${}", i), n);
            }
            for (r, n) in &roles {
                v = v.replace(&format!("${}", r), n);
            }
            text.insert(k.clone(), v);
        }
        if text.values().any(|v| v.contains("$lits")) {
            // what the string literals of the function say
            struct Lits(Vec<String>);
            impl<'ast> Visit<'ast> for Lits {
                fn visit_lit_str(&mut self, l: &'ast syn::LitStr) {
                    let t = format!("reveal_strlit({});", l.token());
                    if !self.0.contains(&t) {
                        self.0.push(t);
                    }
                }
            }
            let mut l = Lits(vec![]);
            l.visit_block(&block);
            for v in text.values_mut() {
                *v = v.replace("$lits", &l.0.join(" "));
            }
        }
        let locals = local_names(&block);
        if let Some(b) = self.opt.locals.get(&(src.path.clone(), name.clone())) {
            // renamed locals: the annotations follow
            if b.len() == locals.len() {
                let mut ren: HashMap<String, String> = HashMap::new();
                let mut clash: HashSet<String> = HashSet::new();
                for (x, y) in b.iter().zip(locals.iter()) {
                    if ren.get(x).map(|z| z != y).unwrap_or(false) {
                        clash.insert(x.clone());
                    }
                    ren.insert(x.clone(), y.clone());
                }
                ren.retain(|k, _| !clash.contains(k));
                if ren.iter().any(|(a, b)| a != b) {
                    text = text.iter().map(|(k, v)| {
                        let k2 = match k.split_once('_') {
                            Some((a, n)) if a == "after" || a == "before" => format!("{}_{}", a, ren.get(n).cloned().unwrap_or(n.to_string())),
                            _ => k.clone(),
                        };
                        (k2, rename_words(v, &ren))
                    }).collect();
                }
            }
        }
        let keys = text.clone();
        let mut marks = Marks { keys: &keys, iters: &spec.iters, k: 0, kinds: vec![], vecs: HashMap::new(), gens: HashMap::new() };
        marks.visit_block_mut(&mut block);
        let kinds = marks.kinds.clone();
        for (k, n) in std::mem::take(&mut marks.vecs) {
            for (key, v) in text.iter_mut() {
                if key.rsplit_once('_').map(|x| x.1) == Some(k.to_string().as_str()) {
                    *v = v.replace("$vec", &n);
                }
            }
        }
        let gens = std::mem::take(&mut marks.gens);
        // texts at a local variable may use a generated name which only one loop has
        for (key, v) in text.iter_mut() {
            if key.starts_with("after_") || key.starts_with("before_") {
                for g in gens.values().flatten().map(|x| x.0.clone()).collect::<Vec<_>>() {
                    let ns: Vec<_> = gens.values().flatten().filter(|x| x.0 == g).collect();
                    if ns.len() == 1 {
                        *v = v.replace(&format!("${}", g), &ns[0].1);
                    }
                }
            }
        }
        for (k, ns) in gens {
            for (key, v) in text.iter_mut() {
                if key.rsplit_once('_').map(|x| x.1) == Some(k.to_string().as_str()) {
                    for (g, n) in &ns {
                        *v = v.replace(&format!("${}", g), n);
                    }
                }
            }
        }
        if text.contains_key("tail") {
            let n = block.stmts.len();
            let at = if n > 0 && matches!(block.stmts[n - 1], Stmt::Expr(_, None)) { n - 1 } else { n };
            block.stmts.insert(at, parse_quote!(__vm!(tail);));
        }
        if text.contains_key("result") {
            if let Some(Stmt::Expr(e, None)) = block.stmts.last().cloned() {
                block.stmts.pop();
                block.stmts.push(parse_quote!(let __res = #e;));
                block.stmts.push(parse_quote!(__vm!(result);));
                block.stmts.push(Stmt::Expr(parse_quote!(__res), None));
            }
        }
        if text.contains_key("exit") {
            // at every way out which is written as such: the final expression and each `return`
            struct Exits(Option<Type>);
            impl VisitMut for Exits {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    visit_mut::visit_expr_mut(self, e);
                    if let Expr::Return(ExprReturn { expr: Some(x), .. }) = e {
                        let x = &**x;
                        *e = match &self.0 {
                            Some(t) => parse_quote!({ let __res: #t = #x; __vm!(exit); return __res; }),
                            None => parse_quote!({ let __res = #x; __vm!(exit); return __res; }),
                        };
                    }
                }
                fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
            }
            let ty: Option<Type> = ret.as_ref().and_then(|r| syn::parse_str(r).ok());
            Exits(ty.clone()).visit_block_mut(&mut block);
            if let Some(Stmt::Expr(e, None)) = block.stmts.last().cloned() {
                block.stmts.pop();
                block.stmts.push(match &ty {
                    Some(t) => parse_quote!(let __res: #t = #e;),
                    None => parse_quote!(let __res = #e;),
                });
                block.stmts.push(parse_quote!(__vm!(exit);));
                block.stmts.push(Stmt::Expr(parse_quote!(__res), None));
            }
        }
        block.stmts.insert(0, parse_quote!(__vm!(start);));
        if self.opt.vacuity {
            // only the reachability of the body under the precondition is asked for
            let spec_text = text.get("spec").cloned();
            text.clear();
            if let Some(t) = spec_text {
                text.insert("spec".into(), t);
            }
            text.insert("start".into(), format!("        proof {{ assert(false); }} //#VACUITY {}\n", name));
            block = parse_quote!({ __vm!(start); vac_any() });
        }
        // 6. print
        let inherent = spec.opts.contains("inherent");
        let fname = spec.as_name.clone().unwrap_or_else(|| f.sig.ident.to_string());
        let generics = match &spec.generics {
            Some(g) => g.clone(),
            None => {
                let g = &f.sig.generics;
                if g.params.is_empty() { String::new() } else { g.to_token_stream().to_string() }
            }
        };
        let mut head = String::new();
        let mut close = "";
        let in_trait = f.imp.as_ref().map(|i| i.1.is_some()).unwrap_or(false) && !inherent;
        if let Some(h) = &spec.implhead {
            head.push_str(&format!("{} {{\n", h));
            close = "}\n";
        } else if let (Some((g, tr, st)), false) = (&f.imp, spec.opts.contains("free")) {
            let mut st = st.clone();
            rw.visit_type_mut(&mut st);
            let g = if g.params.is_empty() { String::new() } else { g.to_token_stream().to_string() };
            match (tr, inherent) {
                (Some(t), false) => {
                    let mut ty: Type = parse_quote!(#t);
                    rw.visit_type_mut(&mut ty);
                    head.push_str(&format!("impl{} {} for {} {{\n", g, ty.to_token_stream(), st.to_token_stream()))
                }
                _ => head.push_str(&format!("impl{} {} {{\n", g, st.to_token_stream())),
            }
            close = "}\n";
        }
        let mut s = String::new();
        s.push_str(&format!("// ---- {} {} lines {}-{}\n", src.path, name, f.line, f.line_end));
        s.push_str(&head);
        if !spec.opts.contains("shared") {
            // its own solver: what happens in other functions does not change the effort here
            s.push_str("    #[verifier::spinoff_prover]\n");
            if self.opt.flat.iter().any(|n| *n == name) {
                // second attempt: what is known before a loop about things it does not change stays known
                s.push_str("    #[verifier::loop_isolation(false)]\n    #[verifier::allow_complex_invariants]\n");
            }
        }
        if spec.opts.contains("external_body") {
            s.push_str("    #[verifier::external_body]\n");
        }
        for o in &spec.opts {
            if let Some(a) = o.strip_prefix("attr:") {
                s.push_str(&format!("    #[{}]\n", a));
            }
        }
        s.push_str(&format!(
            "    {}fn {}{}({})",
            if in_trait { "" } else { "pub " },
            fname,
            generics,
            params.join(", ")
        ));
        if let Some(r) = &ret {
            s.push_str(&format!(" -> (res: {})", r));
        }
        s.push('\n');
        if let Some(t) = text.get("spec") {
            s.push_str(t);
        }
        let mut pr = Printer::new(&text);
        pr.print(block.to_token_stream());
        s.push_str("    ");
        s.push_str(pr.out.trim());
        s.push('\n');
        s.push_str(close);
        let used: HashSet<String> = pr.used.iter().cloned().collect();
        let unused: Vec<String> = text.keys().filter(|k| *k != "spec" && !used.contains(*k)).cloned().collect();
        let start = self.out.matches('\n').count() + 1;
        self.out.push_str(&s);
        let end = self.out.matches('\n').count();
        self.done.push(Done {
            name,
            file: src.path.clone(),
            line: f.line,
            line_end: f.line_end,
            gen_start: start,
            gen_end: end,
            props: spec.props.clone(),
            loops: kinds,
            vocab: vocab.0,
            rules: counts,
            inlined,
            missing,
            unused,
            tokens,
            mutants: nm,
            locals,
        });
        Ok(())
    }
}
/// The function handed to `Process::spawn(context, function)` inside `f`, as a function of its own:
/// one parameter per component of the context.  `roles` names what the context consists of.
#[allow(clippy::type_complexity)]
fn spawned(f: &Found, funcs: &HashMap<String, Found>, roles: &[(String, String)], which: Option<usize>) -> Res<(Found, HashMap<String, String>, Vec<(String, String)>)> {
    struct V(Vec<ExprCall>);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_call(&mut self, c: &'ast ExprCall) {
            if is_spawn(c) {
                self.0.push(c.clone());
            }
            syn::visit::visit_expr_call(self, c);
        }
    }
    let mut v = V(vec![]);
    v.visit_block(&f.block);
    if which.is_none() && v.0.len() != 1 || which.map(|k| k >= v.0.len()).unwrap_or(false) {
        return Err(format!("{} calls of Process::spawn", v.0.len()));
    }
    let call = &v.0[which.unwrap_or(0)];
    let mut mailbox: Option<syn::Pat> = None;
    let ctx = &call.args[0];
    let (pat, block, line): (syn::Pat, Block, (usize, usize)) = match &call.args[1] {
        Expr::Closure(c) => {
            let p = match c.inputs.first().ok_or("no context")? {
                syn::Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            mailbox = c.inputs.iter().nth(1).map(|m| match m {
                syn::Pat::Type(t) => (*t.pat).clone(),
                m => m.clone(),
            });
            let b = match &*c.body {
                Expr::Block(b) => b.block.clone(),
                e => parse_quote!({ #e }),
            };
            use syn::spanned::Spanned;
            (p, b, (c.span().start().line, c.span().end().line))
        }
        Expr::Path(p) => {
            let n = p.path.segments.last().unwrap().ident.to_string();
            let mut c = funcs.iter().filter(|(k, _)| **k == n || k.ends_with(&format!("::{}", n)));
            let g = match (c.next(), c.next()) {
                (Some((_, g)), None) => g.clone(),
                _ => return Err(format!("{} is not a function of this file", n)),
            };
            let p = match g.sig.inputs.first() {
                Some(FnArg::Typed(t)) => (*t.pat).clone(),
                _ => return Err("no context".into()),
            };
            (p, g.block, (g.line, g.line_end))
        }
        _ => return Err("spawns something else".into()),
    };
    let parts: Vec<Expr> = match ctx {
        Expr::Tuple(t) => t.elems.iter().cloned().collect(),
        e => vec![e.clone()],
    };
    let pats: Option<Vec<syn::Pat>> = match &pat {
        syn::Pat::Tuple(t) if t.elems.len() == parts.len() => Some(t.elems.iter().cloned().collect()),
        _ if parts.len() == 1 => Some(vec![pat.clone()]),
        _ => None,
    };
    let all_roles = roles;
    let roles = if all_roles.last().map(|r| r.0 == "mailbox").unwrap_or(false) { &all_roles[..all_roles.len() - 1] } else { all_roles };
    if parts.len() != roles.len() {
        return Err("another context".into());
    }
    // which component plays which role
    let mut role: Vec<Option<usize>> = vec![None; parts.len()];
    for (i, e) in parts.iter().enumerate() {
        let mut ids = HashSet::new();
        IdentSet(&mut ids).visit_expr(e);
        if let Some(ps) = &pats {
            IdentSet(&mut ids).visit_pat(&ps[i]);
        }
        role[i] = (0..roles.len()).find(|r| ids.contains(&roles[*r].0) && !role.contains(&Some(*r)));
    }
    for i in 0..parts.len() {
        if role[i].is_none() {
            role[i] = (0..roles.len()).find(|r| !role.contains(&Some(*r)));
        }
    }
    let mut types = HashMap::new();
    let mut named = vec![];
    let mut block = block;
    let mut inputs: Vec<FnArg> = vec![];
    match &pats {
        Some(ps) => {
            for (i, p) in ps.iter().enumerate() {
                let (r, t) = &roles[role[i].unwrap()];
                let n = match p {
                    syn::Pat::Ident(x) => x.ident.to_string(),
                    _ => format!("__arg{}", i),
                };
                types.insert(n.clone(), t.clone());
                named.push((r.clone(), n));
                let ty: Type = parse_str(t).map_err(|e| format!("{}: {}", t, e))?;
                inputs.push(parse_quote!(#p: #ty));
            }
        }
        None => {
            let ts: Vec<String> = role.iter().map(|r| roles[r.unwrap()].1.clone()).collect();
            let t = format!("({})", ts.join(", "));
            let n = match &pat {
                syn::Pat::Ident(x) => x.ident.to_string(),
                _ => "__arg0".to_string(),
            };
            types.insert(n.clone(), t.clone());
            for (i, r) in role.iter().enumerate() {
                named.push((roles[r.unwrap()].0.clone(), format!("{}.{}", n, i)));
            }
            let ty: Type = parse_str(&t).map_err(|e| format!("{}: {}", t, e))?;
            inputs.push(parse_quote!(#pat: #ty));
        }
    }
    if let (Some(syn::Pat::Ident(m)), true) = (&mailbox, roles.len() < all_roles.len()) {
        let t = &all_roles[roles.len()].1;
        let n = m.ident.to_string();
        types.insert(n.clone(), t.clone());
        named.push(("mailbox".to_string(), n));
        let ty: Type = parse_str(t).map_err(|e| format!("{}: {}", t, e))?;
        inputs.push(parse_quote!(#m: #ty));
    }
    block.stmts.retain(|s| !matches!(s, Stmt::Item(_)));
    let id = Ident::new(&format!("{}_process{}", f.sig.ident, which.map(|k| k.to_string()).unwrap_or_default()), proc_macro2::Span::call_site());
    let sig: Signature = parse_quote!(fn #id(#(#inputs),*));
    let g = Found { attrs_dropped: 0, sig, block, imp: f.imp.clone(), line: line.0, line_end: line.1 };
    Ok((g, types, named))
}
/// `Process::spawn(context, function)`, with or without its types
pub fn is_spawn(c: &ExprCall) -> bool {
    match &*c.func {
        Expr::Path(p) => {
            let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            v.len() >= 2 && v[v.len() - 2] == "Process" && v[v.len() - 1] == "spawn" && c.args.len() == 2
        }
        _ => false,
    }
}
fn count_tokens(ts: proc_macro2::TokenStream) -> usize {
    ts.into_iter().map(|t| match t { proc_macro2::TokenTree::Group(g) => 2 + count_tokens(g.stream()), _ => 1 }).sum()
}

fn rename_self(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenTree};
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if i == "self" => TokenTree::Ident(Ident::new("__self", i.span())),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), rename_self(g.stream()))),
            t => t,
        })
        .collect()
}

fn local_names(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
            let n = i.ident.to_string();
            if !n.starts_with("__") && n != "None" {
                self.0.push(n);
            }
        }
        fn visit_macro(&mut self, _: &'ast Macro) {}
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    v.0
}
fn rename_words(s: &str, ren: &HashMap<String, String>) -> String {
    let mut out = String::new();
    let mut w = String::new();
    let mut prev = ' ';
    let mut start_prev = ' ';
    for c in s.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' {
            if w.is_empty() {
                start_prev = prev;
            }
            w.push(c);
        } else {
            if !w.is_empty() {
                // not a field or method of something
                match ren.get(&w) {
                    Some(r) if start_prev != '.' => out.push_str(r),
                    _ => out.push_str(&w),
                }
                w.clear();
            }
            if c != '\0' {
                out.push(c);
            }
        }
        prev = c;
    }
    out
}

/// `&T` in the type of a constant is `&'static T`
fn static_refs(t: &mut Type) {
    struct V;
    impl VisitMut for V {
        fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
            if r.lifetime.is_none() {
                r.lifetime = Some(parse_quote!('static));
            }
            syn::visit_mut::visit_type_reference_mut(self, r);
        }
    }
    V.visit_type_mut(t);
}
