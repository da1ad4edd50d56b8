#[path = "../../puckx/src/ctx.rs"]
#[allow(dead_code)]
mod ctx;
#[allow(dead_code)]
mod m {
    include!(concat!(env!("OUT_DIR"), "/mime.rs"));
    pub fn mk(essence: &str, utf8: bool, params: &[(String, String)]) -> Mime {
        let own = |s: &str| Cow::Owned(s.to_string());
        Mime {
            essence: own(essence),
            basetype: own(essence.split_once('/').map_or(essence, |x| x.0)),
            subtype: own(essence.split_once('/').map_or("", |x| x.1)),
            is_utf8: utf8,
            params: params.iter().map(|(n, v)| (ParamName(own(n)), ParamValue(own(v)))).collect(),
        }
    }
}
use ctx::{ensure, Case, Ctx, Rng};
#[global_allocator]
static A: ctx::Watch = ctx::Watch;

fn token(c: char) -> bool {
    c.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(c)
}
fn reference(essence: &str, utf8: bool, params: &[(String, String)]) -> String {
    let mut s = essence.to_string();
    if utf8 {
        s += ";charset=utf-8";
    }
    for (n, v) in params {
        s += ";";
        s += n;
        s += "=";
        if !v.is_empty() && v.chars().all(token) {
            s += v;
        } else {
            s.push('"');
            for c in v.chars() {
                if c == '"' || c == '\\' {
                    s.push('\\');
                }
                s.push(c);
            }
            s.push('"');
        }
    }
    s
}
fn check(case: &mut Case, essence: &str, utf8: bool, params: &[(String, String)]) -> Result<(), String> {
    case.input(format!("essence={:?} utf8={} params={:?}", essence, utf8, params));
    let got = m::mk(essence, utf8, params).to_string();
    let want = reference(essence, utf8, params);
    ensure(got == want, || format!("written {:?}, expected {:?}", got, want))
}
fn c15(c: &mut Ctx) {
    c.enumerate("constants", 3, |case, _, i| {
        let (m, w) = [(m::HTML, "text/html;charset=utf-8"), (m::PLAIN, "text/plain;charset=utf-8"), (m::BYTE_STREAM, "application/octet-stream")][i as usize].clone();
        case.input(w.to_string());
        ensure(m.to_string() == w, || format!("written {:?}, expected {:?}", m.to_string(), w))
    });
    // every character up to U+024F alone, between tokens, and doubled
    c.enumerate("each character", 0x250 * 3, |case, _, i| {
        let ch = char::from_u32((i / 3) as u32).unwrap();
        let v = match i % 3 {
            0 => ch.to_string(),
            1 => format!("a{}b", ch),
            _ => format!("{0}{0}", ch),
        };
        check(case, "a/b", i % 2 == 0, &[("n".into(), v)])
    });
    c.family("parameters", 6000, |case, r: &mut Rng, _| {
        let val = |r: &mut Rng| match r.below(6) {
            0 => String::new(),
            1 => r.text("abcXYZ019!#$%&'*+-.^_`|~", 1, 8),
            2 => match r.dict_str(1, 2, |_| true) {
                Some(s) => s.to_string(),
                None => r.text("\"\\", 1, 6),
            },
            3 => r.text("a\"\\ ;=,é\u{1F600}\u{0}\u{7f}", 1, 10),
            4 => format!("{}{}", r.text("ab", 0, 40), r.text("\"\\ ", 0, 1)),
            5 if r.chance(1, 10) => r.text("ab \"\\\t\n'é\u{1F600}\u{0}\u{7f}\u{301}", 64, 3000),
            5 if r.chance(1, 10) => r.text("abcXYZ019!#$%&'*+-.^_`|~", 64, 3000),
            _ => r.text("ab \"\\", 0, 60),
        };
        let n = if r.chance(1, 100) { r.range(5, 300) } else { r.count(0, 4) };
        let ps: Vec<(String, String)> = (0..n).map(|_| (if let Some(s) = r.dict_str(1, 4, |c| !c.is_control()) { s.to_string() } else if r.chance(1, 6) { r.pick(&["charset", "Charset", "boundary", "q", ""]).to_string() } else { r.text("abcn-", 1, 5) }, if r.chance(1, 12) { r.pick(&["utf-8", "UTF-8", "latin1"]).to_string() } else { val(r) })).collect();
        let part = |r: &mut Rng| match r.dict_str(1, 6, |c| c.is_ascii_alphanumeric() || "+.-".contains(c)) {
            Some(s) => s.to_string(),
            None if r.chance(1, 3) => r.pick(&["text", "html", "plain", "application", "json", "xml", "javascript", "css", "image", "octet-stream", "svg+xml", "event-stream", "form-data", "multipart"]).to_string(),
            None => r.text("abct+.-", 0, 8),
        };
        let e = match r.dict_str(1, 8, |c| c.is_ascii_alphanumeric() || "/+.-".contains(c)) {
            Some(s) if s.matches('/').count() == 1 => s.to_string(),
            _ => format!("{}/{}", part(r), part(r)),
        };
        let u = r.bool();
        check(case, &e, u, &ps)
    });
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string());
    let prop = a.get(1).cloned().unwrap_or_default();
    let only = if a.iter().any(|x| x == "--family") { Some((get("--family", ""), get("--index", "0").parse().unwrap())) } else { None };
    let mut c = Ctx::new(&prop, get("--seed", "1").parse().unwrap(), get("--scale", "1").parse().unwrap(), get("--secs", "60").parse().unwrap(), only);
    match prop.as_str() {
        "C15" => c15(&mut c),
        _ => std::process::exit(2),
    }
    println!("RESULT {}", c.json());
}
