//! C26: one live component.
use crate::component::{self, Component, Context};
use crate::ctx::{ensure, show, Case, Ctx, Rng};
use crate::dom::element::diff::changeset::instruction_serializer::InstructionSerializer;
use crate::dom::element::Element;
use crate::dom::event::{ClickEvent, InputEvent, SubmitEvent};
use crate::dom::listener::{Listener, ListenerRef};
use crate::refs;
use lunatic::net::TcpStream;
use lunatic::stub::{self, Letter, BOXES, PANICS, PRELOAD, SPAWNED};
use puck::ws::message::Message;
use puck::ws::websocket::{NextMessageError, WebSocket};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};

thread_local! {
    static SEEN: RefCell<Vec<String>> = RefCell::new(vec![]);
    /// one more listener, and how many children there are besides
    static MORE: RefCell<(String, usize)> = RefCell::new((String::new(), 0));
}
fn seen(s: String) {
    SEEN.with(|x| x.borrow_mut().push(s))
}
/// Which listeners there are and what is shown depends on the inputs so far.
struct Probe {
    data: String,
    n: usize,
    last: String,
    /// nothing shown depends on it, but what the listeners give does
    hidden: usize,
    quiet: bool,
}
impl Drop for Probe {
    fn drop(&mut self) {
        if !self.quiet {
            seen("dropped".into());
        }
    }
}
impl Probe {
    fn apply(&mut self, input: &str) {
        // some inputs change nothing that is shown
        if input == "hush" {
            self.hidden += 1;
        } else if input != "same" {
            self.n += 1;
            self.last = input.to_string();
        }
    }
}
impl Component<String, String> for Probe {
    fn new(data: String, cx: &Context<String>) -> Self {
        seen(format!("new {} {:?}", data, cx.process()));
        Probe { data, n: 0, last: String::new(), hidden: 0, quiet: false }
    }
    fn update(&mut self, input: String, cx: &Context<String>) {
        seen(format!("update {} {:?}", input, cx.process()));
        self.apply(&input);
    }
    fn render(&self) -> (Element, HashMap<String, Listener<String>>) {
        let mut l: HashMap<String, Listener<String>> = HashMap::new();
        let mut refs = vec![];
        if self.n % 3 != 2 {
            let (n, h) = (self.n, self.hidden);
            l.insert("a".into(), Listener::Click { call: Box::new(move |_: ClickEvent| format!("a{} {}", n, h)) });
            if h % 2 == 1 {
                l.insert("é+ x".into(), Listener::Submit { call: Box::new(|_: SubmitEvent| "hush".to_string()) });
            }
            refs.push(ListenerRef::new("a", "click"));
        } else {
            l.insert("a".into(), Listener::Submit { call: Box::new(|_: SubmitEvent| "same".to_string()) });
            refs.push(ListenerRef::new("a", "submit"));
        }
        if self.n % 2 == 0 {
            l.insert("i".into(), Listener::Input { call: Box::new(|e: InputEvent| format!("typed {}", e.value)) });
            refs.push(ListenerRef::new("i", "input"));
        } else {
            l.insert("s".into(), Listener::Submit { call: Box::new(|_: SubmitEvent| "sent".to_string()) });
        }
        let (name, wide) = MORE.with(|m| m.borrow().clone());
        if !name.is_empty() && self.n % 5 != 4 {
            let more: Listener<String> = match self.n % 3 {
                0 => Listener::Submit { call: Box::new(|_: SubmitEvent| "more".to_string()) },
                1 => Listener::Click { call: Box::new(|_: ClickEvent| "most".to_string()) },
                _ => Listener::Input { call: Box::new(|e: InputEvent| format!("more {}", e.value)) },
            };
            refs.push(ListenerRef::new(&name, more.js_event()));
            l.insert(name, more);
        }
        let child = |k: usize| Element {
            id: k + 1,
            name: Cow::Borrowed("p"),
            attributes: HashMap::new(),
            listeners: vec![],
            children: vec![],
            text: Some(Cow::Owned(format!("{} {}", k, self.last))),
            key: None,
        };
        let e = Element {
            id: 0,
            name: Cow::Borrowed("div"),
            attributes: std::iter::once((Cow::Borrowed("data"), Cow::Owned(self.data.clone()))).collect(),
            listeners: refs,
            children: (0..wide + self.n % 4).map(child).collect(),
            text: None,
            key: None,
        };
        (e, l)
    }
}
fn payload(old: Option<&Element>, new: &Element) -> String {
    let c = match old {
        Some(o) => o.diff(Some(new)),
        None => new.diff(None),
    };
    serde_json::to_string(&InstructionSerializer(c)).unwrap()
}
#[derive(Debug, Clone)]
enum M {
    Text(String),
    Other(u8),
    Input(String),
    Bad,
    Closed,
}
fn deliver(m: &M) -> Letter {
    match m {
        M::Text(t) => component::ws(Ok(Message::Text(t.clone()))),
        M::Other(0) => component::ws(Ok(Message::Ping(None))),
        M::Other(1) => component::ws(Ok(Message::Pong(Some(vec![1])))),
        M::Other(_) => component::ws(Ok(Message::Binary(br#"{"listener":"a","payload":null}"#.to_vec()))),
        M::Input(s) => component::input(s),
        M::Bad => component::ws(Err(NextMessageError::ClientError)),
        M::Closed => component::ws(Err(NextMessageError::ConnectionClosed)),
    }
}
/// What the client asks for by this text, by the listeners of the view it sees.
fn asked(t: &str, l: &HashMap<String, Listener<String>>) -> Option<String> {
    let v: serde_json::Value = serde_json::from_str(t).ok()?;
    let o = v.as_object()?;
    let name = o.get("listener")?.as_str()?;
    let val = match o.get("payload") {
        None | Some(serde_json::Value::Null) => None,
        Some(p) => Some(p.as_object()?.get("value")?.as_str()?.to_string()),
    };
    match l.get(name)? {
        Listener::Click { call } => Some(call(ClickEvent)),
        Listener::Submit { call } => Some(call(SubmitEvent)),
        Listener::Input { call } => val.map(|value| call(InputEvent { value })),
    }
}
/// (what the component sees, what the client is sent)
fn expect(data: &str, me: usize, ms: &[M]) -> (Vec<String>, Vec<String>) {
    let mut p = Probe { data: data.to_string(), n: 0, last: String::new(), hidden: 0, quiet: true };
    let mut ev = vec![format!("new {} Process({})", data, me)];
    let mut sent = vec![payload(None, &p.render().0)];
    for m in ms {
        let (dom, lis) = p.render();
        let i = match m {
            M::Input(s) => Some(s.clone()),
            M::Text(t) => asked(t, &lis),
            M::Other(_) => None,
            M::Bad | M::Closed => {
                ev.push("dropped".into());
                return (ev, sent);
            }
        };
        if let Some(i) = i {
            ev.push(format!("update {} Process({})", i, me));
            p.apply(&i);
            sent.push(payload(Some(&dom), &p.render().0));
        }
    }
    ev.push("dropped".into());
    (ev, sent)
}
/// The texts of the frames sent, or what is wrong with them.
fn texts(mut b: &[u8]) -> Result<Vec<String>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        let bad = || format!("not whole server frames: {}", show(b));
        let (h, n) = match b.get(1).ok_or_else(bad)? {
            126 => (4, u16::from_be_bytes([*b.get(2).ok_or_else(bad)?, *b.get(3).ok_or_else(bad)?]) as usize),
            127 => (10, b.get(6..10).ok_or_else(bad)?.iter().fold(0usize, |a, x| a << 8 | *x as usize)),
            n => (2, *n as usize),
        };
        let p = b.get(h..h + n).ok_or_else(bad)?;
        match b[0] {
            0x81 => out.push(String::from_utf8(p.to_vec()).map_err(|_| bad())?),
            0x88 => out.push("<close>".to_string()),
            0x8a => out.push(format!("<pong {}>", show(p))),
            x => return Err(format!("a frame with first byte {:#x}", x)),
        }
        b = &b[h + n..];
    }
    Ok(out)
}
fn message(r: &mut Rng) -> M {
    match r.below(24) {
        0..=2 => M::Input(r.dict_str(1, 4, |_| true).unwrap_or(*r.pick(&["x", "same", "hush", "", "\"y\" é"])).to_string()),
        3 => M::Other(r.below(3) as u8),
        4 if r.chance(1, 8) => M::Bad,
        5 if r.chance(1, 8) => M::Closed,
        6 => M::Text((*r.pick(&["", "{}", "null", "[]", "{\"listener\":1}", "{\"listener\":\"a\",\"payload\":7}", "{\"listener\":\"a\",\"payload\":{}}", "a", "{\"listener\":\"a\"", "{\"payload\":{\"value\":\"v\"}}"])).to_string()),
        _ => {
            let l = *r.pick(&["a", "i", "s", "a", "i", "s", "a", "i", "s", "zz", "", "A", " a", "a ", "i\\n", "é+ x", "é+ x"]);
            let long = "v".repeat(if r.chance(1, 40) { 70000 } else { 300 });
            let odd = r.dict_len().map_or(String::from("q"), |n| "w".repeat(n.min(70000)));
            let plain = |c: char| !c.is_control() && c != '"' && c != '\\';
            let l = match (r.dict_str(1, 4, plain), r.below(4)) {
                (None, _) => l.to_string(),
                (Some(s), 0) => format!("{}{}", s, l),
                (Some(s), 1) => format!("{}{}", l, s),
                (Some(s), _) => s.to_string(),
            };
            let odd = r.dict_str(1, 2, plain).unwrap_or(&odd);
            let v = *r.pick(&[odd, "", "v", "two words", "é\\n", " ", " v ", "0", &long]);
            let whole = r.dict_str(1, 6, |_| true);
            let t = match r.below(4) {
                0 => format!("{{\"listener\":\"{}\"}}", l),
                1 => format!("{{\"listener\":\"{}\",\"payload\":null}}", l),
                2 => format!("{{\"payload\":{{\"value\":\"{}\",\"more\":1}},\"listener\":\"{}\"}}", v, l),
                _ => format!("{{\"listener\":\"{}\",\"payload\":{{\"value\":\"{}\"}}}}", l, v),
            };
            M::Text(match (whole, r.below(3)) {
                (None, 0) if r.chance(1, 8) => format!("{}{}", r.pick(&[" ", "\n", "\u{feff}", "+", "x"]), t),
                (None, 1) if r.chance(1, 8) => format!("{}{}", t, r.pick(&[" ", "\n", "\u{feff}", "\0", "x"])),
                (None, _) => t,
                (Some(s), 0) => format!("{}{}", s, t),
                (Some(s), 1) => format!("{}{}", t, s),
                (Some(s), _) => s.to_string(),
            })
        }
    }
}
fn run_main(case: &mut Case, data: &str, ms: &[M], ends: bool) -> Result<(), String> {
    let (more, wide) = MORE.with(|m| m.borrow().clone());
    case.input(format!("data {:?}, one more listener {:?}, {} more children, messages {:?}", data, more, wide, ms));
    SEEN.with(|x| x.borrow_mut().clear());
    let s = TcpStream::script(&[], &[]);
    let me = 77;
    let id = stub::new_box();
    BOXES.with(|b| {
        let q = &mut b.borrow_mut()[id];
        q.push_back(component::who(lunatic::Process::stub_new(me)));
        for m in ms {
            q.push_back(deliver(m));
        }
    });
    let (d, w) = (data.to_string(), WebSocket::new(s.clone()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || component::run_main::<Probe>(d, w, id)));
    let left = BOXES.with(|b| b.borrow()[id].len());
    check(data, me, ms, &s)?;
    let last = ms.iter().position(|m| matches!(m, M::Bad | M::Closed));
    match (r, last) {
        (Ok(()), Some(k)) => ensure(left == ms.len() - k - 1, || format!("ended with {} messages not looked at", left)),
        (Ok(()), None) => Err("the component ended although its connection is open".into()),
        (Err(_), Some(_)) => Err("the component did not end with its connection".into()),
        (Err(p), None) => ensure(p.is::<stub::ScriptEnd>(), || format!("panic: {}", stub::panic_text(&*p))),
    }?;
    ensure(!ends || last.is_some(), || "?".into())
}
fn check(data: &str, me: usize, ms: &[M], s: &TcpStream) -> Result<(), String> {
    let (ev, sent) = expect(data, me, ms);
    let got = SEEN.with(|x| x.borrow().clone());
    ensure(got == ev, || format!("the component saw {:?}, expected {:?}", got, ev))?;
    let out: Vec<String> = texts(&s.output())?.into_iter().filter(|t| !t.starts_with('<')).collect();
    ensure(out == sent, || format!("the client was sent {:?}, expected {:?}", out, sent))
}
pub fn c26(c: &mut Ctx) {
    // each kind of message alone, after none to three inputs, then the same again
    let kinds: Vec<M> = {
        let mut v = vec![M::Other(0), M::Other(1), M::Other(2), M::Input("x".into()), M::Input("same".into()), M::Bad, M::Closed];
        for l in ["a", "i", "s", "zz"] {
            for p in ["", ",\"payload\":null", ",\"payload\":{\"value\":\"v\"}", ",\"payload\":3"] {
                v.push(M::Text(format!("{{\"listener\":\"{}\"{}}}", l, p)));
            }
        }
        v
    };
    let k = kinds.len() as u64;
    c.enumerate("one message", k * 7, |case, _, i| {
        let mut ms = vec![M::Input("x".into()); (i / k) as usize];
        ms.push(kinds[(i % k) as usize].clone());
        ms.push(kinds[(i % k) as usize].clone());
        run_main(case, "d", &ms, false)
    });
    c.family("messages", 4000, |case, r, _| {
        let n = r.count(0, 11);
        let ms: Vec<M> = (0..n).map(|_| message(r)).collect();
        let d = r.text("ab é", 0, 4);
        let wide = if n < 20 { r.count(0, 1) } else { 0 };
        let more = r.dict_str(1, 2, |_| true).unwrap_or(if r.chance(1, 4) { "zz" } else { "" }).to_string();
        MORE.with(|m| *m.borrow_mut() = (more, wide));
        let res = run_main(case, &d, &ms, false);
        MORE.with(|m| *m.borrow_mut() = (String::new(), 0));
        res
    });
    // the whole: what the client sends on its connection and what others send to the component
    c.family("processes", 1500, |case, r, _| {
        let n = r.count(0, 5);
        let cut = r.below(3);
        let mut bytes = vec![];
        let mut ms = vec![];
        for _ in 0..n {
            let t = match message(r) {
                M::Text(t) => t,
                _ => "{\"listener\":\"a\"}".to_string(),
            };
            bytes.extend(refs::encode_masked(true, 0, 1, t.as_bytes(), [1, 2, 3, 4], 0));
            ms.push(M::Text(t));
        }
        match cut {
            0 => {
                bytes.extend(refs::encode_masked(true, 0, 8, b"", [1, 2, 3, 4], 0));
                ms.push(M::Closed);
                // nothing behind it counts
                bytes.extend(refs::encode_masked(true, 0, 1, b"{\"listener\":\"a\"}", [1, 2, 3, 4], 0));
            }
            1 => ms.push(M::Bad),
            _ => {
                bytes.extend([0x81, 0x85, 1]);
                ms.push(M::Bad)
            }
        }
        let ins: Vec<String> = (0..r.count(0, 3)).map(|_| r.text("xyz", 0, 3)).collect();
        case.input(format!("client sends {:?} (stream {}), inputs {:?}", ms, show(&bytes), ins));
        let s = TcpStream::script(&bytes, &r.chunks());
        // the first process is the one others send to
        PRELOAD.with(|p| p.borrow_mut().push_back(ins.iter().map(|i| Letter::new(i.clone())).collect()));
        stub::LIMIT.with(|l| *l.borrow_mut() = 1000);
        let outer = component::manage::<Probe, String, String>("d".to_string(), WebSocket::new(s.clone()));
        stub::LIMIT.with(|l| *l.borrow_mut() = usize::MAX);
        let panics = PANICS.with(|p| p.borrow().clone());
        ensure(panics.is_empty(), || format!("a process failed: {:?}", panics))?;
        let spawned = SPAWNED.with(|p| *p.borrow());
        ensure(spawned == 3, || format!("{} processes", spawned))?;
        // what reached the component's own process
        let boxed: Vec<(usize, VecDeque<Letter>)> = BOXES.with(|b| std::mem::take(&mut *b.borrow_mut()).into_iter().enumerate().filter(|(_, q)| !q.is_empty()).collect());
        ensure(boxed.len() == 1, || format!("{} processes were sent messages", boxed.len()))?;
        let (_, q) = boxed.into_iter().next().unwrap();
        let got: Vec<String> = q.iter().map(|m| component::describe(m)).collect();
        let mut want: Vec<String> = vec![component::describe(&component::who(outer.clone()))];
        want.extend(ms.iter().map(|m| component::describe(&deliver(m))));
        want.extend(ins.iter().map(|i| component::describe(&component::input(i))));
        ensure(got == want, || format!("the component's process was sent {:?}, expected {:?}", got, want))?;
        // and now it runs
        SEEN.with(|x| x.borrow_mut().clear());
        let id = stub::new_box();
        BOXES.with(|b| b.borrow_mut()[id] = q);
        let w = WebSocket::new(s.clone());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || component::run_main::<Probe>("d".to_string(), w, id)));
        ensure(r.is_ok(), || "the component did not end with its connection".into())?;
        check("d", outer.uuid() as usize, &ms, &s)
    });
}
