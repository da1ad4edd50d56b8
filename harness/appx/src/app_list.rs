//! C20: the list server.
use crate::ctx::{ensure, show, Case, Ctx, Rng};
use crate::refs;
use lunatic::net::TcpStream;
use lunatic::stub::{self, Accept};
mod list {
    include!("/repo/examples/list/src/main.rs");
    pub struct Server(List);
    impl Server {
        pub fn new(v: Vec<String>) -> Server { Server(<List as AbstractProcess>::init(lunatic::process::ProcessRef::stub_new(0), v)) }
        pub fn add(&mut self, s: &str) -> bool { matches!(<List as ProcessRequest<Msg>>::handle(&mut self.0, Msg::Add(s.into())), Reply::Added) }
        fn items(r: Reply) -> Option<Vec<String>> { match r { Reply::Items(v) => Some(v), Reply::Added => None } }
        pub fn all(&mut self) -> Option<Vec<String>> { Self::items(<List as ProcessRequest<Msg>>::handle(&mut self.0, Msg::AllItems)) }
        pub fn last(&mut self, n: usize) -> Option<Vec<String>> { Self::items(<List as ProcessRequest<Msg>>::handle(&mut self.0, Msg::LastN(n))) }
    }
    pub fn serve() { main(Mailbox::with_id(0)) }
}
use list::Server;

pub fn c20(c: &mut Ctx) {
    c.family("histories", 4000, |case, r, _| {
        let start: Vec<String> = (0..r.count(0, 2)).map(|_| r.text("ab é", 0, 3)).collect();
        let ops: Vec<(u8, String, usize)> = (0..r.count(0, 19)).map(|_| (r.below(3) as u8, r.text("ab é", 0, 3), r.size(0, 24))).collect();
        case.input(format!("start {:?}, {:?} (0: add, 1: all, 2: last n)", start, ops));
        let mut s = Server::new(start.clone());
        let mut v = start;
        for (k, t, n) in &ops {
            match k {
                0 => {
                    ensure(s.add(t), || "adding was not confirmed".into())?;
                    v.push(t.clone());
                }
                1 => {
                    let g = s.all();
                    ensure(g.as_ref() == Some(&v), || format!("all items are {:?}, expected {:?}", g, v))?;
                }
                _ => {
                    let g = s.last(*n);
                    let want = v[v.len().saturating_sub(*n)..].to_vec();
                    // all of them: the known finding fewer-than-all
                    ensure(g.as_ref() == Some(&want) || g.as_ref() == Some(&v), || format!("the last {} items are {:?}, expected {:?}", n, g, want))?;
                }
            }
        }
        Ok(())
    });
    c.enumerate("last n", 12 * 14, |case, _, i| {
        let (len, n) = (i as usize / 14, i as usize % 14);
        let n = if n == 13 { usize::MAX } else { n };
        let v: Vec<String> = (0..len).map(|k| format!("{}", k)).collect();
        case.input(format!("last {} of {} items", n, len));
        let mut s = Server::new(v.clone());
        let g = s.last(n);
        let want = v[len.saturating_sub(n)..].to_vec();
        ensure(g.as_ref() == Some(&want) || g.as_ref() == Some(&v), || format!("got {:?}, expected {:?}", g, want))?;
        let g = s.all();
        ensure(g.as_ref() == Some(&v), || format!("asking changed the items to {:?}", g))
    });
    c.enumerate("fewer-than-all", 12 * 12, |case, _, i| {
        let (len, n) = (i as usize / 12, i as usize % 12);
        let v: Vec<String> = (0..len).map(|k| format!("{}", k)).collect();
        case.input(format!("last {} of {} items", n, len));
        let g = Server::new(v.clone()).last(n);
        let want = v[len.saturating_sub(n)..].to_vec();
        ensure(g.as_ref() == Some(&want), || format!("got {:?}, expected {:?}", g, want))
    });
    // over HTTP
    fn post(body: &[u8]) -> Vec<u8> {
        let mut b = format!("POST /submit HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n\r\n", body.len()).into_bytes();
        b.extend_from_slice(body);
        b
    }
    fn get(p: &str) -> Vec<u8> {
        format!("GET {} HTTP/1.1\r\nHost: h\r\n\r\n", p).into_bytes()
    }
    /// status and body of each answer
    fn serve(reqs: &[Vec<u8>]) -> Result<Vec<(u16, String)>, String> {
        let ss: Vec<TcpStream> = reqs.iter().map(|q| TcpStream::script(q, &[])).collect();
        stub::ACCEPTS.with(|a| a.borrow_mut().extend(ss.iter().map(|s| Accept::Conn(s.clone()))));
        let r = std::panic::catch_unwind(list::serve);
        ensure(matches!(&r, Err(p) if p.is::<stub::ScriptEnd>()), || "the server ended".into())?;
        let ps = stub::PANICS.with(|p| p.borrow().clone());
        ensure(ps.is_empty(), || format!("a handler panicked: {:?}", ps))?;
        ss.iter()
            .map(|s| {
                let o = s.output();
                let (head, body) = refs::split_head(&o).ok_or_else(|| format!("no answer: {}", show(&o)))?;
                let st = head.split(' ').nth(1).and_then(|x| x.parse().ok()).ok_or_else(|| format!("no status: {}", head))?;
                Ok((st, String::from_utf8_lossy(&body).to_string()))
            })
            .collect()
    }
    fn list_page(items: &[String]) -> String {
        let mut s = "[Message list][Message list]".to_string();
        if items.is_empty() {
            s.push_str("[There are no messages yet.]");
        }
        for i in items {
            s.push_str(&format!("[Item: {}]", i));
        }
        s
    }
    c.family("over http", 1500, |case, r, _| {
        let mut reqs = vec![];
        let mut want: Vec<(u16, Option<String>)> = vec![];
        let mut alt: Vec<Option<String>> = vec![];
        let mut items: Vec<String> = vec![];
        for _ in 0..r.count(1, 8) {
            alt.resize(want.len(), None);
            match r.below(6) {
                0..=2 => {
                    let t = r.text("ab=&+ é", 0, 5);
                    reqs.push(post(format!("message={}", t).as_bytes()));
                    want.push((200, Some("[Submit a message][Added that item]".into())));
                    items.push(t);
                }
                3 => {
                    let t = r.text("mesag=", 0, 7);
                    reqs.push(post(t.as_bytes()));
                    match t.strip_prefix("message=") {
                        Some(t) => {
                            want.push((200, Some("[Submit a message][Added that item]".into())));
                            items.push(t.to_string())
                        }
                        None => want.push((400, None)),
                    }
                }
                4 => {
                    let n = r.below(6);
                    reqs.push(get(&format!("/read/{}", n)));
                    want.push((200, Some(list_page(&items[items.len().saturating_sub(n)..]))));
                    alt.push(Some(list_page(&items))); // the known finding fewer-than-all
                }
                _ => match r.below(3) {
                    0 => {
                        reqs.push(get("/submit"));
                        want.push((200, None));
                    }
                    _ => {
                        reqs.push(get(*r.pick(&["/", "/read", "/read/x", "/read/1/2", "/submit/x", "/x", "/read/1.5", "/read/", "/read/99999999999"])));
                        want.push((404, None));
                    }
                },
            }
        }
        case.input(reqs.iter().map(|q| show(q)).collect::<Vec<_>>().join(" "));
        alt.resize(want.len(), None);
        let got = serve(&reqs)?;
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            ensure(g.0 == w.0, || format!("request {} was answered {}, expected {}", i, g.0, w.0))?;
            if let Some(b) = &w.1 {
                ensure(&g.1 == b || Some(&g.1) == alt[i].as_ref(), || format!("request {} was answered {:?}, expected {:?}", i, g.1, b))?;
            }
        }
        Ok(())
    });
    for (fam, fam2, q) in [("body-no-text", "body-no-text refused", post(b"message=\xff")), ("negative-number", "negative-number refused", get("/read/-1"))] {
        c.enumerate(fam, 1, |case, _, _| {
            case.input(show(&q));
            let g = serve(&[q.clone()])?;
            ensure(g[0].0 == 400, || format!("answered {}", g[0].0))
        });
        // the known finding is that the handler panics; answering anything else is another matter
        c.enumerate(fam2, 1, |case, _, _| {
            case.input(show(&q));
            match serve(&[q.clone()]) {
                Ok(g) => ensure(g[0].0 == 400, || format!("answered {}", g[0].0)),
                Err(e) => ensure(e.starts_with("a handler panicked"), || e.clone()),
            }
        });
    }
}
