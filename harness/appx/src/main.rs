//! The live component loop and the example applications, compiled from /repo's sources as modules
//! of this program, against in-memory stand-ins for lunatic and malvolio.
#![allow(dead_code, unused_imports)]
#[macro_use]
extern crate derive_builder;
extern crate self as puck_liveview;
#[path = "../../puckx/src/ctx.rs"]
mod ctx;
#[path = "../../puckx/src/refs.rs"]
mod refs;

#[path = "/repo/puck_liveview/src/client/mod.rs"]
pub mod client;
#[path = "/repo/puck_liveview/src/dom/mod.rs"]
pub mod dom;
#[path = "/repo/puck_liveview/src/html/mod.rs"]
pub mod html;
#[path = "/repo/puck_liveview/src/init.rs"]
pub mod init;
pub mod prelude {
    pub use crate::html::{IntoWrappedBodyNode, WrappedBodyNode};
    pub use malvolio::prelude::*;
}
// included, so that what follows may use what is private there
pub mod component {
    include!("/repo/puck_liveview/src/component/mod.rs");

    use lunatic::stub::Letter;
    type In = String;
    pub fn run_main<C: Component<String, In>>(data: String, ws: WebSocket, inbox: usize) {
        main_loop::<C, String, In>((data, ws), Mailbox::with_id(inbox))
    }
    pub fn who(p: Process<In>) -> Letter {
        Letter::new(WsOrInput::<In>::WhoAmI(p))
    }
    pub fn input(i: &str) -> Letter {
        Letter::new(WsOrInput::<In>::Input(i.to_string()))
    }
    pub fn ws(m: Result<Message, NextMessageError>) -> Letter {
        Letter::new(WsOrInput::<In>::Ws(m))
    }
    /// for comparing: what kind of message this is
    pub fn describe(b: &Letter) -> String {
        match b.peek::<WsOrInput<In>>() {
            Some(WsOrInput::Ws(m)) => format!("Ws({:?})", m),
            Some(WsOrInput::Input(i)) => format!("Input({:?})", i),
            Some(WsOrInput::WhoAmI(p)) => format!("WhoAmI({:?})", p),
            None => "?".to_string(),
        }
    }
}
mod app_chat;
mod app_list;
mod live;

#[global_allocator]
static A: ctx::Watch = ctx::Watch;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string());
    let prop = a.get(1).cloned().unwrap_or_default();
    let only = if a.iter().any(|x| x == "--family") { Some((get("--family", ""), get("--index", "0").parse().unwrap())) } else { None };
    let mut c = ctx::Ctx::new(&prop, get("--seed", "1").parse().unwrap(), get("--scale", "1").parse().unwrap(), get("--secs", "60").parse().unwrap(), only);
    match prop.as_str() {
        "C20" => app_list::c20(&mut c),
        "C21" => app_chat::c21(&mut c),
        "C22" => app_chat::c22(&mut c),
        "C26" => live::c26(&mut c),
        _ => std::process::exit(2),
    }
    println!("RESULT {}", c.json());
}
