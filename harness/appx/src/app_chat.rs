//! C21, C22: the chat server.
use crate::ctx::{ensure, Case, Ctx, Rng};
mod chat {
    include!("/repo/examples/chat/src/main.rs");
    pub struct Ids(UserIdCreator);
    impl Ids {
        pub fn new() -> Ids { Ids(UserIdCreator::default()) }
        pub fn get(&mut self) -> u64 { self.0.get_id().0 }
        pub fn release(&mut self, id: u64) { self.0.release_id(UserId(id)) }
    }
    pub struct Server(ChatServerState);
    #[derive(Debug, Clone, PartialEq)]
    pub enum Answer {
        Registered(u64, String),
        Renamed(String),
        Message(u64, String, String),
        Browser,
        Closed,
    }
    fn answer(a: LiveviewInput) -> Answer {
        match a {
            LiveviewInput::UserRegistered(i, n) => Answer::Registered(i.0, n.0),
            LiveviewInput::UpdatedUsername(n) => Answer::Renamed(n.0),
            LiveviewInput::ReceiveMessage(m) => Answer::Message(m.sender.0, m.username.0, m.contents),
            LiveviewInput::BrowserRequest(_) => Answer::Browser,
            LiveviewInput::Closed => Answer::Closed,
        }
    }
    impl Server {
        pub fn new() -> Server { Server(<ChatServerState as AbstractProcess>::init(ProcessRef::stub_new(0), ())) }
        fn ask(&mut self, r: CoordinatorInput) -> Answer { answer(<ChatServerState as ProcessRequest<CoordinatorInput>>::handle(&mut self.0, r)) }
        pub fn register(&mut self, name: &str, inbox: usize) -> Answer { self.ask(CoordinatorInput::RegisterNewUser(Username(name.into()), Process::stub_new(inbox))) }
        pub fn rename(&mut self, id: u64, name: &str) -> Answer { self.ask(CoordinatorInput::SetUsername(UserId(id), Username(name.into()))) }
        pub fn say(&mut self, id: u64, text: &str) -> Answer { self.ask(CoordinatorInput::SendMessage(UserId(id), text.into())) }
        pub fn remove(&mut self, id: u64) -> Answer { self.ask(CoordinatorInput::RemoveUser(UserId(id))) }
        pub fn names(&self) -> Vec<(u64, String)> {
            let mut v: Vec<(u64, String)> = self.0.users.iter().map(|(i, (n, _))| (i.0, n.0.clone())).collect();
            v.sort();
            v
        }
    }
    pub fn inbox(id: usize) -> Vec<Answer> {
        puck::lunatic::stub::BOXES.with(|b| b.borrow_mut()[id].drain(..).map(|m| answer(m.take::<LiveviewInput>())).collect())
    }
}
use chat::{Answer, Ids, Server};

pub fn c21(c: &mut Ctx) {
    fn one(case: &mut Case, ops: &[Option<u64>]) -> Result<(), String> {
        case.input(format!("{:?} (None: allocate, Some(id): release)", ops));
        let mut g = Ids::new();
        let (mut used, mut free, mut head) = (vec![], vec![], 0u64);
        for o in ops {
            match o {
                None => {
                    let id = g.get();
                    ensure(!used.contains(&id), || format!("{} was given out twice", id))?;
                    if free.is_empty() {
                        ensure(id == head, || format!("gave {} although no released id is left and {} is next", id, head))?;
                        head += 1;
                    } else {
                        ensure(free.contains(&id), || format!("gave {} although {:?} are available", id, free))?;
                        free.retain(|x| *x != id);
                    }
                    used.push(id);
                }
                Some(id) => {
                    g.release(*id);
                    if used.contains(id) {
                        used.retain(|x| x != id);
                        free.push(*id);
                    }
                }
            }
        }
        Ok(())
    }
    // every history of up to 6 steps over three ids
    c.enumerate("short histories", 4u64.pow(6), |case, _, i| {
        let ops: Vec<Option<u64>> = (0..6).map(|k| match i / 4u64.pow(k) % 4 { 3 => None, x => Some(x) }).collect();
        one(case, &ops)
    });
    c.family("histories", 6000, |case, r, _| {
        let n = r.count(0, 59);
        let bias = r.range(1, 4);
        let ops: Vec<Option<u64>> = (0..n).map(|_| if r.below(5) < bias { None } else { Some(r.below(12) as u64) }).collect();
        one(case, &ops)
    });
}
#[derive(Debug, Clone)]
enum Op {
    Register(String),
    Rename(u64, String),
    Say(u64, String),
    Remove(u64),
}
pub fn c22(c: &mut Ctx) {
    c.family("histories", 6000, |case, r, _| {
        let n = r.count(0, 29);
        let ops: Vec<Op> = (0..n)
            .map(|_| {
                let t = r.text("ab é", 0, 4);
                match r.below(9) {
                    0..=3 => Op::Register(t),
                    4 => Op::Rename(r.below(5) as u64, t),
                    5 => Op::Remove(r.below(5) as u64),
                    _ => Op::Say(r.below(5) as u64, t),
                }
            })
            .collect();
        case.input(format!("{:?}", ops));
        let mut s = Server::new();
        // id, name, inbox
        let mut us: Vec<(u64, String, usize)> = vec![];
        let mut all = vec![];
        for o in &ops {
            let sent = match o {
                Op::Register(n) => {
                    let b = lunatic::stub::new_box();
                    all.push(b);
                    match s.register(n, b) {
                        Answer::Registered(id, m) => {
                            ensure(&m == n, || format!("registered as {:?}", m))?;
                            ensure(us.iter().all(|u| u.0 != id), || format!("id {} is taken", id))?;
                            us.push((id, n.clone(), b));
                        }
                        a => return Err(format!("answered {:?} to {:?}", a, o)),
                    }
                    vec![]
                }
                Op::Rename(id, n) => {
                    let a = s.rename(*id, n);
                    ensure(a == Answer::Renamed(n.clone()), || format!("answered {:?} to {:?}", a, o))?;
                    for u in us.iter_mut().filter(|u| u.0 == *id) {
                        u.1 = n.clone();
                    }
                    vec![]
                }
                Op::Remove(id) => {
                    let a = s.remove(*id);
                    ensure(a == Answer::Closed, || format!("answered {:?} to {:?}", a, o))?;
                    us.retain(|u| u.0 != *id);
                    vec![]
                }
                Op::Say(id, t) => match us.iter().find(|u| u.0 == *id).cloned() {
                    // only present users can speak (otherwise the server fails by design)
                    None => vec![],
                    Some(u) => {
                        let m = Answer::Message(*id, u.1.clone(), t.clone());
                        let a = s.say(*id, t);
                        ensure(a == m, || format!("answered {:?} to {:?}", a, o))?;
                        us.iter().filter(|v| v.0 != *id).map(|v| (v.2, m.clone())).collect()
                    }
                },
            };
            for b in &all {
                let got = chat::inbox(*b);
                let want: Vec<Answer> = sent.iter().filter(|x| x.0 == *b).map(|x| x.1.clone()).collect();
                ensure(got == want, || format!("after {:?} a user got {:?}, expected {:?}", o, got, want))?;
            }
            let mut want: Vec<(u64, String)> = us.iter().map(|u| (u.0, u.1.clone())).collect();
            want.sort();
            let got = s.names();
            ensure(got == want, || format!("after {:?} the users are {:?}, expected {:?}", o, got, want))?;
        }
        Ok(())
    });
}
