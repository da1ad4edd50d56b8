//! In-memory stand-in for the parts of lunatic that puck links against. No sockets, no
//! processes: a connection is a pair of byte queues, `Process::spawn` runs the entry function in
//! place on the calling thread (a panic is caught and recorded), a mailbox is a queue. What the
//! stub host observes is kept in thread-locals in `stub`.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::marker::PhantomData;
use std::rc::Rc;

pub use lunatic_macros::{main, test};

pub mod stub {
    use super::*;
    /// payload used to leave an endless accept/receive loop once the script is exhausted
    #[derive(Debug)]
    pub struct ScriptEnd;
    /// one message in a mailbox, of any type
    pub struct Letter {
        p: *mut u8,
        t: &'static str,
        n: usize,
    }
    impl Letter {
        pub fn new<M>(m: M) -> Letter {
            Letter { p: Box::into_raw(Box::new(m)) as *mut u8, t: std::any::type_name::<M>(), n: std::mem::size_of::<M>() }
        }
        fn is<M>(&self) -> bool {
            self.t == std::any::type_name::<M>() && self.n == std::mem::size_of::<M>()
        }
        pub fn take<M>(self) -> M {
            assert!(self.is::<M>(), "stub mailbox message type: {} is not {}", self.t, std::any::type_name::<M>());
            *unsafe { Box::from_raw(self.p as *mut M) }
        }
        pub fn peek<M>(&self) -> Option<&M> {
            if self.is::<M>() { Some(unsafe { &*(self.p as *const M) }) } else { None }
        }
    }
    pub enum Accept {
        Conn(net::TcpStream),
        Err,
    }
    thread_local! {
        pub static ACCEPTS: RefCell<VecDeque<Accept>> = RefCell::new(VecDeque::new());
        pub static CONNS: RefCell<Vec<Rc<RefCell<net::Conn>>>> = RefCell::new(Vec::new());
        /// messages of panics inside spawned processes
        pub static PANICS: RefCell<Vec<String>> = RefCell::new(Vec::new());
        pub static SPAWNED: RefCell<usize> = RefCell::new(0);
        /// mailboxes: queue of boxed messages by process id
        pub static BOXES: RefCell<Vec<VecDeque<Letter>>> = RefCell::new(Vec::new());
        /// how many messages may be sent before the run is stopped
        pub static LIMIT: RefCell<usize> = RefCell::new(usize::MAX);
        /// what the mailbox of the next process holds when it starts
        pub static PRELOAD: RefCell<VecDeque<VecDeque<Letter>>> = RefCell::new(VecDeque::new());
    }
    pub fn reset() {
        ACCEPTS.with(|a| a.borrow_mut().clear());
        CONNS.with(|a| a.borrow_mut().clear());
        PANICS.with(|a| a.borrow_mut().clear());
        SPAWNED.with(|a| *a.borrow_mut() = 0);
        BOXES.with(|a| a.borrow_mut().clear());
        LIMIT.with(|l| *l.borrow_mut() = usize::MAX);
        PRELOAD.with(|a| a.borrow_mut().clear());
    }
    pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
        if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    }
    pub fn new_box() -> usize {
        let first = PRELOAD.with(|p| p.borrow_mut().pop_front()).unwrap_or_default();
        BOXES.with(|b| {
            b.borrow_mut().push(first);
            b.borrow().len() - 1
        })
    }
}

pub mod net {
    use super::*;
    use std::io::{Read, Write};
    use std::net::SocketAddr;

    #[derive(Debug, Default)]
    pub struct Conn {
        pub input: VecDeque<u8>,
        /// how many bytes each successive read may hand out at most (cycled; empty = no limit)
        pub chunks: Vec<usize>,
        pub chunk_pos: usize,
        pub output: Vec<u8>,
        /// output bytes at each write call
        pub writes: Vec<usize>,
        /// fail every read with an io error once the input is exhausted (instead of EOF)
        pub fail_at_end: bool,
        /// largest buffer ever offered by a read call
        pub write_fail: bool,
        /// how many bytes are taken before writes fail
        pub write_limit: Option<usize>,
        pub write_error: Option<io::ErrorKind>,
        /// only the first write at the limit fails
        pub write_once: bool,
        pub short_writes: usize,
    }

    #[derive(Debug, Clone)]
    pub struct TcpStream {
        pub id: usize,
        pub conn: Rc<RefCell<Conn>>,
    }
    impl TcpStream {
        pub fn script(input: &[u8], chunks: &[usize]) -> TcpStream {
            let conn = Rc::new(RefCell::new(Conn {
                input: input.iter().copied().collect(),
                chunks: chunks.to_vec(),
                ..Default::default()
            }));
            stub::CONNS.with(|c| {
                c.borrow_mut().push(conn.clone());
                TcpStream { id: c.borrow().len() - 1, conn }
            })
        }
        pub fn output(&self) -> Vec<u8> {
            self.conn.borrow().output.clone()
        }
        pub fn remaining(&self) -> Vec<u8> {
            self.conn.borrow().input.iter().copied().collect()
        }
        pub fn connect<A: ToSocketAddrs>(_: A) -> io::Result<Self> {
            Err(io::Error::new(io::ErrorKind::Other, "stub"))
        }
        pub fn set_read_timeout(&mut self, _: Option<std::time::Duration>) {}
        pub fn set_write_timeout(&mut self, _: Option<std::time::Duration>) {}
    }
    impl Read for TcpStream {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let mut c = self.conn.borrow_mut();
            if buf.is_empty() {
                return Ok(0);
            }
            if c.input.is_empty() {
                if c.fail_at_end {
                    return Err(io::Error::new(io::ErrorKind::Other, "stub read fault"));
                }
                return Ok(0);
            }
            let mut n = buf.len().min(c.input.len());
            if !c.chunks.is_empty() {
                let k = c.chunks[c.chunk_pos % c.chunks.len()].max(1);
                c.chunk_pos += 1;
                n = n.min(k);
            }
            for b in buf[..n].iter_mut() {
                *b = c.input.pop_front().unwrap();
            }
            Ok(n)
        }
    }
    impl Write for TcpStream {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            let mut c = self.conn.borrow_mut();
            if c.write_fail {
                return Err(io::Error::new(io::ErrorKind::BrokenPipe, "stub write fault"));
            }
            let mut n = if c.short_writes > 0 { buf.len().min(c.short_writes) } else { buf.len() };
            if let Some(l) = c.write_limit {
                if c.output.len() >= l && !buf.is_empty() {
                    if c.write_once {
                        c.write_limit = None;
                    }
                    return Err(io::Error::new(c.write_error.unwrap_or(io::ErrorKind::BrokenPipe), "stub write fault"));
                }
                n = n.min(l - c.output.len());
            }
            c.output.extend_from_slice(&buf[..n]);
            c.writes.push(n);
            Ok(n)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    impl serde::Serialize for TcpStream {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_u64(self.id as u64)
        }
    }
    impl<'de> serde::Deserialize<'de> for TcpStream {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let id = <u64 as serde::Deserialize>::deserialize(d)? as usize;
            stub::CONNS.with(|c| {
                c.borrow()
                    .get(id)
                    .cloned()
                    .map(|conn| TcpStream { id, conn })
                    .ok_or_else(|| serde::de::Error::custom("unknown stub stream"))
            })
        }
    }

    #[derive(Debug, Clone)]
    pub struct TcpListener {}
    impl TcpListener {
        pub fn bind<A: ToSocketAddrs>(_: A) -> io::Result<Self> {
            Ok(TcpListener {})
        }
        pub fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
            match stub::ACCEPTS.with(|a| a.borrow_mut().pop_front()) {
                Some(stub::Accept::Conn(s)) => Ok((s, "127.0.0.1:1".parse().unwrap())),
                Some(stub::Accept::Err) => Err(io::Error::new(io::ErrorKind::Other, "stub accept")),
                None => std::panic::resume_unwind(Box::new(stub::ScriptEnd)),
            }
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok("127.0.0.1:1".parse().unwrap())
        }
    }
    pub trait ToSocketAddrs {}
    impl ToSocketAddrs for &str {}
    impl ToSocketAddrs for String {}
    impl ToSocketAddrs for (&str, u16) {}
    impl ToSocketAddrs for SocketAddr {}
}

pub mod serializer {
    use super::*;
    #[derive(Debug, Clone, Copy, Default)]
    pub struct Bincode;
    #[derive(Debug, Clone, Copy, Default)]
    pub struct Json;
    pub trait Serializer<M> {}
    impl<M> Serializer<M> for Bincode {}
    impl<M> Serializer<M> for Json {}
    #[allow(unused)]
    type Unused = PhantomData<()>;
}
use serializer::Bincode;

pub struct Mailbox<M, S = Bincode> {
    pub id: usize,
    p: PhantomData<(M, S)>,
}
impl<M, S> Mailbox<M, S> {
    pub fn with_id(id: usize) -> Self {
        Mailbox { id, p: PhantomData }
    }
    pub fn this(&self) -> Process<M, S> {
        Process { id: self.id, p: PhantomData }
    }
    pub fn receive(&self) -> M {
        match stub::BOXES.with(|b| b.borrow_mut()[self.id].pop_front()) {
            Some(m) => m.take::<M>(),
            None => std::panic::resume_unwind(Box::new(stub::ScriptEnd)),
        }
    }
}
pub trait IntoProcess<M, S> {
    type Process;
    fn launch<C>(capture: C, entry: fn(C, Self)) -> Self::Process
    where
        Self: Sized;
}
impl<M, S> IntoProcess<M, S> for Mailbox<M, S> {
    type Process = Process<M, S>;
    fn launch<C>(capture: C, entry: fn(C, Self)) -> Process<M, S> {
        let id = stub::new_box();
        stub::SPAWNED.with(|s| *s.borrow_mut() += 1);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            entry(capture, Mailbox::with_id(id))
        }));
        if let Err(p) = r {
            if !p.is::<stub::ScriptEnd>() {
                stub::PANICS.with(|ps| ps.borrow_mut().push(stub::panic_text(&*p)));
            }
        }
        Process { id, p: PhantomData }
    }
}

pub struct Process<M, S = Bincode> {
    pub id: usize,
    p: PhantomData<(M, S)>,
}
impl<M, S> Process<M, S> {
    pub fn stub_new(id: usize) -> Self {
        Process { id, p: PhantomData }
    }
    #[allow(clippy::new_ret_no_self)]
    pub fn spawn<C, T>(capture: C, entry: fn(C, T)) -> T::Process
    where
        T: IntoProcess<M, S>,
    {
        T::launch(capture, entry)
    }
    pub fn spawn_link<C, T>(capture: C, entry: fn(C, T)) -> T::Process
    where
        T: IntoProcess<M, S>,
    {
        T::launch(capture, entry)
    }
}
impl<M, S> Process<M, S> {
    pub fn send(&self, m: M) {
        stub::LIMIT.with(|l| {
            let mut l = l.borrow_mut();
            assert!(*l > 0, "endless: too many messages sent");
            *l -= 1;
        });
        stub::BOXES.with(|b| {
            if let Some(q) = b.borrow_mut().get_mut(self.id) {
                q.push_back(stub::Letter::new(m));
            }
        })
    }
    pub fn uuid(&self) -> u128 {
        self.id as u128
    }
}
impl<M, S> Clone for Process<M, S> {
    fn clone(&self) -> Self {
        Process { id: self.id, p: PhantomData }
    }
}
impl<M, S> std::fmt::Debug for Process<M, S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Process({})", self.id)
    }
}
impl<M, S> PartialEq for Process<M, S> {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl<M, S> serde::Serialize for Process<M, S> {
    fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        s.serialize_u64(self.id as u64)
    }
}
impl<'de, M, S> serde::Deserialize<'de> for Process<M, S> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Process { id: <u64 as serde::Deserialize>::deserialize(d)? as usize, p: PhantomData })
    }
}

pub mod process {
    use super::*;
    pub trait AbstractProcess: Sized {
        type Arg: serde::Serialize + serde::de::DeserializeOwned;
        type State;
        fn init(this: ProcessRef<Self>, arg: Self::Arg) -> Self::State;
        fn terminate(_state: Self::State) {}
        fn handle_link_trapped(_state: &mut Self::State, _tag: u64) {}
    }
    pub trait ProcessMessage<M, S = Bincode>: AbstractProcess {
        fn handle(state: &mut Self::State, message: M);
    }
    pub trait ProcessRequest<M, S = Bincode>: AbstractProcess {
        type Response;
        fn handle(state: &mut Self::State, request: M) -> Self::Response;
    }
    pub struct ProcessRef<T> {
        pub id: usize,
        p: PhantomData<T>,
    }
    thread_local! {
        static STATES: RefCell<Vec<Rc<dyn std::any::Any>>> = RefCell::new(Vec::new());
    }
    impl<T> ProcessRef<T> {
        pub fn stub_new(id: usize) -> Self {
            ProcessRef { id, p: PhantomData }
        }
    }
    impl<T> ProcessRef<T>
    where
        T: AbstractProcess,
        T::State: 'static,
    {
        pub fn with_state<R>(&self, f: impl FnOnce(&mut T::State) -> R) -> R {
            let st = STATES.with(|s| s.borrow()[self.id].clone());
            let cell = st.downcast::<RefCell<T::State>>().ok().expect("stub state type");
            let mut g = cell.borrow_mut();
            f(&mut g)
        }
    }
    pub trait StartProcess<T>
    where
        T: AbstractProcess,
    {
        fn start(arg: T::Arg, name: Option<&str>) -> ProcessRef<T>;
        fn start_link(arg: T::Arg, name: Option<&str>) -> ProcessRef<T>;
    }
    impl<T> StartProcess<T> for T
    where
        T: AbstractProcess,
        T::State: 'static,
    {
        fn start(arg: T::Arg, _name: Option<&str>) -> ProcessRef<T> {
            let id = STATES.with(|s| s.borrow().len());
            let st = T::init(ProcessRef { id, p: PhantomData }, arg);
            STATES.with(|s| s.borrow_mut().push(Rc::new(RefCell::new(st))));
            ProcessRef { id, p: PhantomData }
        }
        fn start_link(arg: T::Arg, name: Option<&str>) -> ProcessRef<T> {
            T::start(arg, name)
        }
    }
    pub trait Request<M, S> {
        type Result;
        fn request(&self, request: M) -> Self::Result;
    }
    impl<M, S, T> Request<M, S> for ProcessRef<T>
    where
        T: AbstractProcess + ProcessRequest<M, S>,
        T::State: 'static,
    {
        type Result = <T as ProcessRequest<M, S>>::Response;
        fn request(&self, request: M) -> Self::Result {
            self.with_state(|s| <T as ProcessRequest<M, S>>::handle(s, request))
        }
    }
    pub trait Message<M, S> {
        fn send(&self, message: M);
    }
    impl<M, S, T> Message<M, S> for ProcessRef<T>
    where
        T: AbstractProcess + ProcessMessage<M, S>,
        T::State: 'static,
    {
        fn send(&self, message: M) {
            self.with_state(|s| <T as ProcessMessage<M, S>>::handle(s, message))
        }
    }
    impl<T> Clone for ProcessRef<T> {
        fn clone(&self) -> Self {
            ProcessRef { id: self.id, p: PhantomData }
        }
    }
    impl<T> std::fmt::Debug for ProcessRef<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "ProcessRef({})", self.id)
        }
    }
    impl<T> serde::Serialize for ProcessRef<T> {
        fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
            s.serialize_u64(self.id as u64)
        }
    }
    impl<'de, T> serde::Deserialize<'de> for ProcessRef<T> {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            Ok(ProcessRef { id: <u64 as serde::Deserialize>::deserialize(d)? as usize, p: PhantomData })
        }
    }
}
