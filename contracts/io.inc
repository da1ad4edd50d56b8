//@map Vec::with_capacity($$x) => vec_cap($$x)
//@map String::with_capacity($$x) => string_cap($$x)
//@map .reserve($$x) => .reserve_vec($$x)
// ---------------------------------------------------------------- trusted: streams, std::io
// A connection is a duplex stream.  `rem` is what the peer still delivers, `out` what has been
// written; `rfaulty`/`wfaulty` say that a read/write may fail.  Exclusive access stands for the
// shared handle of lunatic's TcpStream (extraction rule "stream-param").
#[derive(Debug)]
pub struct IoError { pub k: u8 }


pub trait Duplex: Sized {
    spec fn rem(&self) -> Seq<u8>;
    spec fn out(&self) -> Seq<u8>;
    spec fn rfaulty(&self) -> bool;
    spec fn wfaulty(&self) -> bool;
    // consistency of the stream's own state (streams of puck itself: Body)
    spec fn ok(&self) -> bool;
}
// read side: `n` bytes consumed, nothing written
pub open spec fn ate<T: Duplex>(a: T, b: T, n: int) -> bool {
    &&& 0 <= n <= a.rem().len()
    &&& b.rem() == a.rem().skip(n)
    &&& b.out() == a.out()
    &&& b.rfaulty() == a.rfaulty()
    &&& b.wfaulty() == a.wfaulty()
    &&& b.ok() == a.ok()
}
// nothing written, at most consumed
pub open spec fn quiet<T: Duplex>(a: T, b: T) -> bool {
    &&& b.out() == a.out()
    &&& b.rem().len() <= a.rem().len()
    &&& b.rfaulty() == a.rfaulty()
    &&& b.wfaulty() == a.wfaulty()
    &&& b.ok() == a.ok()
}
// write side: exactly `s` appended, nothing consumed
pub open spec fn wrote<T: Duplex>(a: T, b: T, s: Seq<u8>) -> bool {
    &&& b.out() == a.out() + s
    &&& b.rem() == a.rem()
    &&& b.rfaulty() == a.rfaulty()
    &&& b.wfaulty() == a.wfaulty()
    &&& b.ok() == a.ok()
}
// write refused somewhere
pub open spec fn refused<T: Duplex>(a: T, b: T) -> bool {
    &&& a.wfaulty()
    &&& b.rem() == a.rem()
    &&& b.rfaulty() == a.rfaulty()
    &&& b.wfaulty() == a.wfaulty()
    &&& b.ok() == a.ok()
}
pub open spec fn minint(a: int, b: int) -> int { if a < b { a } else { b } }

pub open spec fn be_val(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { be_val(s.drop_last()) * 256 + s.last() as nat }
}
pub open spec fn le_val(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { le_val(s.drop_first()) * 256 + s.first() as nat }
}
pub open spec fn be_bytes(x: nat, n: nat) -> Seq<u8> decreases n {
    if n == 0 { Seq::empty() } else { be_bytes(x / 256, (n - 1) as nat).push((x % 256) as u8) }
}
pub open spec fn le_bytes(x: nat, n: nat) -> Seq<u8> decreases n {
    if n == 0 { Seq::empty() } else { seq![(x % 256) as u8] + le_bytes(x / 256, (n - 1) as nat) }
}
pub trait ByteOrder { spec fn val(s: Seq<u8>) -> nat; spec fn bytes(x: nat, n: nat) -> Seq<u8>; }
pub struct NetworkEndian;
pub type BigEndian = NetworkEndian;
pub struct LittleEndian;
impl ByteOrder for NetworkEndian {
    open spec fn val(s: Seq<u8>) -> nat { be_val(s) }
    open spec fn bytes(x: nat, n: nat) -> Seq<u8> { be_bytes(x, n) }
}
impl ByteOrder for LittleEndian {
    open spec fn val(s: Seq<u8>) -> nat { le_val(s) }
    open spec fn bytes(x: nat, n: nat) -> Seq<u8> { le_bytes(x, n) }
}

//@map std::io::Error::new($$x) => io_error()
//@map io::Error::new($$x) => io_error()
//@map std::io::Error::from($$x) => io_error()
//@map io::Error::from($$x) => io_error()
//@map std::io::ErrorKind::$k.into() => io_error()
//@map io::ErrorKind::$k.into() => io_error()
#[verifier::external_body]
pub fn io_error() -> (r: IoError) { unimplemented!() }
pub trait Read: Duplex {
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
        requires (*old(self)).ok(),
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Err ==> (*old(self)).rfaulty() && quiet(*old(self), *final(self)),
            r is Ok ==> {
                &&& r->Ok_0 <= old(buf)@.len()
                &&& r->Ok_0 <= alloc_limit()
                &&& ate(*old(self), *final(self), r->Ok_0 as int)
                &&& final(buf)@ == (*old(self)).rem().take(r->Ok_0 as int) + old(buf)@.skip(r->Ok_0 as int)
                &&& (r->Ok_0 == 0 ==> old(buf)@.len() == 0 || (*old(self)).rem().len() == 0)
            };
}
pub struct Take<'a, R> { pub inner: &'a mut R, pub lim: u64 }
pub trait ReadExt: Read {
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), IoError>)
        requires (*old(self)).ok(),
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> ate(*old(self), *final(self), old(buf)@.len() as int)
                && final(buf)@ == (*old(self)).rem().take(old(buf)@.len() as int),
            r is Err ==> ((*old(self)).rfaulty() || (*old(self)).rem().len() < old(buf)@.len())
                && quiet(*old(self), *final(self));
    fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        requires (*old(self)).ok(),
        ensures
            r is Err ==> (*old(self)).rfaulty() && quiet(*old(self), *final(self)),
            r is Ok ==> ate(*old(self), *final(self), (*old(self)).rem().len() as int)
                && r->Ok_0 == (*old(self)).rem().len()
                && r->Ok_0 <= alloc_limit()
                && final(v)@ == old(v)@ + (*old(self)).rem();
    fn read_to_string(&mut self, v: &mut String) -> (r: Result<usize, IoError>)
        requires (*old(self)).ok(),
        ensures
            r is Err ==> ((*old(self)).rfaulty() || !valid_utf8((*old(self)).rem())) && quiet(*old(self), *final(self)),
            r is Ok ==> ate(*old(self), *final(self), (*old(self)).rem().len() as int)
                && r->Ok_0 == (*old(self)).rem().len()
                && valid_utf8((*old(self)).rem())
                && encode_utf8(final(v)@) == encode_utf8(old(v)@) + (*old(self)).rem();
    fn take<'a>(&'a mut self, n: u64) -> (r: Take<'a, Self>)
        ensures r.inner == self, r.lim == n;
    fn by_ref<'a>(&'a mut self) -> (r: &'a mut Self)
        ensures r == self;
    fn read_uint<E: ByteOrder>(&mut self, n: usize) -> (r: Result<u64, IoError>)
        requires 1 <= n <= 8, (*old(self)).ok(),
        ensures
            r is Ok ==> ate(*old(self), *final(self), n as int) && r->Ok_0 == E::val((*old(self)).rem().take(n as int)),
            r is Err ==> ((*old(self)).rfaulty() || (*old(self)).rem().len() < n) && quiet(*old(self), *final(self));
    fn read_u8(&mut self) -> (r: Result<u8, IoError>)
        requires (*old(self)).ok(),
        ensures
            r is Ok ==> ate(*old(self), *final(self), 1) && r->Ok_0 == (*old(self)).rem()[0],
            r is Err ==> ((*old(self)).rfaulty() || (*old(self)).rem().len() < 1) && quiet(*old(self), *final(self));
    fn read_u16<E: ByteOrder>(&mut self) -> (r: Result<u16, IoError>)
        requires (*old(self)).ok(),
        ensures
            r is Ok ==> ate(*old(self), *final(self), 2) && r->Ok_0 == E::val((*old(self)).rem().take(2)),
            r is Err ==> ((*old(self)).rfaulty() || (*old(self)).rem().len() < 2) && quiet(*old(self), *final(self));
    fn read_u64<E: ByteOrder>(&mut self) -> (r: Result<u64, IoError>)
        requires (*old(self)).ok(),
        ensures
            r is Ok ==> ate(*old(self), *final(self), 8) && r->Ok_0 == E::val((*old(self)).rem().take(8)),
            r is Err ==> ((*old(self)).rfaulty() || (*old(self)).rem().len() < 8) && quiet(*old(self), *final(self));
}
impl<R: Read> ReadExt for R {
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: Result<usize, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_to_string(&mut self, v: &mut String) -> (r: Result<usize, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn take<'a>(&'a mut self, n: u64) -> (r: Take<'a, Self>) { Take { inner: self, lim: n } }
    #[verifier::external_body]
    fn by_ref<'a>(&'a mut self) -> (r: &'a mut Self) { self }
    #[verifier::external_body]
    fn read_uint<E: ByteOrder>(&mut self, n: usize) -> (r: Result<u64, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: Result<u8, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_u16<E: ByteOrder>(&mut self) -> (r: Result<u16, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_u64<E: ByteOrder>(&mut self) -> (r: Result<u64, IoError>) { unimplemented!() }
}
impl<'a, R: Read> Take<'a, R> {
    #[verifier::external_body]
    pub fn read_to_end(self, v: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        requires (*old(self.inner)).ok(),
        ensures
            r is Err ==> (*old(self.inner)).rfaulty() && quiet(*old(self.inner), *final(self.inner)),
            r is Ok ==> {
                let k = minint(self.lim as int, (*old(self.inner)).rem().len() as int);
                &&& r->Ok_0 == k
                &&& k <= alloc_limit()
                &&& final(v)@ == old(v)@ + (*old(self.inner)).rem().take(k)
                &&& ate(*old(self.inner), *final(self.inner), k)
            }
    { unimplemented!() }
}

pub trait Write: Duplex {
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>)
        ensures
            r is Ok ==> r->Ok_0 <= buf@.len() && (buf@.len() > 0 ==> r->Ok_0 > 0)
                && wrote(*old(self), *final(self), buf@.take(r->Ok_0 as int)),
            r is Err ==> refused(*old(self), *final(self));
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), IoError>)
        ensures
            r is Ok ==> wrote(*old(self), *final(self), buf@),
            r is Err ==> refused(*old(self), *final(self));
    fn flush(&mut self) -> (r: Result<(), IoError>)
        ensures
            r is Ok ==> wrote(*old(self), *final(self), Seq::empty()),
            r is Err ==> refused(*old(self), *final(self));
}
pub trait WriteExt: Write {
    fn write_u8(&mut self, n: u8) -> (r: Result<(), IoError>)
        ensures r is Ok ==> wrote(*old(self), *final(self), seq![n]), r is Err ==> refused(*old(self), *final(self));
    fn write_u16<E: ByteOrder>(&mut self, n: u16) -> (r: Result<(), IoError>)
        ensures r is Ok ==> wrote(*old(self), *final(self), E::bytes(n as nat, 2)), r is Err ==> refused(*old(self), *final(self));
    fn write_u32<E: ByteOrder>(&mut self, n: u32) -> (r: Result<(), IoError>)
        ensures r is Ok ==> wrote(*old(self), *final(self), E::bytes(n as nat, 4)), r is Err ==> refused(*old(self), *final(self));
    fn write_u64<E: ByteOrder>(&mut self, n: u64) -> (r: Result<(), IoError>)
        ensures r is Ok ==> wrote(*old(self), *final(self), E::bytes(n as nat, 8)), r is Err ==> refused(*old(self), *final(self));
}
impl<W: Write> WriteExt for W {
    #[verifier::external_body]
    fn write_u8(&mut self, n: u8) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_u16<E: ByteOrder>(&mut self, n: u16) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_u32<E: ByteOrder>(&mut self, n: u32) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_u64<E: ByteOrder>(&mut self, n: u64) -> (r: Result<(), IoError>) { unimplemented!() }
}

// `vec![x; n]`: reserves memory for n elements at once
#[verifier::external_body]
pub fn vec_elem<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    requires n <= alloc_limit(), //#C02 memory in proportion to what was received
    ensures r@ == Seq::new(n as nat, |i: int| x)
{ vec![x; n] }

// memory reserved at once
#[verifier::external_body]
pub fn vec_cap<T>(n: usize) -> (r: Vec<T>)
    requires n <= alloc_limit(), //#C02 memory in proportion to what was received
    ensures r@ == Seq::<T>::empty()
{ Vec::with_capacity(n) }
#[verifier::external_body]
pub fn string_cap(n: usize) -> (r: String)
    requires n <= alloc_limit(), //#C02 memory in proportion to what was received
    ensures r@ == Seq::<char>::empty()
{ String::with_capacity(n) }

pub trait VecExt<T>: Sized {
    spec fn vseq(&self) -> Seq<T>;
    fn reserve_vec(&mut self, n: usize)
        requires n <= alloc_limit(), //#C02 memory in proportion to what was received
        ensures final(self).vseq() == old(self).vseq();
    fn extend_vec(&mut self, v: Vec<T>) ensures final(self).vseq() == old(self).vseq() + v@;
}
impl<T> VecExt<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn reserve_vec(&mut self, n: usize) { self.reserve(n) }
    fn extend_vec(&mut self, v: Vec<T>) { let mut v = v; self.append(&mut v); }
}

//@map .extend_from_slice($$x) => .extend_bytes($$x)
pub trait BytesExt { spec fn bseq(&self) -> Seq<u8>; fn extend_bytes(&mut self, s: &[u8]) ensures final(self).bseq() == old(self).bseq() + s@; }
impl BytesExt for Vec<u8> {
    open spec fn bseq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn extend_bytes(&mut self, s: &[u8]) { self.extend_from_slice(s) }
}
// the connection type
#[verifier::external_body]
pub struct TcpStream { x: u8 }
impl Duplex for TcpStream {
    uninterp spec fn rem(&self) -> Seq<u8>;
    uninterp spec fn out(&self) -> Seq<u8>;
    uninterp spec fn rfaulty(&self) -> bool;
    uninterp spec fn wfaulty(&self) -> bool;
    open spec fn ok(&self) -> bool { true }
}
impl Read for TcpStream {
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
}
impl Write for TcpStream {
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), IoError>) { unimplemented!() }
}
