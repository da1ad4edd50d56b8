//! Case runner: counts what was tried, catches panics, watches allocations, records violations.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub struct Watch;
pub static MAX_ALLOC: AtomicUsize = AtomicUsize::new(0);
static CUR: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
/// a single request above this ends the run with exit code 77 (the driver reports it)
pub const OVERSIZE: usize = 1 << 30;
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}
fn note(n: usize) {
    if n > MAX_ALLOC.load(Ordering::Relaxed) {
        MAX_ALLOC.store(n, Ordering::Relaxed);
    }
    if n > OVERSIZE {
        // report the running case without allocating, then stop
        let p = CUR[0].load(Ordering::Relaxed) as *const u8;
        let len = CUR[1].load(Ordering::Relaxed);
        unsafe {
            extern "C" {
                fn write(fd: i32, b: *const u8, n: usize) -> isize;
                fn _exit(c: i32) -> !;
            }
            let head = b"\nOVERSIZE-ALLOCATION ";
            write(1, head.as_ptr(), head.len());
            write(1, p, len);
            write(1, b"\n".as_ptr(), 1);
            _exit(77)
        }
    }
}

/// Literals which the source under test gained since the contracts were written: the generators
/// prefer values made of them (lengths, counts, bytes, pieces of texts).  Empty on an unchanged tree.
#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        let Ok(p) = std::env::var("VERIF_DICT") else { return d };
        for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
            if let Some(n) = l.strip_prefix("i ").and_then(|n| n.parse().ok()) {
                d.ints.push(n)
            } else if let Some(h) = l.strip_prefix("s ") {
                let b: Option<Vec<u8>> = (0..h.len() / 2).map(|i| u8::from_str_radix(h.get(2 * i..2 * i + 2)?, 16).ok()).collect();
                if let Some(s) = b.and_then(|b| String::from_utf8(b).ok()) {
                    d.strs.push(s)
                }
            }
        }
        d
    })
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    /// A number of the dictionary, or next to one, between `a` and `b`.
    fn dict_int(&mut self, num: usize, den: usize, a: usize, b: usize) -> Option<usize> {
        let d = &dict().ints;
        if d.is_empty() || self.next() as usize % den >= num {
            return None;
        }
        let k = d[self.next() as usize % d.len()];
        let n = match self.next() % 6 {
            0 => k.checked_sub(1)?,
            1 => k.checked_add(1)?,
            _ => k,
        };
        if n > usize::MAX as u64 {
            return None;
        }
        let n = n as usize;
        (a <= n && n <= b).then_some(n)
    }
    pub fn dict_len(&mut self) -> Option<usize> {
        match self.dict_int(1, 3, 0, 4 << 20) {
            Some(n) if n > 150_000 && self.next() % 24 > 0 => None,
            n => n,
        }
    }
    pub fn dict_num(&mut self, num: usize, den: usize) -> Option<usize> {
        self.dict_int(num, den, 0, usize::MAX)
    }
    /// An amount of data, usually between `a` and `b`.
    pub fn size(&mut self, a: usize, b: usize) -> usize {
        match self.dict_len() {
            Some(n) => n,
            None => self.range(a, b),
        }
    }
    /// A number of things, usually between `a` and `b`.
    pub fn count(&mut self, a: usize, b: usize) -> usize {
        match self.dict_int(1, 4, a, 1200) {
            Some(n) if n <= 400 || self.next() % 8 == 0 => n,
            Some(_) => self.range(a, b),
            None => self.range(a, b),
        }
    }
    pub fn dict_str(&mut self, num: usize, den: usize, ok: impl Fn(char) -> bool) -> Option<&'static str> {
        let d = &dict().strs;
        if d.is_empty() || self.next() as usize % den >= num {
            return None;
        }
        let s = &d[self.next() as usize % d.len()];
        s.chars().all(ok).then_some(s)
    }
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if let Some(k) = self.dict_int(1, 12, 0, n.max(1) - 1) {
            return k;
        }
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        if let Some(k) = self.dict_int(1, 8, a, b) {
            return k;
        }
        a + self.below(b - a + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        ((self.next() % den.max(1) as u64) as usize) < num
    }
    pub fn byte(&mut self) -> u8 {
        if let Some(k) = self.dict_int(1, 6, 0, 255) {
            return k as u8;
        }
        self.next() as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v: Vec<u8> = if self.dict_int(1, 8, 0, usize::MAX).is_some() {
            vec![self.byte(); n]
        } else {
            (0..n).map(|_| self.byte()).collect()
        };
        if let Some(s) = self.dict_str(1, 4, |_| true) {
            let s = s.as_bytes();
            if s.len() <= n {
                let at = [0, n - s.len(), self.below(n - s.len() + 1)][self.next() as usize % 3];
                v[at..at + s.len()].copy_from_slice(s);
            }
        }
        v
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[(self.next() % xs.len().max(1) as u64) as usize]
    }
    pub fn text(&mut self, alphabet: &str, lo: usize, hi: usize) -> String {
        let cs: Vec<char> = alphabet.chars().collect();
        let n = if hi >= 3 { self.dict_int(1, 8, lo, 3000) } else { None };
        let n = n.unwrap_or_else(|| self.range(lo, hi));
        let mut t: String = (0..n).map(|_| *self.pick(&cs)).collect();
        if !dict().strs.is_empty() {
            // only characters of the kinds this text may hold
            let (al, up, di) = (cs.iter().any(|c| c.is_ascii_lowercase()), cs.iter().any(|c| c.is_ascii_uppercase()), cs.iter().any(|c| c.is_ascii_digit()));
            let un = cs.iter().any(|c| !c.is_ascii());
            let ok = |c: char| (!c.is_ascii() && un) || (c.is_ascii_lowercase() && al) || (c.is_ascii_uppercase() && up) || (c.is_ascii_digit() && di) || cs.contains(&c);
            if let Some(s) = self.dict_str(1, 2, ok) {
                match self.next() % 5 {
                    0 | 1 => t = s.to_string(),
                    2 => t.push_str(s),
                    3 => t.insert_str(0, s),
                    _ => {
                        let at: Vec<usize> = t.char_indices().map(|x| x.0).collect();
                        let k = if at.is_empty() { 0 } else { at[self.below(at.len())] };
                        t.insert_str(k, s)
                    }
                }
                if t.chars().count() < lo || (t.is_empty() && lo > 0) {
                    t = s.to_string() + &t;
                }
            }
        }
        t
    }
    pub fn chunks(&mut self) -> Vec<usize> {
        match self.below(5) {
            0 => vec![],
            1 => vec![1],
            2 => vec![self.range(1, 4)],
            _ => (0..self.range(1, 6)).map(|_| self.range(1, 40)).collect(),
        }
    }
}

pub struct Violation {
    pub family: String,
    pub index: u64,
    pub input: String,
    pub detail: String,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub scale: u64,
    pub only: Option<(String, u64)>,
    pub deadline: Instant,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub families: Vec<(String, u64)>,
    pub violations: Vec<Violation>,
    pub cur: String,
    /// cap on one allocation inside a case
    pub alloc_cap: Option<usize>,
    pub last_panic: std::sync::Arc<std::sync::Mutex<String>>,
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    if b.len() <= 160 {
        for &c in b {
            for e in std::ascii::escape_default(c) {
                s.push(e as char);
            }
        }
    } else {
        for &c in &b[..120] {
            for e in std::ascii::escape_default(c) {
                s.push(e as char);
            }
        }
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    format!("b\"{}\"", s)
}

/// Hex of the whole byte string (for replay records).
pub fn hex(b: &[u8]) -> String {
    if b.len() > 4096 {
        let mut h: u64 = 0xcbf29ce484222325;
        for &x in b {
            h = (h ^ x as u64).wrapping_mul(0x100000001b3);
        }
        return format!("{}...({} bytes, fnv {:x})", hex(&b[..64]), b.len(), h);
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, scale: u64, secs: u64, only: Option<(String, u64)>) -> Ctx {
        let last_panic = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
        let lp = last_panic.clone();
        std::panic::set_hook(Box::new(move |i| {
            *lp.lock().unwrap() = i.to_string().replace('\n', " ");
        }));
        Ctx {
            prop: prop.into(),
            seed,
            scale,
            only,
            deadline: Instant::now() + Duration::from_secs(secs),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            families: vec![],
            violations: vec![],
            cur: String::new(),
            alloc_cap: None,
            last_panic,
        }
    }
    /// Run `n * scale` cases of a family; each case gets its own generator state.
    pub fn family(
        &mut self,
        name: &str,
        n: u64,
        mut f: impl FnMut(&mut Case, &mut Rng, u64) -> Result<(), String>,
    ) {
        self.run(name, n * self.scale, &mut f)
    }
    /// Exactly `n` cases: an enumerated family, not scaled.
    pub fn enumerate(
        &mut self,
        name: &str,
        n: u64,
        mut f: impl FnMut(&mut Case, &mut Rng, u64) -> Result<(), String>,
    ) {
        self.run(name, n, &mut f)
    }
    fn run(
        &mut self,
        name: &str,
        n: u64,
        f: &mut dyn FnMut(&mut Case, &mut Rng, u64) -> Result<(), String>,
    ) {
        let mut done = 0;
        let mut fh = std::collections::hash_map::DefaultHasher::new();
        name.hash(&mut fh);
        let fh = fh.finish();
        for i in 0..n {
            if let Some((fam, idx)) = &self.only {
                if fam != name || *idx != i {
                    continue;
                }
            }
            // a listed finding of one family must not keep the others from running
            if self.violations.iter().filter(|v| v.family == name).count() >= 2 || self.violations.len() >= 24 || Instant::now() > self.deadline {
                break;
            }
            let mut rng = Rng::new(self.seed.wrapping_mul(1_000_003) ^ fh ^ i.wrapping_mul(0x2545F491));
            let mut case = Case { prop: self.prop.clone(), family: name.to_string(), index: i, input: String::new(), key: 0 };
            lunatic::stub::reset();
            MAX_ALLOC.store(0, Ordering::Relaxed);
            let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(&mut case, &mut rng, i)));
            CUR[1].store(0, Ordering::Relaxed);
            self.evaluations += 1;
            done += 1;
            if self.distinct.insert(case.key ^ fh) && self.samples.len() < 12 && done <= 2 {
                self.samples.push(format!("{}#{}: {}", name, i, clip(&case.input, 300)));
            }
            let detail = match r {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some(e),
                Err(p) => Some(format!(
                    "panic: {} ({})",
                    lunatic::stub::panic_text(&*p),
                    self.last_panic.lock().unwrap()
                )),
            };
            if let Some(d) = detail {
                self.violations.push(Violation {
                    family: name.into(),
                    index: i,
                    input: case.input.clone(),
                    detail: d,
                });
            }
        }
        self.families.push((name.to_string(), done));
    }
}

pub struct Case {
    pub prop: String,
    pub family: String,
    pub index: u64,
    pub input: String,
    pub key: u64,
}
impl Case {
    /// Name the concrete input before the code under test runs on it.
    pub fn input(&mut self, s: String) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        self.key = h.finish();
        self.input = s;
        CUR[0].store(self.input.as_ptr() as usize, Ordering::Relaxed);
        CUR[1].store(self.input.len(), Ordering::Relaxed);
    }
}
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}
pub fn ensure(c: bool, m: impl FnOnce() -> String) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl Ctx {
    pub fn json(&self) -> String {
        let v: Vec<String> = self
            .violations
            .iter()
            .map(|v| {
                format!(
                    "{{\"family\":{},\"index\":{},\"seed\":{},\"input\":{},\"detail\":{}}}",
                    json_str(&v.family),
                    v.index,
                    self.seed,
                    json_str(&v.input),
                    json_str(&v.detail)
                )
            })
            .collect();
        let s: Vec<String> = self.samples.iter().map(|s| json_str(s)).collect();
        let f: Vec<String> = self.families.iter().map(|(n, c)| format!("{}:{}", json_str(n), c)).collect();
        format!(
            "{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct\":{},\"families\":{{{}}},\"samples\":[{}],\"violations\":[{}]}}",
            json_str(&self.prop),
            self.seed,
            self.evaluations,
            self.distinct.len(),
            f.join(","),
            s.join(","),
            v.join(",")
        )
    }
}
