//! Runtime of the conformance harness: tokens that log what happens to them, a builder and an
//! observer for every container, and scripted mapping functions.
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::*;
use std::marker::PhantomData;
use std::mem::ManuallyDrop;
use std::ops::*;
use std::task::Poll;

pub use funcmap;
mod lits;

// ---------------------------------------------------------------- event log
pub const CALL: i32 = 1;
pub const DROP: i32 = 2;
pub const FDROP: i32 = 3;
pub const RET: i32 = 4;
pub const END: i32 = 5;

thread_local! {
    static LOG: RefCell<Vec<(i32, i32)>> = RefCell::new(Vec::new());
}
pub fn log(kind: i32, id: i32) {
    let _ = LOG.try_with(|l| l.borrow_mut().push((kind, id)));
}
pub fn take_log() -> Vec<(i32, i32)> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

// ---------------------------------------------------------------- tokens
/// What an element knows: `id` identifies it (0: scaffolding, not logged), `key` is what Eq, Ord and
/// Hash see, `g` counts how often it was mapped.
pub type Dat = (i32, i32, i32);
/// How an element is laid out in memory. `G` is the generation on the level of types.
pub trait Lay: Sized + 'static {
    fn put(g: u8, d: Dat) -> Self;
    fn get(&self) -> Dat;
    fn take(&mut self, _g: u8) -> Dat {
        self.get()
    }
}
pub struct Plain(Dat);
#[repr(C)]
pub struct Long(Dat, [u8; 12]);
#[repr(C, align(8))]
pub struct Wide(Dat, [u8; 12]);
#[repr(align(64))]
pub struct Fat([u8; 100], Dat);
impl Lay for Plain {
    fn put(_: u8, d: Dat) -> Self { Plain(d) }
    fn get(&self) -> Dat { self.0 }
}
impl Lay for Long {
    fn put(_: u8, d: Dat) -> Self { Long(d, [0x55; 12]) }
    fn get(&self) -> Dat { self.0 }
}
impl Lay for Wide {
    fn put(_: u8, d: Dat) -> Self { Wide(d, [0x33; 12]) }
    fn get(&self) -> Dat { self.0 }
}
impl Lay for Fat {
    fn put(_: u8, d: Dat) -> Self { Fat([0xaa; 100], d) }
    fn get(&self) -> Dat { self.1 }
}
/// Elements without size: who they are is kept aside, in the order in which they were made. Whichever
/// of them is looked at or dropped, it is taken to be the oldest one: only their number matters.
pub struct Nil;
thread_local! {
    static NILS: RefCell<[VecDeque<Dat>; 3]> = RefCell::new(Default::default());
}
impl Lay for Nil {
    fn put(g: u8, d: Dat) -> Self {
        NILS.with(|n| n.borrow_mut()[g as usize].push_back(d));
        Nil
    }
    fn get(&self) -> Dat { unreachable!() }
    fn take(&mut self, g: u8) -> Dat {
        // -1: more of them are dropped than were made
        NILS.with(|n| n.borrow_mut()[g as usize].pop_front()).unwrap_or((-1, 0, 0))
    }
}
pub fn forget_nils() {
    NILS.with(|n| *n.borrow_mut() = Default::default());
}

pub struct Tok<const G: u8, L: Lay = Plain>(L);
impl<const G: u8, L: Lay> Drop for Tok<G, L> {
    fn drop(&mut self) {
        let (id, ..) = self.0.take(G);
        if id != 0 {
            log(DROP, id);
            if BOMB.with(|b| b.get()) == id && !std::thread::panicking() {
                BOMB.with(|b| b.set(0));
                std::panic::panic_any(Payload(id))
            }
        }
    }
}
thread_local! {
    /// the element whose destructor panics
    static BOMB: std::cell::Cell<i32> = const { std::cell::Cell::new(0) };
}
impl<const G: u8, L: Lay> Tok<G, L> {
    pub fn new(id: i32, key: i32, g: i32) -> Self {
        Tok(L::put(G, (id, key, g)))
    }
    pub fn parts(self) -> Dat {
        ManuallyDrop::new(self).0.take(G)
    }
    fn key(&self) -> i32 {
        self.0.get().1
    }
}
impl<const G: u8, L: Lay> PartialEq for Tok<G, L> {
    fn eq(&self, o: &Self) -> bool {
        self.key() == o.key()
    }
}
impl<const G: u8, L: Lay> Eq for Tok<G, L> {}
impl<const G: u8, L: Lay> PartialOrd for Tok<G, L> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<const G: u8, L: Lay> Ord for Tok<G, L> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.key().cmp(&o.key())
    }
}
impl<const G: u8, L: Lay> std::hash::Hash for Tok<G, L> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.key().hash(h)
    }
}

// ---------------------------------------------------------------- scripts
#[derive(Clone, Default)]
pub struct Step {
    pub a: i32,
    pub b: i32,
    pub m: i32,
    /// (token, 0 = error / 1 = panic / 2 = its destructor panics)
    pub fails: Vec<(i32, i32)>,
}
pub struct Guard;
impl Drop for Guard {
    fn drop(&mut self) {
        log(FDROP, 0);
    }
}
pub struct Payload(pub i32);
/// The error type: carries the token whose call failed.
pub struct Oops(pub Tok<255>);

fn answer<const A: u8, const B: u8, L: Lay, M: Lay>(st: &Step, t: Tok<A, L>) -> Result<Tok<B, M>, Oops> {
    let (id, key, g) = t.parts();
    log(CALL, id);
    match st.fails.iter().find(|f| f.0 == id && f.1 != 2) {
        Some((_, 1)) => {
            let _t = Tok::<A>::new(id, key, g);
            std::panic::panic_any(Payload(id))
        }
        Some(_) => Err(Oops(Tok::new(id, key, g))),
        None => Ok(Tok::new(id, (st.a * key + st.b) % st.m, g + 1)),
    }
}
pub fn mk<const A: u8, const B: u8, L: Lay, M: Lay>(st: &Step) -> impl FnMut(Tok<A, L>) -> Tok<B, M> {
    let st = st.clone();
    let guard = Guard;
    move |t| {
        let _ = &guard;
        match answer(&st, t) {
            Ok(t) => t,
            Err(_) => unreachable!(),
        }
    }
}
pub fn mkt<const A: u8, const B: u8, L: Lay, M: Lay>(st: &Step) -> impl FnMut(Tok<A, L>) -> Result<Tok<B, M>, Oops> {
    let st = st.clone();
    BOMB.with(|b| b.set(st.fails.iter().find(|f| f.1 == 2).map_or(0, |f| f.0)));
    let guard = Guard;
    move |t| {
        let _ = &guard;
        answer(&st, t)
    }
}

// ---------------------------------------------------------------- building values
pub struct Rd<'a> {
    pub d: &'a [i32],
    pub p: usize,
    pub seed: u32,
    pub dummy: bool,
}
pub struct Hd {
    pub v: i32,
    pub t: i32,
    pub y: i32,
    pub n: usize,
}
impl<'a> Rd<'a> {
    pub fn hd(&mut self) -> Hd {
        let s = &self.d[self.p..self.p + 4];
        self.p += 4;
        Hd { v: s[0], t: s[1], y: s[2], n: s[3] as usize }
    }
    /// a layout decision in 0..n, the same for the same case and position
    pub fn hint(&self, n: u32) -> u32 {
        let mut x = self.seed.wrapping_mul(2654435761).wrapping_add(self.p as u32 * 40503 + 17);
        x ^= x >> 15;
        x = x.wrapping_mul(2246822519);
        x ^= x >> 13;
        x % n
    }
    pub fn many<T: Bld>(&mut self, n: usize) -> Vec<T> {
        (0..n).map(|_| T::bld(self)).collect()
    }
    /// up to two scaffolding elements that look like the next one
    pub fn dummies<T: Bld>(&mut self, n: usize, k: u32) -> Vec<T> {
        if n == 0 || std::mem::size_of::<T>() == 0 {
            return Vec::new();
        }
        let (p, d) = (self.p, self.dummy);
        self.dummy = true;
        let v = (0..k)
            .map(|_| {
                self.p = p;
                T::bld(self)
            })
            .collect();
        self.p = p;
        self.dummy = d;
        v
    }
}

pub trait Bld: Sized {
    fn bld(r: &mut Rd) -> Self;
}
pub trait Obs: Sized {
    fn obs(self, o: &mut Out);
}
#[derive(Default)]
pub struct Out(pub String);
impl Out {
    pub fn node(&mut self, c: &str, v: i32, t: i32, g: i32, y: i32) {
        use std::fmt::Write;
        write!(self.0, "{{\"c\":\"{c}\",\"v\":{v},\"t\":{t},\"g\":{g},\"y\":{y},\"k\":[").unwrap();
    }
    pub fn open(&mut self, c: &str, v: i32) {
        self.node(c, v, 0, 0, 0)
    }
    pub fn kid<T: Obs>(&mut self, x: T) {
        if self.0.ends_with('}') {
            self.0.push(',');
        }
        x.obs(self)
    }
    pub fn close(&mut self) {
        self.0.push_str("]}")
    }
    fn list<T: Obs>(&mut self, c: &str, v: i32, it: impl Iterator<Item = T>) {
        self.open(c, v);
        it.for_each(|x| self.kid(x));
        self.close();
    }
    fn lit(&mut self, y: i32) {
        self.node("lit", 0, 0, 0, y);
        self.close();
    }
}

impl<const G: u8, L: Lay> Bld for Tok<G, L> {
    fn bld(r: &mut Rd) -> Self {
        let h = r.hd();
        Tok::new(if r.dummy { 0 } else { h.t }, h.y, 0)
    }
}
impl<const G: u8, L: Lay> Obs for Tok<G, L> {
    fn obs(self, o: &mut Out) {
        let (id, key, g) = self.parts();
        o.node("t", 0, id, g, key);
        o.close();
    }
}

macro_rules! lit {
    ($t:ty, |$h:ident| $b:expr, |$s:ident| $u:expr) => {
        impl Bld for $t {
            fn bld(r: &mut Rd) -> Self {
                let $h = r.hd();
                $b
            }
        }
        impl Obs for $t {
            fn obs(self, o: &mut Out) {
                let $s = self;
                o.lit($u);
            }
        }
    };
}
lit!(u8, |h| h.y as u8, |s| s as i32);
lit!(String, |h| format!("s{}", h.y), |s| s[1..].parse().unwrap());
lit!(&'static str, |h| Box::leak(format!("r{}", h.y).into_boxed_str()), |s| s[1..].parse().unwrap());
lit!(fn(u8) -> u8, |h| lits::FNS[h.y as usize], |s| s(0) as i32);
lit!((), |h| { let _ = h; }, |s| { let () = s; 0 });
lit!(&'static u8, |h| Box::leak(Box::new(h.y as u8)), |s| *s as i32);

macro_rules! tuples {
    ($(($($T:ident)+))+) => { $(
        impl<$($T: Bld),+> Bld for ($($T,)+) {
            fn bld(r: &mut Rd) -> Self { r.hd(); ($($T::bld(r),)+) }
        }
        impl<$($T: Obs),+> Obs for ($($T,)+) {
            #[allow(non_snake_case)]
            fn obs(self, o: &mut Out) {
                let ($($T,)+) = self;
                o.open("Tup", 0);
                $(o.kid($T);)+
                o.close();
            }
        }
    )+ };
}
tuples! { (A) (A B) (A B C) (A B C D) (A B C D E) (A B C D E F) (A B C D E F G) (A B C D E F G H) }

impl<T: Bld, const N: usize> Bld for [T; N] {
    fn bld(r: &mut Rd) -> Self {
        r.hd();
        std::array::from_fn(|_| T::bld(r))
    }
}
impl<T: Obs, const N: usize> Obs for [T; N] {
    fn obs(self, o: &mut Out) {
        o.list("Arr", 0, self.into_iter())
    }
}
impl<T: ?Sized> Bld for PhantomData<T> {
    fn bld(r: &mut Rd) -> Self {
        r.hd();
        PhantomData
    }
}
impl<T: ?Sized> Obs for PhantomData<T> {
    fn obs(self, o: &mut Out) {
        o.open("Phantom", 0);
        o.close();
    }
}

macro_rules! one {
    ($($c:literal $t:ident, |$x:ident| $b:expr, |$s:ident| $u:expr;)+) => { $(
        impl<T: Bld> Bld for $t<T> {
            fn bld(r: &mut Rd) -> Self { r.hd(); let $x = T::bld(r); $b }
        }
        impl<T: Obs> Obs for $t<T> {
            fn obs(self, o: &mut Out) { let $s = self; o.open($c, 0); o.kid($u); o.close(); }
        }
    )+ };
}
one! {
    "Box" Box, |x| Box::new(x), |s| *s;
    "Cell" Cell, |x| Cell::new(x), |s| s.into_inner();
    "RefCell" RefCell, |x| RefCell::new(x), |s| s.into_inner();
    "UnsafeCell" UnsafeCell, |x| UnsafeCell::new(x), |s| s.into_inner();
    "RangeFrom" RangeFrom, |x| x.., |s| s.start;
    "RangeTo" RangeTo, |x| ..x, |s| s.end;
    "RangeToInclusive" RangeToInclusive, |x| ..=x, |s| s.end;
}
impl<T: Bld> Bld for Range<T> {
    fn bld(r: &mut Rd) -> Self {
        r.hd();
        let a = T::bld(r);
        a..T::bld(r)
    }
}
impl<T: Obs> Obs for Range<T> {
    fn obs(self, o: &mut Out) {
        o.open("Range", 0);
        o.kid(self.start);
        o.kid(self.end);
        o.close();
    }
}
impl<T: Bld> Bld for RangeInclusive<T> {
    fn bld(r: &mut Rd) -> Self {
        r.hd();
        let a = T::bld(r);
        a..=T::bld(r)
    }
}
impl<T: Obs> Obs for RangeInclusive<T> {
    fn obs(self, o: &mut Out) {
        let (a, b) = self.into_inner();
        o.open("RangeInclusive", 0);
        o.kid(a);
        o.kid(b);
        o.close();
    }
}
impl<T: Bld> Bld for Option<T> {
    fn bld(r: &mut Rd) -> Self {
        let h = r.hd();
        (h.v == 1).then(|| T::bld(r))
    }
}
fn opt<T: Obs>(c: &str, x: Option<T>, o: &mut Out) {
    o.open(c, x.is_some() as i32);
    if let Some(x) = x {
        o.kid(x)
    }
    o.close();
}
impl<T: Obs> Obs for Option<T> {
    fn obs(self, o: &mut Out) {
        opt("Option", self, o)
    }
}
impl<T: Bld> Bld for std::option::IntoIter<T> {
    fn bld(r: &mut Rd) -> Self {
        Option::bld(r).into_iter()
    }
}
impl<T: Obs> Obs for std::option::IntoIter<T> {
    fn obs(mut self, o: &mut Out) {
        opt("OptIter", self.next(), o)
    }
}
impl<T: Bld> Bld for std::result::IntoIter<T> {
    fn bld(r: &mut Rd) -> Self {
        Option::bld(r).ok_or(()).into_iter()
    }
}
impl<T: Obs> Obs for std::result::IntoIter<T> {
    fn obs(mut self, o: &mut Out) {
        opt("ResIter", self.next(), o)
    }
}
impl<T: Bld> Bld for Poll<T> {
    fn bld(r: &mut Rd) -> Self {
        match Option::bld(r) {
            Some(x) => Poll::Ready(x),
            None => Poll::Pending,
        }
    }
}
impl<T: Obs> Obs for Poll<T> {
    fn obs(self, o: &mut Out) {
        opt("Poll", match self { Poll::Ready(x) => Some(x), Poll::Pending => None }, o)
    }
}
impl<T: Bld> Bld for Bound<T> {
    fn bld(r: &mut Rd) -> Self {
        match r.hd().v {
            0 => Bound::Included(T::bld(r)),
            1 => Bound::Excluded(T::bld(r)),
            _ => Bound::Unbounded,
        }
    }
}
impl<T: Obs> Obs for Bound<T> {
    fn obs(self, o: &mut Out) {
        let (v, x) = match self {
            Bound::Included(x) => (0, Some(x)),
            Bound::Excluded(x) => (1, Some(x)),
            Bound::Unbounded => (2, None),
        };
        o.open("Bound", v);
        if let Some(x) = x {
            o.kid(x)
        }
        o.close();
    }
}
impl<T: Bld, U: Bld> Bld for Result<T, U> {
    fn bld(r: &mut Rd) -> Self {
        if r.hd().v == 0 { Ok(T::bld(r)) } else { Err(U::bld(r)) }
    }
}
impl<T: Obs, U: Obs> Obs for Result<T, U> {
    fn obs(self, o: &mut Out) {
        o.open("Result", self.is_err() as i32);
        match self { Ok(x) => o.kid(x), Err(x) => o.kid(x) }
        o.close();
    }
}
// the parameters of ControlFlow are <B, C>: Break comes first
impl<T: Bld, U: Bld> Bld for ControlFlow<T, U> {
    fn bld(r: &mut Rd) -> Self {
        if r.hd().v == 0 { ControlFlow::Break(T::bld(r)) } else { ControlFlow::Continue(U::bld(r)) }
    }
}
impl<T: Obs, U: Obs> Obs for ControlFlow<T, U> {
    fn obs(self, o: &mut Out) {
        match self {
            ControlFlow::Break(x) => { o.open("ControlFlow", 0); o.kid(x) }
            ControlFlow::Continue(x) => { o.open("ControlFlow", 1); o.kid(x) }
        }
        o.close();
    }
}

// ---- lists
impl<T: Bld> Bld for Vec<T> {
    fn bld(r: &mut Rd) -> Self {
        let h = r.hd();
        let mut v = Vec::with_capacity(h.n + [0, 0, 1, 7][r.hint(4) as usize]);
        for _ in 0..h.n {
            v.push(T::bld(r));
        }
        v
    }
}
impl<T: Obs> Obs for Vec<T> {
    fn obs(self, o: &mut Out) {
        o.list("Vec", 0, self.into_iter())
    }
}
/// surrounds the elements by scaffolding, to be consumed before the value is used
fn padded<T: Bld>(r: &mut Rd) -> (Vec<T>, usize, usize) {
    let h = r.hd();
    let (a, z) = (r.hint(3), r.hint(5) % 3);
    let front: Vec<T> = r.dummies(h.n, a);
    let back: Vec<T> = r.dummies(h.n, z);
    let (a, z) = (front.len(), back.len());
    let mut v = front;
    v.extend(r.many::<T>(h.n));
    v.extend(back);
    (v, a, z)
}
fn trim<I: DoubleEndedIterator>(mut it: I, a: usize, z: usize) -> I {
    for _ in 0..a { it.next(); }
    for _ in 0..z { it.next_back(); }
    it
}
impl<T: Bld> Bld for std::vec::IntoIter<T> {
    fn bld(r: &mut Rd) -> Self {
        let (v, a, z) = padded(r);
        trim(v.into_iter(), a, z)
    }
}
impl<T: Obs> Obs for std::vec::IntoIter<T> {
    fn obs(self, o: &mut Out) {
        o.list("VecIter", 0, self)
    }
}
fn deque<T>(v: Vec<T>, hint: u32) -> VecDeque<T> {
    let n = v.len();
    let split = if n == 0 { 0 } else { hint as usize % (n + 1) };
    let mut d = VecDeque::with_capacity(n + (hint as usize / 7) % 3);
    let mut front: Vec<T> = v;
    let back = front.split_off(split);
    for x in back { d.push_back(x); }
    for x in front.into_iter().rev() { d.push_front(x); }
    d
}
impl<T: Bld> Bld for VecDeque<T> {
    fn bld(r: &mut Rd) -> Self {
        let h = r.hd();
        let hint = r.hint(210);
        deque(r.many(h.n), hint)
    }
}
impl<T: Obs> Obs for VecDeque<T> {
    fn obs(self, o: &mut Out) {
        o.list("VecDeque", 0, self.into_iter())
    }
}
impl<T: Bld> Bld for std::collections::vec_deque::IntoIter<T> {
    fn bld(r: &mut Rd) -> Self {
        let hint = r.hint(210);
        let (v, a, z) = padded(r);
        trim(deque(v, hint).into_iter(), a, z)
    }
}
impl<T: Obs> Obs for std::collections::vec_deque::IntoIter<T> {
    fn obs(self, o: &mut Out) {
        o.list("VecDequeIter", 0, self)
    }
}
impl<T: Bld> Bld for LinkedList<T> {
    fn bld(r: &mut Rd) -> Self {
        let h = r.hd();
        r.many(h.n).into_iter().collect()
    }
}
impl<T: Obs> Obs for LinkedList<T> {
    fn obs(self, o: &mut Out) {
        o.list("LinkedList", 0, self.into_iter())
    }
}
impl<T: Bld> Bld for std::collections::linked_list::IntoIter<T> {
    fn bld(r: &mut Rd) -> Self {
        let (v, a, z) = padded(r);
        trim(v.into_iter().collect::<LinkedList<T>>().into_iter(), a, z)
    }
}
impl<T: Obs> Obs for std::collections::linked_list::IntoIter<T> {
    fn obs(self, o: &mut Out) {
        o.list("LinkedListIter", 0, self)
    }
}

// ---- sets, maps, heaps
use std::hash::Hash;
impl<T: Bld + Ord> Bld for BTreeSet<T> {
    fn bld(r: &mut Rd) -> Self {
        let h = r.hd();
        let hint = r.hint(2);
        let v: Vec<T> = r.many(h.n);
        if hint == 0 { v.into_iter().collect() } else {
            let mut s = BTreeSet::new();
            for x in v.into_iter().rev() { s.insert(x); }
            s
        }
    }
}
impl<T: Obs + Ord> Obs for BTreeSet<T> {
    fn obs(self, o: &mut Out) {
        let bad = self.iter().filter(|x| !self.contains(x)).count() + (self.iter().count() != self.len()) as usize;
        o.list("BTreeSet", bad as i32, self.into_iter())
    }
}
impl<T: Bld + Ord> Bld for btree_set::IntoIter<T> {
    fn bld(r: &mut Rd) -> Self {
        BTreeSet::bld(r).into_iter()
    }
}
impl<T: Obs> Obs for btree_set::IntoIter<T> {
    fn obs(self, o: &mut Out) {
        o.list("BTreeSetIter", 0, self)
    }
}
impl<T: Bld + Hash + Eq> Bld for HashSet<T> {
    fn bld(r: &mut Rd) -> Self {
        let h = r.hd();
        let mut s = HashSet::with_capacity([0, h.n, 3 * h.n][r.hint(3) as usize]);
        for _ in 0..h.n { s.insert(T::bld(r)); }
        s
    }
}
impl<T: Obs + Hash + Eq> Obs for HashSet<T> {
    fn obs(self, o: &mut Out) {
        let bad = self.iter().filter(|x| !self.contains(*x)).count() + (self.iter().count() != self.len()) as usize;
        o.list("HashSet", bad as i32, self.into_iter())
    }
}
impl<T: Bld + Hash + Eq> Bld for hash_set::IntoIter<T> {
    fn bld(r: &mut Rd) -> Self {
        HashSet::bld(r).into_iter()
    }
}
impl<T: Obs> Obs for hash_set::IntoIter<T> {
    fn obs(self, o: &mut Out) {
        o.list("HashSetIter", 0, self)
    }
}
impl<T: Bld + Ord> Bld for BinaryHeap<T> {
    fn bld(r: &mut Rd) -> Self {
        let h = r.hd();
        let hint = r.hint(2);
        let v: Vec<T> = r.many(h.n);
        if hint == 0 { v.into() } else { v.into_iter().collect() }
    }
}
/// observed by popping, after a look at the other accessors
impl<T: Obs + Ord> Obs for BinaryHeap<T> {
    fn obs(mut self, o: &mut Out) {
        let bad = (self.iter().max() != self.peek()) as usize + (self.iter().count() != self.len()) as usize;
        o.open("BinaryHeap", bad as i32);
        while let Some(x) = self.pop() { o.kid(x) }
        o.close();
    }
}
impl<T: Bld + Ord> Bld for binary_heap::IntoIter<T> {
    fn bld(r: &mut Rd) -> Self {
        BinaryHeap::bld(r).into_iter()
    }
}
impl<T: Obs> Obs for binary_heap::IntoIter<T> {
    fn obs(self, o: &mut Out) {
        o.list("BinaryHeapIter", 0, self)
    }
}
fn entries<K: Bld, V: Bld>(r: &mut Rd, n: usize) -> Vec<(K, V)> {
    (0..n)
        .map(|_| {
            r.hd();
            let k = K::bld(r);
            (k, V::bld(r))
        })
        .collect()
}
fn map_obs<K: Obs, V: Obs>(c: &str, bad: usize, it: impl Iterator<Item = (K, V)>, o: &mut Out) {
    o.open(c, bad as i32);
    it.for_each(|(k, v)| {
        if o.0.ends_with('}') { o.0.push(',') }
        o.open("KV", 0);
        o.kid(k);
        o.kid(v);
        o.close();
    });
    o.close();
}
impl<K: Bld + Ord, V: Bld> Bld for BTreeMap<K, V> {
    fn bld(r: &mut Rd) -> Self {
        let h = r.hd();
        let hint = r.hint(2);
        let v = entries(r, h.n);
        if hint == 0 { v.into_iter().collect() } else {
            let mut s = BTreeMap::new();
            for (k, x) in v.into_iter().rev() { s.insert(k, x); }
            s
        }
    }
}
impl<K: Obs + Ord, V: Obs> Obs for BTreeMap<K, V> {
    fn obs(self, o: &mut Out) {
        let bad = self.iter().filter(|(k, v)| self.get(*k).map(|x| x as *const V) != Some(*v as *const V)).count()
            + (self.iter().count() != self.len()) as usize;
        map_obs("BTreeMap", bad, self.into_iter(), o)
    }
}
impl<K: Bld + Ord, V: Bld> Bld for btree_map::IntoIter<K, V> {
    fn bld(r: &mut Rd) -> Self {
        BTreeMap::bld(r).into_iter()
    }
}
impl<K: Obs, V: Obs> Obs for btree_map::IntoIter<K, V> {
    fn obs(self, o: &mut Out) {
        map_obs("BTreeMapIter", 0, self, o)
    }
}
impl<K: Bld + Hash + Eq, V: Bld> Bld for HashMap<K, V> {
    fn bld(r: &mut Rd) -> Self {
        let h = r.hd();
        let cap = [0, h.n, 3 * h.n][r.hint(3) as usize];
        let mut m = HashMap::with_capacity(cap);
        m.extend(entries(r, h.n));
        m
    }
}
impl<K: Obs + Hash + Eq, V: Obs> Obs for HashMap<K, V> {
    fn obs(self, o: &mut Out) {
        let bad = self.iter().filter(|(k, v)| self.get(*k).map(|x| x as *const V) != Some(*v as *const V)).count()
            + (self.iter().count() != self.len()) as usize;
        map_obs("HashMap", bad, self.into_iter(), o)
    }
}
impl<K: Bld + Hash + Eq, V: Bld> Bld for hash_map::IntoIter<K, V> {
    fn bld(r: &mut Rd) -> Self {
        HashMap::bld(r).into_iter()
    }
}
impl<K: Obs, V: Obs> Obs for hash_map::IntoIter<K, V> {
    fn obs(self, o: &mut Out) {
        map_obs("HashMapIter", 0, self, o)
    }
}

// ---------------------------------------------------------------- running the cases
pub enum End {
    Ok(String),
    Err(i32),
}
/// the end of a program that went through
pub fn fin<T: Obs>(x: T) -> End {
    log(END, 0);
    let mut o = Out::default();
    x.obs(&mut o);
    End::Ok(o.0)
}
/// the end of a program that got an error
pub fn oops(e: Oops) -> End {
    log(END, 0);
    End::Err(e.0.parts().0)
}
pub fn ret() {
    log(RET, 0);
}
pub type Prog = fn(&mut Rd, &[Step]) -> End;

/// Reads cases from the file named by the first argument: lines of numbers
/// `case program seed nsteps {a b m nfails {t k}} value..`; the second argument is the first line to run.
pub fn main(progs: &[(u32, Prog)]) {
    use std::io::{BufRead, Write};
    let args: Vec<String> = std::env::args().collect();
    let from: usize = args.get(2).map_or(0, |x| x.parse().unwrap());
    let table: HashMap<u32, Prog> = progs.iter().copied().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    let f = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    for line in f.lines().skip(from) {
        let line = line.unwrap();
        let d: Vec<i32> = line.split(' ').map(|x| x.parse().unwrap()).collect();
        let Some(&prog) = table.get(&(d[1] as u32)) else { continue };
        let mut p = 4;
        let mut next = || { p += 1; d[p - 1] };
        let steps: Vec<Step> = (0..d[3])
            .map(|_| {
                let (a, b, m, n) = (next(), next(), next(), next());
                Step { a, b, m, fails: (0..n).map(|_| (next(), next())).collect() }
            })
            .collect();
        {
            let mut o = out.lock();
            writeln!(o, "B {}", d[0]).unwrap();
            o.flush().unwrap();
        }
        take_log();
        forget_nils();
        BOMB.with(|b| b.set(0));
        let mut rd = Rd { d: &d, p, seed: d[2] as u32, dummy: false };
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| prog(&mut rd, &steps)));
        let (st, tree, e) = match res {
            Ok(End::Ok(s)) => ("ok", s, 0),
            Ok(End::Err(id)) => ("err", "0".into(), id),
            Err(p) => {
                log(END, 0);
                ("panic", "0".into(), p.downcast_ref::<Payload>().map_or(-1, |p| p.0))
            }
        };
        let evs = take_log().iter().map(|(k, i)| format!("[{k},{i}]")).collect::<Vec<_>>().join(",");
        let mut o = out.lock();
        writeln!(o, "C {{\"i\":{},\"st\":\"{st}\",\"e\":{e},\"ev\":[{evs}],\"r\":{tree}}}", d[0]).unwrap();
    }
    println!("END");
}
