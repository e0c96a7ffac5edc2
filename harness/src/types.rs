//! Key types whose hash is a field, so that the executor can make hashes arbitrary.
use hash_trie::{traits::*, HashTrieMap, HashTrieSet};
use core::hash::{Hash, Hasher};

macro_rules! key { ($n:ident, $($f:ident: $t:ty),*) => {
    /// Equality is on (hash, id); `tag` tells equal keys apart.
    #[derive(Clone, Copy, Debug, Default)]
    #[repr(C)]
    pub struct $n { $(pub $f: $t),* }
    impl $n {
        #[inline(always)] pub fn word(&self) -> u16 { (self.h as u16) << 8 | self.id as u16 }
        #[inline(always)] pub fn tagged(&self, tag: u8) -> $n { $n { tag, ..*self } }
    }
    impl PartialEq for $n { #[inline(always)] fn eq(&self, o: &Self) -> bool { self.word() == o.word() } }
    impl Eq for $n {}
    impl Hash for $n { fn hash<S: Hasher>(&self, s: &mut S) { self.word().hash(s) } }
    impl HasherBv<u8, $n> for Hs { fn hash(&self, v: &$n) -> u8 { v.h } }
} }
macro_rules! cross { ($a:ident, $b:ident) => {
    impl PartialEq<$b> for $a { #[inline(always)] fn eq(&self, o: &$b) -> bool { self.word() == o.word() } }
    impl HashLike<$b> for $a {}
    impl From<$a> for $b { fn from(x: $a) -> $b { #[allow(clippy::needless_update)] $b { h: x.h, id: x.id, tag: x.tag, ..Default::default() } } }
} }
#[derive(Default, Clone)]
pub struct Hs;
// The three are laid out differently, so that taking one for another shows.
key!(K, h: u8, id: u8, tag: u8); key!(L, id: u8, tag: u8, more: u32, h: u8); key!(S, tag: u8, more: [u8; 5], id: u8, h: u8);
cross!(K, L); cross!(L, K); cross!(K, S); cross!(S, K); cross!(L, S); cross!(S, L);

// A key type whose conversions are counted.
key!(C, more: u16, h: u8, tag: u8, id: u8);
static mut CONVERTED: u64 = 0;
/// How many keys were converted since the last time this was asked.
pub fn conversions() -> u64 { unsafe { let n = CONVERTED; CONVERTED = 0; n } }
impl C { pub fn of(k: &K) -> C { C { more: 0, h: k.h, tag: k.tag, id: k.id } } }
impl PartialEq<C> for K { #[inline(always)] fn eq(&self, o: &C) -> bool { self.word() == o.word() } }
impl PartialEq<K> for C { #[inline(always)] fn eq(&self, o: &K) -> bool { self.word() == o.word() } }
impl HashLike<C> for K {}
impl HashLike<K> for C {}
impl From<C> for K { fn from(x: C) -> K { unsafe { CONVERTED += 1; } K { h: x.h, id: x.id, tag: x.tag } } }
/// A value of another type.
#[derive(Clone, Copy, Debug)]
pub struct W(pub u16);
impl From<W> for u8 { fn from(w: W) -> u8 { w.0 as u8 } }

pub type M = HashTrieMap<u8, u8, K, u8, Hs>;
pub type ML = HashTrieMap<u8, u8, L, u8, Hs>;
pub type MS = HashTrieMap<u8, u8, S, u8, Hs>;
pub type T = HashTrieSet<u8, u8, K, Hs>;
pub type TL = HashTrieSet<u8, u8, L, Hs>;
pub type TS = HashTrieSet<u8, u8, S, Hs>;

use crate::rt::*;
/// An arbitrary key; `mask` limits which hash bits vary (0xff: all), `ids` the distinct ids (power of two mask).
pub fn key(mask: u8, ids: u8) -> K { K { h: sym_u8() & mask, id: sym_u8() & ids, tag: 0 } }
#[inline(always)] pub fn same(a: &K, b: &K) -> bool { a.word() == b.word() }
/// `n` distinct keys, tagged from `tag`, in non-decreasing hash order when `sorted`: the pre-state of a step.
pub fn keys(n: usize, mask: u8, ids: u8, sorted: bool, tag: u8) -> Vec<K> {
    let v: Vec<K> = (0..n).map(|i| key(mask, ids).tagged(tag + i as u8)).collect();
    let mut ok = true;
    for i in 0..n { for j in i + 1..n { ok &= !same(&v[i], &v[j]); } }
    if sorted { for i in 1..n { ok &= v[i - 1].h <= v[i].h; } }
    assume(ok);
    v
}

macro_rules! builders { ($build:ident, $M:ty, $K:ty) => {
    /// A map of `v`, values from `base`. With `ghost`, one more arbitrary key goes in first and is removed last,
    /// which leaves shapes that insertions alone cannot produce.
    pub fn $build(v: &[K], base: u8, ghost: bool, mask: u8, ids: u8) -> $M {
        let mut m = <$M>::new();
        let mut g = None;
        if ghost {
            let k = key(mask, ids);
            let mut ok = true;
            for x in v { ok &= !same(x, &k); }
            assume(ok);
            let k = <$K>::from(k);
            match m.insert(k, 255, false) { Ok((n, ..)) => m = n, Err(_) => check(false, 900) }
            g = Some(k);
        }
        for (i, k) in v.iter().enumerate() { match m.insert(<$K>::from(*k), base + i as u8, false) { Ok((n, ..)) => m = n, Err(_) => check(false, 901) } }
        if let Some(k) = g { match m.remove(&k) { Ok((n, ..)) => m = n, Err(_) => check(false, 902) } }
        m
    }
} }
builders!(build, M, K);
builders!(build_l, ML, L);

macro_rules! set_builders { ($build:ident, $M:ty, $K:ty) => {
    pub fn $build(v: &[K], ghost: bool, mask: u8, ids: u8) -> $M {
        let mut m = <$M>::new();
        let mut g = None;
        if ghost {
            let k = key(mask, ids);
            let mut ok = true;
            for x in v { ok &= !same(x, &k); }
            assume(ok);
            let k = <$K>::from(k);
            match m.insert(k, false) { Ok((n, ..)) => m = n, Err(_) => check(false, 903) }
            g = Some(k);
        }
        for k in v.iter() { match m.insert(<$K>::from(*k), false) { Ok((n, ..)) => m = n, Err(_) => check(false, 904) } }
        if let Some(k) = g { match m.remove(&k) { Ok((n, ..)) => m = n, Err(_) => check(false, 905) } }
        m
    }
} }
set_builders!(build_t, T, K);
set_builders!(build_tl, TL, L);

use hash_trie::ParallelismStrategy;
pub fn strat(par: bool) -> ParallelismStrategy { if par { ParallelismStrategy::MiddleIndex } else { ParallelismStrategy::Sequential } }
#[inline(always)] pub fn add(a: &u64, b: &u64) -> u64 { a.wrapping_add(*b) }
/// Joint reductions: four bits per entry met on the left, on the right, and on either side of a pair.
pub type R = u128;
#[inline(always)] pub fn addr(a: &R, b: &R) -> R { a.wrapping_add(*b) }
#[inline(always)] pub fn selr(c: bool, a: R, b: R) -> R { let m = (c as R).wrapping_neg(); (a & m) | (b & !m) }
pub fn outr(r: R) { out(r as u64); out((r >> 64) as u64); }
/// Entries seen by a visit: `bits` has bit `v` for value `v`, `bad` is set on a repeated value or a wrong key.
pub struct Seen { pub bits: core::cell::Cell<u64>, pub bad: core::cell::Cell<bool>, pub n: core::cell::Cell<u64> }
impl Seen {
    pub fn new() -> Seen { Seen { bits: core::cell::Cell::new(0), bad: core::cell::Cell::new(false), n: core::cell::Cell::new(0) } }
    pub fn note(&self, v: u8, ok: bool) {
        let b = 1u64.wrapping_shl(v as u32);
        self.bad.set(self.bad.get() | (self.bits.get() & b != 0) | !ok | (v >= 64));
        self.bits.set(self.bits.get() | b);
        self.n.set(self.n.get() + 1);
    }
}

/// The life of a map after the operation that made it. `how` & 3: 1 an arbitrary key is inserted first, 2 one of the
/// entries is removed first, 0 neither; then any subset of the entries is dropped by a transform, and with `how` & 4
/// an arbitrary key inserted afterwards. Values are below 60; 61 and 62 mark the insertions.
#[macro_export]
macro_rules! aftermath { ($x:expr, $M:ty, $K:ty, $how:expr, $mask:expr, $ids:expr, $par:expr) => {{
    let how: u64 = $how;
    let mut m: $M = $x.clone();
    // what it holds, by value
    let table = |m: &$M| {
        let mut t: [Option<$K>; 64] = [None; 64];
        let s = Seen::new();
        let c = core::cell::RefCell::new(&mut t);
        m.visit(|k, v| { s.note(*v, true); c.borrow_mut()[*v as usize & 63] = Some(*k) });
        check(!s.bad.get(), 800);
        (t, s.bits.get(), s.n.get())
    };
    let (mut t, mut bits, mut n) = table(&m);
    check(m.size() as u64 == n, 801);
    let holds = |m: &$M, t: &[Option<$K>; 64], bits: u64, n: u64, id: u32| {
        let s = Seen::new();
        m.visit(|k, v| s.note(*v, match t[*v as usize & 63] { Some(x) => *k == x, None => false }));
        check(!s.bad.get() & (s.bits.get() == bits), id);
        check(m.size() as u64 == n, id + 1);
        for v in 0..64u8 { if let Some(k) = t[v as usize] { match m.find(&k) { Ok((q, w)) => check((*q == k) & (*w == v) & (bits >> v & 1 == 1), id + 2), Err(_) => check(bits >> v & 1 == 0, id + 3) } } }
    };
    let put = |m: &mut $M, t: &mut [Option<$K>; 64], bits: &mut u64, n: &mut u64, mark: u8, id: u32| {
        let q = <$K>::from(key($mask, $ids).tagged(77));
        let had = m.find(&q).ok().map(|x| *x.1);
        match m.insert(q, mark, true) {
            Ok((y, _, _, prev)) => { check(prev.map(|x| *x.1) == had, id); *m = y },
            Err(_) => check(false, id + 1),
        }
        if let Some(v) = had { t[v as usize & 63] = None; *bits &= !(1 << v); *n -= 1; }
        t[mark as usize] = Some(q); *bits |= 1 << mark; *n += 1;
    };
    if how & 3 == 1 { put(&mut m, &mut t, &mut bits, &mut n, 61, 810); holds(&m, &t, bits, n, 812); }
    if how & 3 == 2 && n > 0 {
        let c = below(n as u8) as usize;
        let (mut v, mut i) = (0u8, 0);
        while v < 64 { if t[v as usize].is_some() { if i == c { break } i += 1; } v += 1; }
        let k = t[v as usize & 63].unwrap();
        match m.remove(&k) { Ok((y, q, w)) => { check((*q == k) & (*w == v), 820); m = y }, Err(_) => check(false, 821) }
        bits &= !(1 << v); n -= 1;
        holds(&m, &t, bits, n, 822);
        t[v as usize & 63] = None;
    }
    let mut gone = 0u64;
    for v in 0..64 { if t[v].is_some() { gone |= ((sym_u8() & 1) as u64) << v; } }
    let (y, red) = block_on(m.transform(add, hash_trie::transformations::new_map_transform_generic(|_: &$K, v: &u8| if gone >> *v & 1 == 1 { hash_trie::results::MapTransformResult::<u8, u64>::Removed(1) } else { hash_trie::results::MapTransformResult::Unchanged(1) }), strat($par)));
    check(red == n, 830);
    holds(&m, &t, bits, n, 840);
    bits &= !gone; n = bits.count_ones() as u64;
    holds(&y, &t, bits, n, 831);
    out(bits);
    if how & 4 != 0 { let mut y = y; for v in 0..64 { if bits >> v & 1 == 0 { t[v] = None; } } put(&mut y, &mut t, &mut bits, &mut n, 62, 850); holds(&y, &t, bits, n, 852); }
}} }
