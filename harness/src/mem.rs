//! Memory: keys and values that own heap blocks, whole lifetimes of collections in every drop order.
use crate::{rt::*, types::{strat, Seen}};
use hash_trie::{results::*, traits::*, transformations::*, HashTrieMap, HashTrieSet};
use core::hash::{Hash, Hasher};
pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_mem_hist", h_mem_hist), ("h_mem_transform", h_mem_transform), ("h_mem_transmute", h_mem_transmute), ("h_mem_set", h_mem_set),
    #[cfg(feature = "memj")] ("h_mem_tt", h_mem_tt), #[cfg(feature = "memj")] ("h_mem_tm", h_mem_tm), #[cfg(feature = "memj")] ("h_mem_mt", h_mem_mt), #[cfg(feature = "memj")] ("h_mem_mm", h_mem_mm),
];

macro_rules! owned { ($n:ident) => {
    /// The identity lives in the box, so that comparing keys reads through it.
    #[derive(Clone, Debug)]
    pub struct $n { h: u8, b: Box<u8> }
    impl $n { fn new(h: u8, id: u8) -> $n { $n { h, b: Box::new(id) } } }
    impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { (self.h == o.h) & (*self.b == *o.b) } }
    impl Eq for $n {}
    impl Hash for $n { fn hash<S: Hasher>(&self, s: &mut S) { self.h.hash(s) } }
    impl HasherBv<u8, $n> for Bh { fn hash(&self, v: &$n) -> u8 { v.h } }
} }
macro_rules! cross { ($a:ident, $b:ident) => {
    impl PartialEq<$b> for $a { fn eq(&self, o: &$b) -> bool { (self.h == o.h) & (*self.b == *o.b) } }
    impl HashLike<$b> for $a {}
} }
#[derive(Default, Clone)]
pub struct Bh;
owned!(A); owned!(B); owned!(C);
cross!(A, B); cross!(B, A); cross!(A, C); cross!(C, A); cross!(B, C); cross!(C, B);
type V = Box<u8>;
type MA = HashTrieMap<u8, u8, A, V, Bh>;
#[cfg(feature = "memj")] type MB = HashTrieMap<u8, u8, B, V, Bh>;
type MC = HashTrieMap<u8, u8, C, V, Bh>;

/// Plain copies of the keys, made before anything is counted.
struct Plain { h: u8, id: u8 }
fn plain(mask: u8, ids: u8) -> Plain { Plain { h: sym_u8() & mask, id: sym_u8() & ids } }
fn distinct(n: usize, mask: u8, ids: u8) -> Vec<Plain> {
    let v: Vec<Plain> = (0..n).map(|_| plain(mask, ids)).collect();
    let mut ok = true;
    for i in 0..n { for j in 0..i { ok &= (v[j].h <= v[i].h) & !((v[i].h == v[j].h) & (v[i].id == v[j].id)); } }
    assume(ok);
    v
}
fn live() -> u64 { sym_live() }

/// p0 operations (p1 hash mask, p2 id mask); p3: which version goes first (0 oldest, 1 newest, 2 middle out).
#[no_mangle] pub extern "C" fn h_mem_hist() {
    let (n, mask, ids, order) = (param(0) as usize, param(1) as u8, param(2) as u8, param(3));
    let ops: Vec<(Plain, u8)> = (0..n).map(|_| (plain(mask, ids), sym_u8())).collect();
    let mut vs: Vec<Option<MA>> = Vec::with_capacity(n + 1);
    let mut present = [[false; 6]; 7];
    let start = live();
    vs.push(Some(MA::new()));
    for i in 0..n {
        let (p, c) = &ops[i];
        let m = vs[i].as_ref().unwrap();
        let next = if c & 1 == 0 { match m.insert(A::new(p.h, p.id), Box::new(i as u8), c & 2 == 0) { Ok((m, k, v, prev)) => { let (k, v) = unsafe { (&*k, &*v) }; check((k.h == p.h) & (*k.b == p.id) & (**v == i as u8), 1); if let Some((k, _)) = prev { check((k.h == p.h) & (*k.b == p.id), 2) } m }, Err((k, _)) => { check((k.h == p.h) & (*k.b == p.id), 3); m.clone() } } }
            else { let q = A::new(p.h, p.id); match m.remove(&q) { Ok((m, k, v)) => { check((*k == q) & ((**v as usize) < n), 4); m }, Err(_) => m.clone() } };
        for j in 0..n { let same = (ops[j].0.h == p.h) & (ops[j].0.id == p.id); present[i + 1][j] = (present[i][j] & !(same & (c & 1 == 1))) | (same & (c & 1 == 0)); }
        vs.push(Some(next));
    }
    let total = n + 1;
    for d in 0..total {
        let victim = match order { 0 => d, 1 => total - 1 - d, _ => (total / 2 + d) % total };
        vs[victim] = None;
        for (i, v) in vs.iter().enumerate() { if let Some(m) = v {
            for j in 0..n { let q = A::new(ops[j].0.h, ops[j].0.id); match m.find(&q) { Ok((k, v)) => check(present[i][j] & (*k == q) & ((**v as usize) < n), 5), Err(_) => check(!present[i][j], 6) } }
        } }
    }
    check(live() == start, 7);
    out(1);
    reach(1);
}

fn build_a(v: &[Plain], base: u8) -> MA { let mut m = MA::new(); for (i, p) in v.iter().enumerate() { match m.insert(A::new(p.h, p.id), Box::new(base + i as u8), false) { Ok(x) => m = x.0, Err(_) => check(false, 90) } } m }
#[cfg(feature = "memj")]
fn build_b(v: &[Plain], base: u8) -> MB { let mut m = MB::new(); for (i, p) in v.iter().enumerate() { match m.insert(B::new(p.h, p.id), Box::new(base + i as u8), false) { Ok(x) => m = x.0, Err(_) => check(false, 91) } } m }
macro_rules! sum { ($m:expr) => {{ let s = Seen::new(); $m.visit(|k, v| s.note(**v, *k.b < 8)); check(!s.bad.get() & (s.n.get() == $m.size() as u64), 92); s.bits.get() }} }
/// Drop the given collections in the order p-selected; whatever is still held must read the same to the end.
macro_rules! drops { ($order:expr, $a:expr, $b:expr, $c:expr) => {{
    let (a, b, c) = ($a, $b, $c);
    let (sa, sb, sc) = (sum!(a), sum!(b), sum!(c));
    match $order {
        0 => { drop(a); drop(b); check(sum!(c) == sc, 93); drop(c) },
        1 => { drop(c); check((sum!(a) == sa) & (sum!(b) == sb), 94); drop(b); drop(a) },
        2 => { drop(b); check((sum!(a) == sa) & (sum!(c) == sc), 95); drop(a); drop(c) },
        _ => { drop(a); check((sum!(b) == sb) & (sum!(c) == sc), 96); drop(c); check(sum!(b) == sb, 97); drop(b) },
    }
    let _ = (sa, sb, sc);
}} }

/// p0 entries, p1 hash mask, p2 id mask, p3 strategy, p4 drop order.
#[no_mangle] pub extern "C" fn h_mem_transform() {
    let (n, mask, ids) = (param(0) as usize, param(1) as u8, param(2) as u8);
    let v = distinct(n, mask, ids);
    let kind: Vec<u8> = (0..n).map(|_| below(3)).collect();
    let start = live();
    {
        let m = build_a(&v, 0);
        let op = new_map_transform_generic(|_: &A, v: &V| match kind[**v as usize] { 0 => MapTransformResult::Unchanged(1u64), 1 => MapTransformResult::Transformed(Box::new(16 + **v), 1), _ => MapTransformResult::Removed(1) });
        let (x, _) = block_on(m.transform(|a: &u64, b: &u64| a + b, op, strat(param(3) != 0)));
        let c = m.clone();
        drops!(param(4), c, m, x);
    }
    check(live() == start, 1);
    reach(1);
}
#[no_mangle] pub extern "C" fn h_mem_transmute() {
    let (n, mask, ids) = (param(0) as usize, param(1) as u8, param(2) as u8);
    let v = distinct(n, mask, ids);
    let kind: Vec<u8> = (0..n).map(|_| below(2)).collect();
    let start = live();
    {
        let m = build_a(&v, 0);
        let op = new_map_transmute_generic(|k: &A, v: &V| if kind[**v as usize] == 0 { MapTransmuteResult::Transmuted(C::new(k.h, *k.b), Box::new(16 + **v), 1u64) } else { MapTransmuteResult::Removed(1) });
        let (x, _): (MC, u64) = unsafe { m.transmute(|a: &u64, b: &u64| a + b, op) };
        let c = m.clone();
        drops!(param(4), c, m, x);
    }
    check(live() == start, 1);
    reach(1);
}
/// A set: insert, transform, drop.
#[no_mangle] pub extern "C" fn h_mem_set() {
    let (n, mask, ids) = (param(0) as usize, param(1) as u8, param(2) as u8);
    let v = distinct(n, mask, ids);
    let kind: Vec<u8> = (0..n).map(|_| below(2)).collect();
    let q = plain(mask, ids);
    let start = live();
    {
        let mut m = HashTrieSet::<u8, u8, A, Bh>::new();
        for p in &v { match m.insert(A::new(p.h, p.id), false) { Ok(x) => m = x.0, Err(_) => check(false, 90) } }
        let op = new_set_transform_generic(|k: &A| { let mut x = 0; for (i, p) in v.iter().enumerate() { x = sel((p.h == k.h) & (p.id == *k.b), kind[i] as u64, x); } if x == 0 { SetTransformResult::Unchanged(1u64) } else { SetTransformResult::Removed(1) } });
        let (x, r) = block_on(m.transform(|a: &u64, b: &u64| a + b, op, strat(param(3) != 0)));
        check(r == n as u64, 2);
        let q = A::new(q.h, q.id);
        let y = match x.insert(q.clone(), true) { Ok((y, ..)) => y, Err(_) => return check(false, 3) };
        if param(4) & 1 == 0 { drop(m); drop(x); check(y.find(&q).is_ok(), 4); } else { drop(y); check(m.size() == n, 5); drop(x); }
    }
    check(live() == start, 1);
    reach(1);
}

#[cfg(feature = "memj")]
struct J { l: Vec<Plain>, r: Vec<Plain>, lk: Vec<u8>, rk: Vec<u8>, bk: Vec<u8> }
/// p0/p1 entries, p2 hash mask, p3 id mask, p4 strategy, p5 drop order.
#[cfg(feature = "memj")]
fn joint(l: (u8, u8), r: (u8, u8), b: (u8, u8)) -> J {
    let (n, m, mask, ids) = (param(0) as usize, param(1) as usize, param(2) as u8, param(3) as u8);
    let (lv, rv) = (distinct(n, mask, ids), distinct(m, mask, ids));
    J { l: lv, r: rv, lk: (0..n).map(|_| l.0 + below(l.1)).collect(), rk: (0..m).map(|_| r.0 + below(r.1)).collect(), bk: (0..n).map(|_| b.0 + below(b.1)).collect() }
}
#[cfg(feature = "memj")]
fn one(k: u8, v: u8) -> MapTransformResult<V, u64> { match k { 0 => MapTransformResult::Unchanged(1), 1 => MapTransformResult::Transformed(Box::new(v), 1), _ => MapTransformResult::Removed(1) } }
#[cfg(feature = "memj")]
fn add(a: &u64, b: &u64) -> u64 { a + b }
#[cfg(feature = "memj")]
#[no_mangle] pub extern "C" fn h_mem_tt() {
    let j = joint((0, 3), (0, 3), (0, 5));
    let start = live();
    {
        let (lm, rm) = (build_a(&j.l, 0), build_a(&j.r, 8));
        let b = new_map_joint_transform_generic(|_: &A, v: &V, _: &A, _: &V| match j.bk[**v as usize] { 0 => MapJointTransformResult::UnchangedLR(1u64), 1 => MapJointTransformResult::UnchangedL(1), 2 => MapJointTransformResult::UnchangedR(1), 3 => MapJointTransformResult::Transformed(Box::new(32 + **v), 1), _ => MapJointTransformResult::Removed(1) });
        let l = new_map_transform_generic(|_: &A, v: &V| one(j.lk[**v as usize], 16 + **v));
        let r = new_map_transform_generic(|_: &A, v: &V| one(j.rk[**v as usize - 8], 16 + **v));
        let (x, _) = block_on(lm.transform_with_transformed(&rm, add, b, l, r, strat(param(4) != 0)));
        drops!(param(5), lm, rm, x);
    }
    check(live() == start, 1);
    reach(1);
}
#[cfg(feature = "memj")]
#[no_mangle] pub extern "C" fn h_mem_tm() {
    let j = joint((0, 3), (1, 2), (0, 3));
    let start = live();
    {
        let (lm, rm) = (build_a(&j.l, 0), build_b(&j.r, 8));
        let b = new_map_transform_transmute_generic(|_: &A, v: &V, _: &B, _: &V| one(j.bk[**v as usize], 32 + **v));
        let l = new_map_transform_generic(|_: &A, v: &V| one(j.lk[**v as usize], 16 + **v));
        let r = new_map_transmute_generic(|k: &B, v: &V| if j.rk[**v as usize - 8] == 1 { MapTransmuteResult::Transmuted(A::new(k.h, *k.b), Box::new(16 + **v), 1u64) } else { MapTransmuteResult::Removed(1) });
        let (x, _): (MA, u64) = block_on(unsafe { lm.transform_with_transmuted(&rm, add, b, l, r, strat(param(4) != 0)) });
        drops!(param(5), lm, rm, x);
    }
    check(live() == start, 1);
    reach(1);
}
#[cfg(feature = "memj")]
#[no_mangle] pub extern "C" fn h_mem_mt() {
    let j = joint((1, 2), (0, 3), (0, 3));
    let start = live();
    {
        let (lm, rm) = (build_a(&j.l, 0), build_b(&j.r, 8));
        let b = new_map_transmute_transform_generic(|_: &A, v: &V, _: &B, _: &V| one(j.bk[**v as usize], 32 + **v));
        let l = new_map_transmute_generic(|k: &A, v: &V| if j.lk[**v as usize] == 1 { MapTransmuteResult::Transmuted(B::new(k.h, *k.b), Box::new(16 + **v), 1u64) } else { MapTransmuteResult::Removed(1) });
        let r = new_map_transform_generic(|_: &B, v: &V| one(j.rk[**v as usize - 8], 16 + **v));
        let (x, _): (MB, u64) = block_on(unsafe { lm.transmute_with_transformed(&rm, add, b, l, r, strat(param(4) != 0)) });
        drops!(param(5), lm, rm, x);
    }
    check(live() == start, 1);
    reach(1);
}
#[cfg(feature = "memj")]
#[no_mangle] pub extern "C" fn h_mem_mm() {
    let j = joint((1, 2), (1, 2), (1, 2));
    let start = live();
    {
        let (lm, rm) = (build_a(&j.l, 0), build_b(&j.r, 8));
        let b = new_map_transmute_transmute_generic(|k: &A, v: &V, _: &B, _: &V| if j.bk[**v as usize] == 1 { MapTransmuteResult::Transmuted(C::new(k.h, *k.b), Box::new(32 + **v), 1u64) } else { MapTransmuteResult::Removed(1) });
        let l = new_map_transmute_generic(|k: &A, v: &V| if j.lk[**v as usize] == 1 { MapTransmuteResult::Transmuted(C::new(k.h, *k.b), Box::new(16 + **v), 1u64) } else { MapTransmuteResult::Removed(1) });
        let r = new_map_transmute_generic(|k: &B, v: &V| if j.rk[**v as usize - 8] == 1 { MapTransmuteResult::Transmuted(C::new(k.h, *k.b), Box::new(16 + **v), 1u64) } else { MapTransmuteResult::Removed(1) });
        let (x, _): (MC, u64) = unsafe { lm.transmute_with_transmuted(&rm, add, b, l, r) };
        drops!(param(5), lm, rm, x);
    }
    check(live() == start, 1);
    reach(1);
}
