//! Two threads over one map and its relatives: every operation of each answers as it would alone, whatever the
//! interleaving, and nothing they do races.
use crate::{rt::*, types::*};
use hash_trie::{results::*, transformations::*};
pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_share", h_share)];

/// Whether a type may cross threads, as a constant (an inherent constant wins over a trait's where its bound holds).
struct Ask<X>(core::marker::PhantomData<X>);
trait No { const SEND: bool = false; const SYNC: bool = false; }
impl<X> No for Ask<X> {}
struct AskSync<X>(core::marker::PhantomData<X>);
impl<X> No for AskSync<X> {}
impl<X: Send> Ask<X> { const SEND: bool = true; }
impl<X: Sync> AskSync<X> { const SYNC: bool = true; }

#[derive(Clone, Copy)]
struct E { k: K, p: bool, v: u8, t: u8 }
/// What a map holds.
#[derive(Clone)]
struct L1 { e: Vec<E> }
impl L1 {
    fn drop_key(&mut self, k: &K) { for e in self.e.iter_mut() { e.p &= !same(&e.k, k); } }
    fn put(&mut self, k: K, v: u8) { self.drop_key(&k); self.e.push(E { k, p: true, v, t: k.tag }); }
    fn has(&self, k: &K) -> bool { let mut p = false; for e in &self.e { p |= e.p & same(&e.k, k); } p }
    fn bits(&self) -> u64 { let mut b = 0; for e in &self.e { b |= sel(e.p, 1 << e.v, 0); } b }
    fn n(&self) -> u64 { let mut n = 0; for e in &self.e { n += e.p as u64; } n }
    fn owns(&self, h: u8, id: u8, v: u8) -> bool { let mut ok = false; for e in &self.e { ok |= e.p & (e.v == v) & (e.k.h == h) & (e.k.id == id); } ok }
}
macro_rules! holds { ($m:expr, $l:expr, $id:expr) => {{
    let (m, l, id): (_, &L1, u32) = ($m, &$l, $id);
    let s = Seen::new();
    m.visit(|k, v| s.note(*v, l.owns(k.h, k.id, *v)));
    check((s.bits.get() == l.bits()) & !s.bad.get(), id);
    check(m.size() as u64 == l.n(), id + 1);
}} }
fn finds(m: &M, l: &L1, k: &K, id: u32) {
    match m.find(k) { Ok((x, v)) => check(same(x, k) & l.owns(x.h, x.id, *v), id), Err(_) => check(!l.has(k), id + 1) }
}

/// What one thread has and does. `m` is shared, `own` is its own handle, `oth` a shared map to join with (none: its own).
struct Side { par: bool, m: *const M, own: Option<M>, oth: *const M, op: u64, k: K, l: L1, ol: L1, res: Option<M> }
fn after(l: &L1, ol: &L1, op: u64, k: K) -> L1 {
    let mut r = l.clone();
    match op {
        1 => r.put(k, 62),
        2 => r.drop_key(&k),
        3 => for e in r.e.iter_mut() { e.p &= e.v & 1 == 0; e.v += 1; },
        4 => for e in &ol.e { for f in r.e.iter_mut() { f.p &= !(e.p & same(&e.k, &f.k)); } r.e.push(*e); },
        _ => {},
    }
    r
}
extern "C" fn body(p: *mut u8) {
    let s = unsafe { &mut *(p as *mut Side) };
    let own = s.own.take();
    let m: &M = match &own { Some(m) => m, None => unsafe { &*s.m } };
    let (l, k) = (&s.l, s.k);
    let x = after(l, &s.ol, s.op, k);
    let r: Option<M> = match s.op {
        0 => { holds!(m, *l, 1); for e in &l.e { finds(m, l, &e.k, 3); } finds(m, l, &k, 5); None },
        1 => match m.insert(k, 62, true) { Ok((y, _, _, prev)) => { check(prev.is_some() == l.has(&k), 10); finds(&y, &x, &k, 11); Some(y) }, Err(_) => { check(false, 13); None } },
        2 => match m.remove(&k) { Ok((y, q, _)) => { check(same(q, &k) & l.has(&k), 20); finds(&y, &x, &k, 21); Some(y) }, Err(_) => { check(!l.has(&k), 23); None } },
        3 => {
            let (y, n) = block_on(m.transform(add, new_map_transform_generic(|_: &K, v: &u8| if *v & 1 == 1 { MapTransformResult::<u8, u64>::Removed(1) } else { MapTransformResult::Transformed(*v + 1, 1) }), strat(s.par)));
            check(n == l.n(), 30); Some(y)
        },
        4 => {
            let o = if s.oth.is_null() { m } else { unsafe { &*s.oth } };
            let (y, _) = block_on(m.transform_with_transformed(o, add, new_map_joint_transform_generic(|_: &K, _: &u8, _: &K, _: &u8| MapJointTransformResult::UnchangedR(1u64)), new_map_transform_generic(|_: &K, _: &u8| MapTransformResult::Unchanged(1u64)), new_map_transform_generic(|_: &K, _: &u8| MapTransformResult::Unchanged(1u64)), strat(s.par)));
            Some(y)
        },
        5 => { let o = if s.oth.is_null() { m } else { unsafe { &*s.oth } }; let c = m.clone(); check((c == *m) & (!(c == *o) | (l.bits() == s.ol.bits())), 50); None },
        6 => {
            let (y, n): (ML, u64) = unsafe { m.transmute(add, new_map_transmute_generic(|k: &K, v: &u8| MapTransmuteResult::Transmuted(L::from(*k), *v, 1u64))) };
            check(n == l.n(), 60); holds!(&y, *l, 61); None
        },
        _ => None,
    };
    if let Some(y) = &r { holds!(y, x, 70); }
    s.res = r;
}

/// p0 entries, p1 hash mask, p2 id mask, p3 how the threads hold the map (0 both by reference, 1 a handle each, 2 a handle each and
/// nobody else, 3 one by reference and one a derived version, 4 a derived version each, nobody else), p4/p5 what they do,
/// p6 preemptions, p7 how versions derive (1 an insertion, 2 a removal), p8 flags (1: one more key came and went, 2: middle-index).
#[no_mangle] pub extern "C" fn h_share() {
    check(Ask::<M>::SEND & AskSync::<M>::SYNC & Ask::<T>::SEND & AskSync::<T>::SYNC, 96);
    let (n, mask, ids, how, fl) = (param(0) as usize, param(1) as u8, param(2) as u8, param(3), param(8));
    let live = sym_live();
    {
        let v = keys(n, mask, ids, true, 1);
        let m = build(&v, 0, fl & 1 != 0, mask, ids);
        let mut l = L1 { e: Vec::with_capacity(16) };
        for (i, k) in v.iter().enumerate() { l.e.push(E { k: *k, p: true, v: i as u8, t: k.tag }); }
        let (ka, kb, kd) = (key(mask, ids).tagged(50), key(mask, ids).tagged(51), key(mask, ids).tagged(52));
        let (mut d, mut dl) = (m.clone(), l.clone());
        if how >= 3 { match param(7) {
            1 => { match m.insert(kd, 60, true) { Ok((y, ..)) => d = y, Err(_) => check(false, 900) } dl.put(kd, 60); },
            _ => if n > 0 { match m.remove(&v[n / 2]) { Ok((y, ..)) => d = y, Err(_) => check(false, 901) } dl.drop_key(&v[n / 2]); },
        } }
        let held = how != 2 && how != 4;
        let mut a = Side { par: fl & 2 != 0, m: &m, own: if how == 1 || how == 2 || how == 4 { Some(m.clone()) } else { None }, oth: &m, op: param(4), k: ka, l: l.clone(), ol: l.clone(), res: None };
        let mut b = Side { par: fl & 2 != 0, m: &m, own: if how != 0 { Some(d) } else { drop(d); None }, oth: &m, op: param(5), k: kb, l: dl, ol: l.clone(), res: None };
        let m = if held { Some(m) } else { drop(m); None };
        if let Some(m) = &m { a.m = m; a.oth = m; b.m = m; b.oth = m; } else { a.oth = core::ptr::null(); b.oth = a.oth; b.ol = b.l.clone(); }
        let (xa, xb) = (after(&a.l, &a.ol, a.op, ka), after(&b.l, &b.ol, b.op, kb));
        sym_par(body, &mut a as *mut Side as *mut u8, body, &mut b as *mut Side as *mut u8, param(6) as u32);
        if let Some(m) = &m { holds!(m, l, 80); for e in &l.e { finds(m, &l, &e.k, 82); } }
        if let Some(r) = &a.res { holds!(r, xa, 84); finds(r, &xa, &ka, 86); out(r.size() as u64); }
        if let Some(r) = &b.res { holds!(r, xb, 88); finds(r, &xb, &kb, 90); out(r.size() as u64); }
    }
    check(sym_live() == live, 95);
    reach(1);
}
