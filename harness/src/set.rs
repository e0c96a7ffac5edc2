//! Sets: membership histories and every set operation. Which copy of a key is held shows in its tag:
//! left keys are tagged 1+i, right keys 11+j, transmuted ones 100 more.
use crate::{rt::*, types::*};
use hash_trie::{results::*, transformations::*};
pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    #[cfg(feature = "set")] ("h_set", h_set),
    #[cfg(feature = "set")] ("h_set_key", h_set_key),
    #[cfg(feature = "set")] ("h_set_transform", h_set_transform),
    #[cfg(feature = "set")] ("h_set_transmute", h_set_transmute),
    #[cfg(feature = "setj")] ("h_set_tt", h_set_tt),
    #[cfg(feature = "setj")] ("h_set_tm", h_set_tm),
    #[cfg(feature = "setj")] ("h_set_mt", h_set_mt),
    #[cfg(feature = "setj")] ("h_set_mm", h_set_mm),
    #[cfg(feature = "setj")] ("h_set_const", h_set_const),
    #[cfg(feature = "setj")] ("h_set_tt_flip", h_set_tt_flip),
];

/// A history of p0 operations (hash mask p1, id mask p2); each answer, the final membership, size and visit.
#[cfg(feature = "set")]
#[no_mangle] pub extern "C" fn h_set() {
    let (n, mask, ids) = (param(0) as usize, param(1) as u8, param(2) as u8);
    let (mut ops, mut m): (Vec<(K, bool, bool)>, T) = (Vec::new(), T::new());
    let oracle = |ops: &[(K, bool, bool)], q: &K| { let (mut p, mut t) = (false, 0u64); for (k, ins, rep) in ops { let s = same(k, q); t = sel(s & *ins & (*rep | !p), k.tag as u64, t); p = (p | s & *ins) & !(s & !*ins); } (p, t as u8) };
    for i in 0..n {
        let k = key(mask, ids).tagged(1 + i as u8);
        let c = sym_u8();
        let o = (k, c & 1 == 0, c & 2 == 0);
        let (p, t) = oracle(&ops, &k);
        let size = m.size();
        if o.1 {
            match m.insert(k, o.2) {
                Ok((m2, r, prev)) => {
                    check(o.2 | !p, 1);
                    let f = m2.find(&k);
                    check(f.map_or(false, |x| core::ptr::eq(x, r) & same(x, &k) & (x.tag == k.tag)), 2);
                    match prev { Some(x) => check(p & same(x, &k) & (x.tag == t), 3), None => check(!p, 4) }
                    check(m2.size() == size + (!p) as usize, 5);
                    m = m2;
                },
                Err(x) => check(!o.2 & p & same(x, &k) & (x.tag == t), 6),
            }
        }
        else {
            match m.remove(&k) {
                Ok((m2, x)) => { check(p & same(x, &k) & (x.tag == t), 7); check(m2.size() + 1 == size, 8); m = m2 },
                Err(_) => check(!p, 9),
            }
        }
        ops.push(o);
    }
    let q = key(mask, ids);
    let (p, t) = oracle(&ops, &q);
    match m.find(&q) { Ok(k) => { out(k.tag as u64); check(p & same(k, &q) & (k.tag == t), 10) }, Err(_) => check(!p, 11) }
    match m.find(&L::from(q)) { Ok(k) => check(p & same(k, &q), 12), Err(_) => check(!p, 13) }
    let s = Seen::new();
    m.visit(|k| s.note(k.tag, (k.tag as usize) <= n && k.tag > 0 && same(k, &ops[k.tag as usize - 1].0)));
    let mut exp = 0u64;
    for o in &ops { let (p, t) = oracle(&ops, &o.0); exp |= sel(p & (t == o.0.tag), 1 << o.0.tag, 0); }
    out(s.bits.get());
    check((s.bits.get() == exp) & !s.bad.get() & (m.size() as u64 == s.n.get()), 14);
    reach(1);
}

#[cfg(feature = "set")]
/// Any key type that hashes and compares like the stored one finds, inserts and removes the same keys of a set.
#[no_mangle] pub extern "C" fn h_set_key() {
    let (n, mask, ids) = (param(0) as usize, param(1) as u8, param(2) as u8);
    let v = keys(n, mask, ids, false, 1);
    let mut m = T::new();
    conversions();
    for k in &v { match m.insert(C::of(k), false) { Ok((m2, ..)) => m = m2, Err(_) => check(false, 1) } }
    check((conversions() == n as u64) & (m.size() == n), 2);
    let k = key(mask, ids).tagged(50);
    let (mut p, mut t) = (false, 0u64);
    for x in &v { let s = same(x, &k); p |= s; t = sel(s, x.tag as u64, t); }
    let (l, c) = (L::from(k), C::of(&k));
    match (m.find(&l), m.find(&c)) {
        (Ok(x), Ok(y)) => check(p & core::ptr::eq(x, y) & same(x, &k) & (x.tag as u64 == t), 3),
        (Err(_), Err(_)) => check(!p, 4),
        _ => check(false, 5),
    }
    match m.insert(c, false) {
        Ok((m2, r, prev)) => check(!p & (conversions() == 1) & prev.is_none() & (m2.size() == n + 1) & m2.find(&l).map_or(false, |x| core::ptr::eq(x, r) & same(x, &k) & (x.tag == 50)), 6),
        Err(x) => check(p & (conversions() == 0) & same(x, &k) & (x.tag as u64 == t), 7),
    }
    match m.insert(c, true) {
        Ok((m2, r, prev)) => check((prev.map_or(false, |x| same(x, &k) & (x.tag as u64 == t)) == p) & (conversions() == 1) & (m2.size() == n + (!p) as usize) & m2.find(&k).map_or(false, |x| core::ptr::eq(x, r) & (x.tag == 50)), 8),
        Err(_) => check(false, 9),
    }
    match (m.remove(&l), m.remove(&c)) {
        (Ok((m2, x)), Ok((m3, y))) => check(p & core::ptr::eq(x, y) & same(x, &k) & (m2.size() + 1 == n) & (m3.size() + 1 == n) & m2.find(&c).is_err() & m3.find(&l).is_err(), 10),
        (Err(_), Err(_)) => check(!p, 11),
        _ => check(false, 12),
    }
    check(conversions() == 0, 13);
    for x in &v { check(m.find(&C::of(x)).map_or(false, |y| y.tag == x.tag), 14); }
    reach(1);
}

#[cfg(feature = "set")]
/// transform on a set: kept or dropped per key.
#[no_mangle] pub extern "C" fn h_set_transform() {
    let (n, mask, ids, fl) = (param(0) as usize, param(1) as u8, param(2) as u8, param(3));
    let v = keys(n, mask, ids, true, 1);
    let kind: Vec<u8> = (0..n).map(|_| below(2)).collect();
    let m = build_t(&v, fl & 2 != 0, mask, ids);
    let op = new_set_transform_generic(|k: &K| { let i = k.tag as usize - 1; check(i < n && same(k, &v[i]), 1); let r = once(1 << (4 * i)) as u64; if kind[i] == 0 { SetTransformResult::Unchanged(r) } else { SetTransformResult::Removed(r) } });
    calls();
    let (x, red) = block_on(m.transform(add, op, strat(fl & 1 != 0)));
    let ran = calls();
    let (mut er, mut eb, mut cnt, mut all) = (0u64, 0u64, 0u64, true);
    for i in 0..n { er += 1 << (4 * i); eb |= sel(kind[i] == 0, 1 << (1 + i), 0); cnt += (kind[i] == 0) as u64; all &= kind[i] == 0; }
    let s = Seen::new();
    x.visit(|k| s.note(k.tag, (k.tag as usize) <= n && same(k, &v[k.tag as usize - 1])));
    out(s.bits.get()); out(red);
    check((red == er) & (ran == er as R) & (s.bits.get() == eb) & !s.bad.get() & (x.size() as u64 == cnt), 2);
    for i in 0..n { check(x.find(&v[i]).is_ok() == (kind[i] == 0), 3); check(m.find(&v[i]).is_ok(), 4); }
    check(((x == m) == all) | (n == 0), 5);
    // constants
    let (a, _) = block_on(m.transform(add, new_set_transform_unchanged(1u64), strat(false)));
    let (b, _) = block_on(m.transform(add, new_set_transform_removed(1u64), strat(false)));
    check((a == m) & (b.size() == 0), 6);
    for k in &v { check(a.find(k).is_ok() & b.find(k).is_err(), 7); }
    reach(1);
}

#[cfg(feature = "set")]
/// transmute on a set: each key takes its new type or is dropped.
#[no_mangle] pub extern "C" fn h_set_transmute() {
    let (n, mask, ids, fl) = (param(0) as usize, param(1) as u8, param(2) as u8, param(3));
    let v = keys(n, mask, ids, true, 1);
    let kind: Vec<u8> = (0..n).map(|_| below(2)).collect();
    let m = build_t(&v, fl & 2 != 0, mask, ids);
    let op = new_set_transmute_generic(|k: &K| { let i = k.tag as usize - 1; check(i < n && same(k, &v[i]), 1); let r = once(1 << (4 * i)) as u64; if kind[i] == 0 { SetTransmuteResult::Transmuted(S::from(k.tagged(k.tag + 20)), r) } else { SetTransmuteResult::Removed(r) } });
    calls();
    let (x, red): (TS, u64) = unsafe { m.transmute(add, op) };
    let ran = calls();
    let (mut er, mut eb, mut cnt) = (0u64, 0u64, 0u64);
    for i in 0..n { er += 1 << (4 * i); eb |= sel(kind[i] == 0, 1 << (21 + i), 0); cnt += (kind[i] == 0) as u64; }
    let s = Seen::new();
    x.visit(|k| s.note(k.tag, k.tag > 20 && (k.tag as usize - 20) <= n && K::from(*k) == v[k.tag as usize - 21]));
    out(s.bits.get()); out(red);
    check((red == er) & (ran == er as R) & (s.bits.get() == eb) & !s.bad.get() & (x.size() as u64 == cnt), 2);
    for i in 0..n { check(x.find(&v[i]).is_ok() == (kind[i] == 0), 3); check(m.find(&v[i]).is_ok(), 4); }
    let (y, _): (TS, u64) = unsafe { m.transmute(add, new_set_transmute_removed(1u64)) };
    check(y.size() == 0, 5);
    reach(1);
}

#[cfg(feature = "setj")]
struct Pre { n: usize, m: usize, mask: u8, ids: u8, par: bool, gl: bool, gr: bool, l: Vec<K>, r: Vec<K>, e: [[bool; 8]; 8], lk: [u8; 8], rk: [u8; 8], bk: [u8; 8], own: u64, sh: [bool; 8] }
#[cfg(feature = "setj")]
/// Decisions. One side: 0 keep, 1 change type, 2 drop. Both: 0 keep either, 1 keep left, 2 keep right, 3 change type, 4 drop.
fn pre(l: [u8; 2], r: [u8; 2], b: &[u8]) -> Pre {
    calls();
    let (n, m, mask, ids, fl) = (param(0) as usize, param(1) as usize, param(2) as u8, param(3) as u8, param(4));
    let (lv, rv) = (keys(n, mask, ids, true, 1), keys(m, mask, ids, true, 11));
    let mut p = Pre { n, m, mask, ids, par: fl & 1 != 0, gl: fl & 2 != 0, gr: fl & 4 != 0, l: lv, r: rv, e: [[false; 8]; 8], lk: [0; 8], rk: [0; 8], bk: [0; 8], own: fl & 96, sh: [false; 8] };
    for i in 0..n { for j in 0..m { p.e[i][j] = same(&p.l[i], &p.r[j]); } }
    let pick = |o: &[u8]| { let c = below(o.len() as u8); let mut x = 0u64; for (i, v) in o.iter().enumerate() { x = sel(c == i as u8, *v as u64, x); } x as u8 };
    for i in 0..n { p.lk[i] = pick(&l); p.bk[i] = pick(b); }
    for j in 0..m { p.rk[j] = pick(&r); }
    if p.own & 32 != 0 { for j in 0..m { p.sh[j] = (sym_u8() & 1 == 0) & p.pr(j); } }
    p
}
#[cfg(feature = "setj")]
impl Pre {
    fn pl(&self, i: usize) -> bool { let mut x = false; for j in 0..self.m { x |= self.e[i][j]; } x }
    fn pr(&self, j: usize) -> bool { let mut x = false; for i in 0..self.n { x |= self.e[i][j]; } x }
    fn left(&self, h: u8, id: u8, tag: u8) -> (usize, R) { let i = (tag as usize).wrapping_sub(1); check(i < self.n && (h == self.l[i].h) & (id == self.l[i].id) & !self.pl(i), 10); (i, once(1 << (4 * i))) }
    fn right(&self, h: u8, id: u8, tag: u8) -> (usize, R) { let j = (tag as usize).wrapping_sub(11); check(j < self.m && (h == self.r[j].h) & (id == self.r[j].id) & !self.pr(j), 11); (j, once(1 << (4 * (8 + j)))) }
    fn both(&self, a: (u8, u8, u8), b: (u8, u8, u8)) -> (usize, R) {
        let (i, mut j) = ((a.2 as usize).wrapping_sub(1), (b.2 as usize).wrapping_sub(11));
        if self.own != 0 {
            if b.2 < 11 { j = 99; for x in 0..self.m { if self.sh[x] & self.e[(b.2 as usize).wrapping_sub(1) & 7][x] { j = x } } }
            else { check(j < self.m && !self.sh[j], 17) }
        }
        check(i < self.n && j < self.m && (a.0 == self.l[i].h) & (a.1 == self.l[i].id) & (b.0 == self.r[j].h) & (b.1 == self.r[j].id) & self.e[i][j], 12);
        (i, once((1 << (4 * (16 + i))) + (1 << (4 * (24 + j)))))
    }
    /// The right set: built on its own, or a version of the left one that shares some of their common keys with it.
    fn right_of(&self, l: &T) -> T {
        if self.own == 0 { return build_t(&self.r, self.gr, self.mask, self.ids) }
        let mut m = l.clone();
        for step in 0..2 {
            if (step == 0) == (self.own & 64 == 0) { for i in 0..self.n { if !self.pl(i) { match m.remove(&self.l[i]) { Ok((x, ..)) => m = x, Err(_) => check(false, 15) } } } }
            else { for j in 0..self.m { if !self.sh[j] { match m.insert(self.r[j], true) { Ok((x, ..)) => m = x, Err(_) => check(false, 16) } } } }
        }
        m
    }
    /// Every operation was called once where it should be, and every contribution counted once.
    fn reduced(&self, red: R) { let x = self.red(); check(red == x, 13); check(calls() == x, 18) }
    fn red(&self) -> R {
        let mut x: R = 0;
        for i in 0..self.n { x = x.wrapping_add(selr(self.pl(i), 0, 1 << (4 * i))); }
        for j in 0..self.m { x = x.wrapping_add(selr(self.pr(j), 0, 1 << (4 * (8 + j)))); }
        for i in 0..self.n { for j in 0..self.m { x = x.wrapping_add(selr(self.e[i][j], (1 << (4 * (16 + i))) + (1 << (4 * (24 + j))), 0)); } }
        x
    }
    /// Bits by tag (left 1+i, right 11+j), 20 more where the key changed type; a changed pair counts as left.
    fn expect(&self) -> (u64, u64) {
        let (mut b, mut n) = (0u64, 0u64);
        for i in 0..self.n {
            let p = self.pl(i);
            b |= sel(!p & (self.lk[i] == 0) | p & (self.bk[i] <= 1), 1 << (1 + i), 0) | sel(!p & (self.lk[i] == 1) | p & (self.bk[i] == 3), 1 << (21 + i), 0);
            n += (!p & (self.lk[i] != 2) | p & (self.bk[i] != 4)) as u64;
            for j in 0..self.m { b |= sel(self.e[i][j] & (self.bk[i] == 2), sel(self.sh[j], 1 << (1 + i), 1 << (11 + j)), 0); }
        }
        for j in 0..self.m { let p = self.pr(j); b |= sel(!p & (self.rk[j] == 0), 1 << (11 + j), 0) | sel(!p & (self.rk[j] == 1), 1 << (31 + j), 0); n += (!p & (self.rk[j] != 2)) as u64; }
        (b, n)
    }
    fn fold(&self, seen: u64) -> (u64, bool) {
        let (mut s, mut bad) = (seen, false);
        for i in 0..self.n { for j in 0..self.m {
            let has = self.e[i][j] & (self.bk[i] == 0) & !self.sh[j] & (seen >> (11 + j) & 1 == 1);
            bad |= has & (seen >> (1 + i) & 1 == 1);
            s = sel(has, (s & !(1 << (11 + j))) | 1 << (1 + i), s);
        } }
        (s, bad)
    }
    fn of(&self, tag: u8) -> Option<K> {
        let t = (tag % 20) as usize;
        if t >= 11 { if t - 11 < self.m { Some(self.r[t - 11]) } else { None } } else if t >= 1 && t - 1 < self.n { Some(self.l[t - 1]) } else { None }
    }
}
#[cfg(feature = "setj")]
macro_rules! verify { ($p:expr, $x:expr) => {{
    let (p, x) = (&$p, &$x);
    let s = Seen::new();
    x.visit(|k| s.note(k.tag, match p.of(k.tag) { Some(o) => (o.h == k.h) & (o.id == k.id), None => false }));
    let (b, bad) = p.fold(s.bits.get());
    let (eb, en) = p.expect();
    out(s.bits.get());
    check((b == eb) & !bad & !s.bad.get(), 20);
    check(x.size() as u64 == en, 21);
    for i in 0..p.n { let q = p.pl(i); check(x.find(&p.l[i]).is_ok() == (!q & (p.lk[i] != 2) | q & (p.bk[i] != 4)), 22); }
    for j in 0..p.m { let mut drop = !p.pr(j) & (p.rk[j] == 2); for i in 0..p.n { drop |= p.e[i][j] & (p.bk[i] == 4); } check(x.find(&p.r[j]).is_ok() == !drop, 23); }
}} }
#[cfg(feature = "setj")]
macro_rules! id { ($k:expr) => { ($k.h, $k.id, $k.tag) } }

#[cfg(feature = "setj")]
#[no_mangle] pub extern "C" fn h_set_tt() {
    let p = pre([0, 2], [0, 2], &[0, 1, 2, 4]);
    let lm = build_t(&p.l, p.gl, p.mask, p.ids);
    let rm = p.right_of(&lm);
    let b = new_set_joint_transform_generic(|k: &K, l: &K| { let (i, r) = p.both(id!(k), id!(l)); match p.bk[i] { 0 => SetJointTransformResult::UnchangedLR(r), 1 => SetJointTransformResult::UnchangedL(r), 2 => SetJointTransformResult::UnchangedR(r), _ => SetJointTransformResult::Removed(r) } });
    let l = new_set_transform_generic(|k: &K| { let (i, r) = p.left(k.h, k.id, k.tag); if p.lk[i] == 0 { SetTransformResult::Unchanged(r) } else { SetTransformResult::Removed(r) } });
    let r = new_set_transform_generic(|k: &K| { let (j, r) = p.right(k.h, k.id, k.tag); if p.rk[j] == 0 { SetTransformResult::Unchanged(r) } else { SetTransformResult::Removed(r) } });
    let (x, red) = block_on(lm.transform_with_transformed(&rm, addr, b, l, r, strat(p.par)));
    outr(red);
    p.reduced(red);
    verify!(p, x);
    check((lm.size() == p.n) & (rm.size() == p.m), 14);
    reach(1);
}
/// The same, the joint operation given the other way round and flipped.
#[cfg(feature = "setj")]
#[no_mangle] pub extern "C" fn h_set_tt_flip() {
    let p = pre([0, 2], [0, 2], &[0, 1, 2, 4]);
    let lm = build_t(&p.l, p.gl, p.mask, p.ids);
    let rm = p.right_of(&lm);
    let b = new_set_joint_transform_generic(|l: &K, k: &K| { let (i, r) = p.both(id!(k), id!(l)); match p.bk[i] { 0 => SetJointTransformResult::UnchangedLR(r), 1 => SetJointTransformResult::UnchangedR(r), 2 => SetJointTransformResult::UnchangedL(r), _ => SetJointTransformResult::Removed(r) } }).flip();
    let l = new_set_transform_generic(|k: &K| { let (i, r) = p.left(k.h, k.id, k.tag); if p.lk[i] == 0 { SetTransformResult::Unchanged(r) } else { SetTransformResult::Removed(r) } });
    let r = new_set_transform_generic(|k: &K| { let (j, r) = p.right(k.h, k.id, k.tag); if p.rk[j] == 0 { SetTransformResult::Unchanged(r) } else { SetTransformResult::Removed(r) } });
    let (x, red) = block_on(lm.transform_with_transformed(&rm, addr, b, l, r, strat(p.par)));
    outr(red);
    p.reduced(red);
    verify!(p, x);
    check((lm.size() == p.n) & (rm.size() == p.m), 14);
    reach(1);
}
#[cfg(feature = "setj")]
#[no_mangle] pub extern "C" fn h_set_tm() {
    let p = pre([0, 2], [1, 2], &[1, 4]);
    let (lm, rm) = (build_t(&p.l, p.gl, p.mask, p.ids), build_tl(&p.r, p.gr, p.mask, p.ids));
    let b = new_set_transform_transmute_generic(|k: &K, l: &L| { let (i, r) = p.both(id!(k), id!(l)); if p.bk[i] == 1 { SetTransformResult::Unchanged(r) } else { SetTransformResult::Removed(r) } });
    let l = new_set_transform_generic(|k: &K| { let (i, r) = p.left(k.h, k.id, k.tag); if p.lk[i] == 0 { SetTransformResult::Unchanged(r) } else { SetTransformResult::Removed(r) } });
    let r = new_set_transmute_generic(|k: &L| { let (j, r) = p.right(k.h, k.id, k.tag); if p.rk[j] == 1 { SetTransmuteResult::Transmuted(K::from(k.tagged(k.tag + 20)), r) } else { SetTransmuteResult::Removed(r) } });
    let (x, red): (T, R) = block_on(unsafe { lm.transform_with_transmuted(&rm, addr, b, l, r, strat(p.par)) });
    outr(red);
    p.reduced(red);
    verify!(p, x);
    reach(1);
}
#[cfg(feature = "setj")]
#[no_mangle] pub extern "C" fn h_set_mt() {
    let p = pre([1, 2], [0, 2], &[2, 4]);
    let (lm, rm) = (build_t(&p.l, p.gl, p.mask, p.ids), build_tl(&p.r, p.gr, p.mask, p.ids));
    let b = new_set_transform_transmute_generic(|k: &K, l: &L| { let (i, r) = p.both(id!(k), id!(l)); if p.bk[i] == 2 { SetTransformResult::Unchanged(r) } else { SetTransformResult::Removed(r) } });
    let l = new_set_transmute_generic(|k: &K| { let (i, r) = p.left(k.h, k.id, k.tag); if p.lk[i] == 1 { SetTransmuteResult::Transmuted(L::from(k.tagged(k.tag + 20)), r) } else { SetTransmuteResult::Removed(r) } });
    let r = new_set_transform_generic(|k: &L| { let (j, r) = p.right(k.h, k.id, k.tag); if p.rk[j] == 0 { SetTransformResult::Unchanged(r) } else { SetTransformResult::Removed(r) } });
    let (x, red): (TL, R) = block_on(unsafe { lm.transmute_with_transformed(&rm, addr, b, l, r, strat(p.par)) });
    outr(red);
    p.reduced(red);
    verify!(p, x);
    reach(1);
}
#[cfg(feature = "setj")]
#[no_mangle] pub extern "C" fn h_set_mm() {
    let p = pre([1, 2], [1, 2], &[3, 4]);
    let (lm, rm) = (build_t(&p.l, p.gl, p.mask, p.ids), build_tl(&p.r, p.gr, p.mask, p.ids));
    let b = new_set_transmute_transmute_generic(|k: &K, l: &L| { let (i, r) = p.both(id!(k), id!(l)); if p.bk[i] == 3 { SetTransmuteResult::Transmuted(S::from(k.tagged(k.tag + 20)), r) } else { SetTransmuteResult::Removed(r) } });
    let l = new_set_transmute_generic(|k: &K| { let (i, r) = p.left(k.h, k.id, k.tag); if p.lk[i] == 1 { SetTransmuteResult::Transmuted(S::from(k.tagged(k.tag + 20)), r) } else { SetTransmuteResult::Removed(r) } });
    let r = new_set_transmute_generic(|k: &L| { let (j, r) = p.right(k.h, k.id, k.tag); if p.rk[j] == 1 { SetTransmuteResult::Transmuted(S::from(k.tagged(k.tag + 20)), r) } else { SetTransmuteResult::Removed(r) } });
    let (x, red): (TS, R) = unsafe { lm.transmute_with_transmuted(&rm, addr, b, l, r) };
    outr(red);
    p.reduced(red);
    verify!(p, x);
    reach(1);
}
/// The usual set algebra, from constant operations: p5 picks union, intersection, difference, symmetric difference,
/// each keeping the left (p6 = 0) or right (1) or either (2) copy of shared keys; p4 & 16: given flipped.
#[cfg(feature = "setj")]
#[no_mangle] pub extern "C" fn h_set_const() {
    let mut p = pre([0, 2], [0, 2], &[0, 1, 2, 4]);
    let (c, side) = (param(5), param(6));
    let (kl, kr, kb) = match c { 0 => (0, 0, 0), 1 => (2, 2, 0), 2 => (0, 2, 4), _ => (0, 0, 4) };
    let kb = if kb == 4 { 4 } else { match side { 0 => 1, 1 => 2, _ => 0 } };
    for i in 0..8 { p.lk[i] = kl; p.rk[i] = kr; p.bk[i] = kb; }
    let lm = build_t(&p.l, p.gl, p.mask, p.ids);
    let rm = p.right_of(&lm);
    let flip = param(4) & 16 != 0;
    let b = if flip { match kb { 0 => new_set_joint_transform_unchangedlr(1).flip(), 1 => new_set_joint_transform_unchangedr(1).flip(), 2 => new_set_joint_transform_unchangedl(1).flip(), _ => new_set_joint_transform_removed(1).flip() } }
        else { match kb { 0 => new_set_joint_transform_unchangedlr(1), 1 => new_set_joint_transform_unchangedl(1), 2 => new_set_joint_transform_unchangedr(1), _ => new_set_joint_transform_removed(1) } };
    let s = |k: u8| if k == 0 { new_set_transform_unchanged(1) } else { new_set_transform_removed(1) };
    let (x, _) = block_on(lm.transform_with_transformed(&rm, addr, b, s(kl), s(kr), strat(p.par)));
    verify!(p, x);
    reach(1);
}
