//! Two-map operations against a per-key oracle. Left entry i has value i, right entry j has value 8+j; changed
//! values are 16+i, 24+j and, where both sides have the key, 32+i.
use crate::{rt::*, types::*};
#[allow(unused_imports)]
use hash_trie::{results::*, transformations::*};
pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    #[cfg(feature = "tt")] ("h_tt", h_tt),
    #[cfg(feature = "tm")] ("h_tm", h_tm),
    #[cfg(feature = "mt")] ("h_mt", h_mt),
    #[cfg(feature = "mm")] ("h_mm", h_mm),
    #[cfg(feature = "own")] ("h_tm_own", h_tm_own),
    #[cfg(feature = "own")] ("h_mt_own", h_mt_own),
    #[cfg(feature = "own")] ("h_mm_own", h_mm_own),
    #[cfg(feature = "fut")] ("h_tf", h_tf),
    #[cfg(feature = "fut")] ("h_ft", h_ft),
    #[cfg(feature = "ttc")] ("h_tt_const", h_tt_const),
    #[cfg(feature = "tmc")] ("h_tm_const", h_tm_const),
    #[cfg(feature = "mtc")] ("h_mt_const", h_mt_const),
    #[cfg(feature = "mmc")] ("h_mm_const", h_mm_const),
    #[cfg(feature = "jpar")] ("h_par", h_par),
    #[cfg(feature = "jeq")] ("h_tt_eq", h_tt_eq),
    #[cfg(feature = "jthen")] ("h_then", h_then),
    #[cfg(feature = "ttf")] ("h_tt_flip", h_tt_flip),
    #[cfg(feature = "tta")] ("h_tt_after", h_tt_after),
    #[cfg(feature = "tma")] ("h_tm_after", h_tm_after),
    #[cfg(feature = "mta")] ("h_mt_after", h_mt_after),
    #[cfg(feature = "mma")] ("h_mm_after", h_mm_after),
];

pub struct Pre { n: usize, m: usize, mask: u8, ids: u8, par: bool, gl: bool, gr: bool, l: Vec<K>, r: Vec<K>, e: [[bool; 8]; 8], lk: [u8; 8], rk: [u8; 8], bk: [u8; 8], own: u64, sh: [bool; 8] }
/// p0/p1 entries left/right, p2 hash mask, p3 id mask, p4 flags (1: middle-index, 2/4: ghost entry left/right,
/// 32: the right map is a version of the left one that shares entries with it, 64: the other way of making it).
/// lo/hi bound the per-entry decisions of left, right and both.
fn pre(l: (u8, u8), r: (u8, u8), b: (u8, u8)) -> Pre {
    calls();
    let (n, m, mask, ids, fl) = (param(0) as usize, param(1) as usize, param(2) as u8, param(3) as u8, param(4));
    let (lv, rv) = (keys(n, mask, ids, true, 1), keys(m, mask, ids, true, 11));
    let mut p = Pre { n, m, mask, ids, par: fl & 1 != 0, gl: fl & 2 != 0, gr: fl & 4 != 0, l: lv, r: rv, e: [[false; 8]; 8], lk: [0; 8], rk: [0; 8], bk: [0; 8], own: fl & 96, sh: [false; 8] };
    for i in 0..n { for j in 0..m { p.e[i][j] = same(&p.l[i], &p.r[j]); } }
    for i in 0..n { p.lk[i] = l.0 + below(l.1); p.bk[i] = b.0 + below(b.1); }
    for j in 0..m { p.rk[j] = r.0 + below(r.1); }
    if p.own & 32 != 0 { for j in 0..m { p.sh[j] = (sym_u8() & 1 == 0) & p.paired_r(j); } }
    p
}
/// Decisions. For one side: 0 keep, 1 change, 2 drop. For both: 0 keep either, 1 keep left, 2 keep right, 3 change, 4 drop.
impl Pre {
    fn paired_l(&self, i: usize) -> bool { let mut x = false; for j in 0..self.m { x |= self.e[i][j]; } x }
    fn paired_r(&self, j: usize) -> bool { let mut x = false; for i in 0..self.n { x |= self.e[i][j]; } x }
    /// (values that must be there, values that may stand for bit i because both sides may be kept)
    fn expect(&self) -> u64 {
        let mut bits = 0u64;
        for i in 0..self.n {
            let p = self.paired_l(i);
            bits |= sel(!p & (self.lk[i] == 0) | p & (self.bk[i] <= 1), 1 << i, 0);
            bits |= sel(!p & (self.lk[i] == 1), 1 << (16 + i), 0);
            bits |= sel(p & (self.bk[i] == 3), 1 << (32 + i), 0);
            for j in 0..self.m { bits |= sel(self.e[i][j] & (self.bk[i] == 2), sel(self.sh[j], 1 << i, 1 << (8 + j)), 0); }
        }
        for j in 0..self.m {
            let p = self.paired_r(j);
            bits |= sel(!p & (self.rk[j] == 0), 1 << (8 + j), 0) | sel(!p & (self.rk[j] == 1), 1 << (24 + j), 0);
        }
        bits
    }
    /// Where both sides may be kept, fold the right value onto the left one; both at once is an error.
    fn fold(&self, seen: u64) -> (u64, bool) {
        let (mut s, mut bad) = (seen, false);
        for i in 0..self.n { for j in 0..self.m {
            let c = self.e[i][j] & (self.bk[i] == 0) & !self.sh[j];
            let has = c & (seen >> (8 + j) & 1 == 1);
            bad |= has & (seen >> i & 1 == 1);
            s = sel(has, (s & !(1 << (8 + j))) | 1 << i, s);
        } }
        (s, bad)
    }
    fn count(&self) -> u64 {
        let mut n = 0u64;
        for i in 0..self.n { let p = self.paired_l(i); n += (!p & (self.lk[i] != 2) | p & (self.bk[i] != 4)) as u64; }
        for j in 0..self.m { n += (!self.paired_r(j) & (self.rk[j] != 2)) as u64; }
        n
    }
    /// Every operation was called once where it should be, and every contribution counted once.
    fn reduced(&self, red: R) { let x = self.red(); check(red == x, 13); check(calls() == x, 18) }
    fn red(&self) -> R {
        let mut x: R = 0;
        for i in 0..self.n { x = x.wrapping_add(selr(self.paired_l(i), 0, 1 << (4 * i))); }
        for j in 0..self.m { x = x.wrapping_add(selr(self.paired_r(j), 0, 1 << (4 * (8 + j)))); }
        for i in 0..self.n { for j in 0..self.m { x = x.wrapping_add(selr(self.e[i][j], (1 << (4 * (16 + i))) + (1 << (4 * (24 + j))), 0)); } }
        x
    }
    /// The key a value belongs to, and whether its tag (the copy of the key that was kept) is settled.
    fn of(&self, v: u8) -> (bool, K, bool) {
        let none = (false, K::default(), false);
        let (c, x) = (v / 8, (v % 8) as usize);
        match c {
            0 | 2 => if x < self.n { (true, self.l[x], true) } else { none },
            1 | 3 => if x < self.m { (true, self.r[x], true) } else { none },
            4 => if x < self.n { (true, self.l[x], false) } else { none },
            _ => none,
        }
    }
    fn left(&self, k: (u8, u8), v: u8) -> R { let i = v as usize; check(i < self.n && (k.0 == self.l[i].h) & (k.1 == self.l[i].id) & !self.paired_l(i), 10); once(1 << (4 * i)) }
    fn right(&self, k: (u8, u8), v: u8) -> R { let j = v as usize - 8; check(j < self.m && (k.0 == self.r[j].h) & (k.1 == self.r[j].id) & !self.paired_r(j), 11); once(1 << (4 * (8 + j))) }
    fn both(&self, k: (u8, u8), v: u8, l: (u8, u8), w: u8) -> R {
        let (i, j) = (v as usize, self.jof(w));
        check(i < self.n && j < self.m && (k.0 == self.l[i].h) & (k.1 == self.l[i].id) & (l.0 == self.r[j].h) & (l.1 == self.r[j].id) & self.e[i][j], 12);
        once((1 << (4 * (16 + i))) + (1 << (4 * (24 + j))))
    }
    /// Which right entry a value on the right belongs to (an entry shared with the left map has the value it has there).
    fn jof(&self, w: u8) -> usize {
        if self.own == 0 { return w as usize - 8 }
        let mut j = 99;
        if w >= 8 { j = w as usize - 8; check(j < self.m && !self.sh[j], 14) }
        else { for x in 0..self.m { if self.sh[x] & self.e[w as usize & 7][x] { j = x } } }
        j
    }
    /// The right map, made from the left one: what only the left has is removed, what is not shared inserted.
    fn version(&self, l: &M) -> M {
        let mut m = l.clone();
        for step in 0..2 {
            if (step == 0) == (self.own & 64 == 0) { for i in 0..self.n { if !self.paired_l(i) { match m.remove(&self.l[i]) { Ok((x, ..)) => m = x, Err(_) => check(false, 15) } } } }
            else { for j in 0..self.m { if !self.sh[j] { match m.insert(self.r[j], 8 + j as u8, true) { Ok((x, ..)) => m = x, Err(_) => check(false, 16) } } } }
        }
        m
    }
    fn build(&self) -> (M, M) { if self.own != 0 { let l = build(&self.l, 0, self.gl, self.mask, self.ids); let r = self.version(&l); (l, r) } else { self.build_apart() } }
    fn build_apart(&self) -> (M, M) { (build(&self.l, 0, self.gl, self.mask, self.ids), build(&self.r, 8, self.gr, self.mask, self.ids)) }
    fn build_kl(&self) -> (M, ML) { (build(&self.l, 0, self.gl, self.mask, self.ids), build_l(&self.r, 8, self.gr, self.mask, self.ids)) }
}
/// `$tl`/`$tr`/`$tb` are added to the tag of keys that a left/right/both transmutation produced.
macro_rules! verify { ($p:expr, $m:expr, $tl:expr, $tr:expr, $tb:expr) => {{
    let (p, m) = (&$p, &$m);
    let s = Seen::new();
    m.visit(|k, v| {
        let (ok, x, tagged) = p.of(*v);
        let t = x.tag + match *v / 8 { 2 => $tl, 3 => $tr, 4 => $tb, _ => 0 };
        s.note(*v, ok && (k.h == x.h) & (k.id == x.id) & (!tagged | (k.tag == t)));
    });
    let (bits, bad) = p.fold(s.bits.get());
    out(s.bits.get());
    check((bits == p.expect()) & !bad & !s.bad.get(), 20);
    check(m.size() as u64 == p.count(), 21);
    let seen = s.bits.get();
    for i in 0..p.n {
        match m.find(&p.l[i]) {
            Ok((k, v)) => check((k.h == p.l[i].h) & (k.id == p.l[i].id) & (1u64.wrapping_shl(*v as u32) & seen != 0), 22),
            Err(_) => { let q = p.paired_l(i); check(!q & (p.lk[i] == 2) | q & (p.bk[i] == 4), 23) },
        }
    }
    for j in 0..p.m {
        match m.find(&p.r[j]) {
            Ok((k, v)) => check((k.h == p.r[j].h) & (k.id == p.r[j].id) & (1u64.wrapping_shl(*v as u32) & seen != 0), 24),
            Err(_) => { let mut drop = !p.paired_r(j) & (p.rk[j] == 2); for i in 0..p.n { drop |= p.e[i][j] & (p.bk[i] == 4); } check(drop, 25) },
        }
    }
}} }
macro_rules! originals { ($p:expr, $l:expr, $r:expr) => {{
    let p = &$p;
    let (a, b) = (Seen::new(), Seen::new());
    $l.visit(|k, v| { let (ok, x, _) = p.of(*v); a.note(*v, ok && (k.h == x.h) & (k.id == x.id)) });
    $r.visit(|k, v| { let (ok, x, _) = p.of(*v); b.note(*v, ok && (k.h == x.h) & (k.id == x.id)) });
    let mut er = ((1u64 << p.m) - 1) << 8;
    for j in 0..p.m { for i in 0..p.n { er = sel(p.sh[j] & p.e[i][j], er & !(1 << (8 + j)) | 1 << i, er); } }
    check((a.bits.get() == (1u64 << p.n) - 1) & (b.bits.get() == er) & !a.bad.get() & !b.bad.get(), 30);
    check(($l.size() == p.n) & ($r.size() == p.m), 31);
}} }
macro_rules! hi { ($k:expr) => { ($k.h, $k.id) } }

macro_rules! tt_ops { ($p:expr) => { (
    new_map_joint_transform_generic(|k: &K, v: &u8, l: &K, w: &u8| { let r = $p.both(hi!(k), *v, hi!(l), *w); match $p.bk[*v as usize] {
        0 => MapJointTransformResult::UnchangedLR(r), 1 => MapJointTransformResult::UnchangedL(r), 2 => MapJointTransformResult::UnchangedR(r),
        3 => MapJointTransformResult::Transformed(32 + *v, r), _ => MapJointTransformResult::Removed(r) } }),
    new_map_transform_generic(|k: &K, v: &u8| { let r = $p.left(hi!(k), *v); match $p.lk[*v as usize] { 0 => MapTransformResult::Unchanged(r), 1 => MapTransformResult::Transformed(16 + *v, r), _ => MapTransformResult::Removed(r) } }),
    new_map_transform_generic(|k: &K, v: &u8| { let r = $p.right(hi!(k), *v); match $p.rk[*v as usize - 8] { 0 => MapTransformResult::Unchanged(r), 1 => MapTransformResult::Transformed(16 + *v, r), _ => MapTransformResult::Removed(r) } }),
) } }

/// transform_with_transformed.
#[cfg(feature = "tt")]
#[no_mangle] pub extern "C" fn h_tt() {
    let p = pre((0, 3), (0, 3), (0, 5));
    let (lm, rm) = p.build();
    let (b, l, r) = tt_ops!(p);
    let (x, red) = block_on(lm.transform_with_transformed(&rm, addr, b, l, r, strat(p.par)));
    outr(red);
    p.reduced(red);
    verify!(p, x, 0, 0, 0);
    originals!(p, lm, rm);
    reach(1);
}

/// The same, the joint operation given the other way round and flipped.
#[cfg(feature = "ttf")]
#[no_mangle] pub extern "C" fn h_tt_flip() {
    let p = pre((0, 3), (0, 3), (0, 5));
    let (lm, rm) = p.build();
    let (_, l, r) = tt_ops!(p);
    let b = new_map_joint_transform_generic(|l: &K, w: &u8, k: &K, v: &u8| { let r = p.both(hi!(k), *v, hi!(l), *w); match p.bk[*v as usize] {
        0 => MapJointTransformResult::UnchangedLR(r), 1 => MapJointTransformResult::UnchangedR(r), 2 => MapJointTransformResult::UnchangedL(r),
        3 => MapJointTransformResult::Transformed(32 + *v, r), _ => MapJointTransformResult::Removed(r) } }).flip();
    let (x, red) = block_on(lm.transform_with_transformed(&rm, addr, b, l, r, strat(p.par)));
    outr(red);
    p.reduced(red);
    verify!(p, x, 0, 0, 0);
    originals!(p, lm, rm);
    reach(1);
}

macro_rules! one { ($k:expr, $r:expr, $v:expr) => { match $k { 0 => MapTransformResult::Unchanged($r), 1 => MapTransformResult::Transformed($v, $r), _ => MapTransformResult::Removed($r) } } }
macro_rules! mut1 { ($k:expr, $r:expr, $key:expr, $v:expr) => { if $k == 1 { MapTransmuteResult::Transmuted($key, $v, $r) } else { MapTransmuteResult::Removed($r) } } }
macro_rules! fut1 { ($k:expr, $r:expr, $v:expr) => { if $k == 1 { SetTransmuteResult::Transmuted($v, $r) } else { SetTransmuteResult::Removed($r) } } }
/// Both-decisions of the transmuting operations: 1 or 2 (keep the transformed side), 3 change, 4 drop.
macro_rules! bot { ($k:expr, $r:expr, $v:expr) => { match $k { 1 | 2 => MapTransformResult::Unchanged($r), 3 => MapTransformResult::Transformed($v, $r), _ => MapTransformResult::Removed($r) } } }

macro_rules! tm_ops { ($p:expr) => { tm_ops!($p, L) }; ($p:expr, $L:ty) => { (
    new_map_transform_transmute_generic(|k: &K, v: &u8, l: &$L, w: &u8| { let r = $p.both(hi!(k), *v, hi!(l), *w); bot!($p.bk[*v as usize], r, 32 + *v) }),
    new_map_transform_generic(|k: &K, v: &u8| { let r = $p.left(hi!(k), *v); one!($p.lk[*v as usize], r, 16 + *v) }),
    new_map_transmute_generic(|k: &$L, v: &u8| { let r = $p.right(hi!(k), *v); mut1!($p.rk[*v as usize - 8], r, K::from(k.tagged(k.tag + 100)), 16 + *v) }),
) } }
/// The kept side is left (1) where `keep` is 1 and right (2) where it is 2: skip the unused decision.
fn keep(p: &mut Pre, k: u8) { for i in 0..p.n { p.bk[i] = sel(p.bk[i] == 2, k as u64, p.bk[i] as u64) as u8; } }

/// transform_with_transmuted.
#[cfg(feature = "tm")]
#[no_mangle] pub extern "C" fn h_tm() {
    let mut p = pre((0, 3), (1, 2), (2, 3));
    keep(&mut p, 1);
    let (lm, rm) = p.build_kl();
    let (b, l, r) = tm_ops!(p);
    let (x, red): (M, R) = block_on(unsafe { lm.transform_with_transmuted(&rm, addr, b, l, r, strat(p.par)) });
    outr(red);
    p.reduced(red);
    verify!(p, x, 0, 100, 0);
    originals!(p, lm, rm);
    reach(1);
}

macro_rules! mt_ops { ($p:expr) => { mt_ops!($p, L) }; ($p:expr, $L:ty) => { (
    new_map_transmute_transform_generic(|k: &K, v: &u8, l: &$L, w: &u8| { let r = $p.both(hi!(k), *v, hi!(l), *w); bot!($p.bk[*v as usize], r, 32 + *v) }),
    new_map_transmute_generic(|k: &K, v: &u8| { let r = $p.left(hi!(k), *v); mut1!($p.lk[*v as usize], r, <$L>::from(k.tagged(k.tag + 100)), 16 + *v) }),
    new_map_transform_generic(|k: &$L, v: &u8| { let r = $p.right(hi!(k), *v); one!($p.rk[*v as usize - 8], r, 16 + *v) }),
) } }
/// transmute_with_transformed.
#[cfg(feature = "mt")]
#[no_mangle] pub extern "C" fn h_mt() {
    let mut p = pre((1, 2), (0, 3), (2, 3));
    keep(&mut p, 2);
    let (lm, rm) = p.build_kl();
    let (b, l, r) = mt_ops!(p);
    let (x, red): (ML, R) = block_on(unsafe { lm.transmute_with_transformed(&rm, addr, b, l, r, strat(p.par)) });
    outr(red);
    p.reduced(red);
    verify!(p, x, 100, 0, 0);
    originals!(p, lm, rm);
    reach(1);
}

macro_rules! mm_ops { ($p:expr) => { mm_ops!($p, L) }; ($p:expr, $L:ty) => { (
    new_map_transmute_transmute_generic(|k: &K, v: &u8, l: &$L, w: &u8| { let r = $p.both(hi!(k), *v, hi!(l), *w); if $p.bk[*v as usize] == 3 { MapTransmuteResult::Transmuted(S::from(k.tagged(k.tag + 100)), 32 + *v, r) } else { MapTransmuteResult::Removed(r) } }),
    new_map_transmute_generic(|k: &K, v: &u8| { let r = $p.left(hi!(k), *v); mut1!($p.lk[*v as usize], r, S::from(k.tagged(k.tag + 100)), 16 + *v) }),
    new_map_transmute_generic(|k: &$L, v: &u8| { let r = $p.right(hi!(k), *v); mut1!($p.rk[*v as usize - 8], r, S::from(k.tagged(k.tag + 100)), 16 + *v) }),
) } }
/// transmute_with_transmuted.
#[cfg(feature = "mm")]
#[no_mangle] pub extern "C" fn h_mm() {
    let p = pre((1, 2), (1, 2), (3, 2));
    let (lm, rm) = p.build_kl();
    let (b, l, r) = mm_ops!(p);
    let (x, red): (MS, R) = unsafe { lm.transmute_with_transmuted(&rm, addr, b, l, r) };
    outr(red);
    p.reduced(red);
    verify!(p, x, 100, 100, 100);
    originals!(p, lm, rm);
    reach(1);
}

/// The transmuting operations on two maps of one type, which may then be versions of each other.
#[cfg(feature = "own")]
#[no_mangle] pub extern "C" fn h_tm_own() {
    let mut p = pre((0, 3), (1, 2), (2, 3));
    keep(&mut p, 1);
    let (lm, rm) = p.build();
    let (b, l, r) = tm_ops!(p, K);
    let (x, red): (M, R) = block_on(unsafe { lm.transform_with_transmuted(&rm, addr, b, l, r, strat(p.par)) });
    outr(red);
    p.reduced(red);
    verify!(p, x, 0, 100, 0);
    originals!(p, lm, rm);
    reach(1);
}
#[cfg(feature = "own")]
#[no_mangle] pub extern "C" fn h_mt_own() {
    let mut p = pre((1, 2), (0, 3), (2, 3));
    keep(&mut p, 2);
    let (lm, rm) = p.build();
    let (b, l, r) = mt_ops!(p, K);
    let (x, red): (M, R) = block_on(unsafe { lm.transmute_with_transformed(&rm, addr, b, l, r, strat(p.par)) });
    outr(red);
    p.reduced(red);
    verify!(p, x, 100, 0, 0);
    originals!(p, lm, rm);
    reach(1);
}
#[cfg(feature = "own")]
#[no_mangle] pub extern "C" fn h_mm_own() {
    let p = pre((1, 2), (1, 2), (3, 2));
    let (lm, rm) = p.build();
    let (b, l, r) = mm_ops!(p, K);
    let (x, red): (MS, R) = unsafe { lm.transmute_with_transmuted(&rm, addr, b, l, r) };
    outr(red);
    p.reduced(red);
    verify!(p, x, 100, 100, 100);
    originals!(p, lm, rm);
    reach(1);
}

/// transform_with_transfuted: the right map has the same key type, its values change type and its keys stay.
#[cfg(feature = "fut")]
#[no_mangle] pub extern "C" fn h_tf() {
    let mut p = pre((0, 3), (1, 2), (2, 3));
    keep(&mut p, 1);
    let (lm, rm) = p.build();
    let b = new_map_transform_transmute_generic(|k: &K, v: &u8, l: &K, w: &u8| { let r = p.both(hi!(k), *v, hi!(l), *w); bot!(p.bk[*v as usize], r, 32 + *v) });
    let l = new_map_transform_generic(|k: &K, v: &u8| { let r = p.left(hi!(k), *v); one!(p.lk[*v as usize], r, 16 + *v) });
    let r = |k: &K, v: &u8| { let r = p.right(hi!(k), *v); fut1!(p.rk[*v as usize - 8], r, 16 + *v) };
    let (x, red): (M, R) = block_on(lm.transform_with_transfuted(&rm, addr, b, l, SetTransmute::Generic(r), strat(p.par)));
    outr(red);
    p.reduced(red);
    verify!(p, x, 0, 0, 0);
    originals!(p, lm, rm);
    reach(1);
}

/// transfute_with_transformed.
#[cfg(feature = "fut")]
#[no_mangle] pub extern "C" fn h_ft() {
    let mut p = pre((1, 2), (0, 3), (2, 3));
    keep(&mut p, 2);
    let (lm, rm) = p.build();
    let b = new_map_transmute_transform_generic(|k: &K, v: &u8, l: &K, w: &u8| { let r = p.both(hi!(k), *v, hi!(l), *w); bot!(p.bk[*v as usize], r, 32 + *v) });
    let l = |k: &K, v: &u8| { let r = p.left(hi!(k), *v); fut1!(p.lk[*v as usize], r, 16 + *v) };
    let r = new_map_transform_generic(|k: &K, v: &u8| { let r = p.right(hi!(k), *v); one!(p.rk[*v as usize - 8], r, 16 + *v) });
    let (x, red): (M, R) = block_on(lm.transfute_with_transformed(&rm, addr, b, SetTransmute::Generic(l), r, strat(p.par)));
    outr(red);
    p.reduced(red);
    verify!(p, x, 0, 0, 0);
    originals!(p, lm, rm);
    reach(1);
}

type J = fn(&K, &u8, &K, &u8) -> MapJointTransformResult<u8, R>;
type X = fn(&K, &u8) -> MapTransformResult<u8, R>;
/// p5 selects which operations are constant (1 both, 2 left, 4 right); the symbolic decisions are then uniform.
fn uniform(p: &mut Pre, c: u64) {
    if c & 1 != 0 { for i in 1..p.n { p.bk[i] = p.bk[0]; } }
    if c & 2 != 0 { for i in 1..p.n { p.lk[i] = p.lk[0]; } }
    if c & 4 != 0 { for j in 1..p.m { p.rk[j] = p.rk[0]; } }
}
/// transform_with_transformed with constant operations (reductions may count a constant once per subtree).
#[cfg(feature = "ttc")]
#[no_mangle] pub extern "C" fn h_tt_const() {
    let mut p = pre((0, 3), (0, 3), (0, 5));
    let c = param(5);
    uniform(&mut p, c);
    assume((c & 1 == 0) | (p.bk[0] != 3));
    assume(((c & 2 == 0) | (p.lk[0] != 1)) & ((c & 4 == 0) | (p.rk[0] != 1)));
    let (lm, rm) = p.build();
    let (b, l, r) = tt_ops!(p);
    let (kb, kl, kr) = (p.bk[0], p.lk[0], p.rk[0]);
    macro_rules! go { ($b:expr, $l:expr, $r:expr) => { block_on(lm.transform_with_transformed(&rm, addr, $b, $l, $r, strat(p.par))).0 } }
    let bc = || -> MapJointTransform<R, J> { match kb { 0 => new_map_joint_transform_unchangedlr(1), 1 => new_map_joint_transform_unchangedl(1), 2 => new_map_joint_transform_unchangedr(1), _ => new_map_joint_transform_removed(1) } };
    let xc = |k: u8| -> MapTransform<R, X> { if k == 0 { new_map_transform_unchanged(1) } else { new_map_transform_removed(1) } };
    let x = match c { 0 => go!(b, l, r), 1 => go!(bc(), l, r), 2 => go!(b, xc(kl), r), 3 => go!(bc(), xc(kl), r), 4 => go!(b, l, xc(kr)), 5 => go!(bc(), l, xc(kr)), 6 => go!(b, xc(kl), xc(kr)), _ => go!(bc(), xc(kl), xc(kr)) };
    verify!(p, x, 0, 0, 0);
    originals!(p, lm, rm);
    reach(1);
}

macro_rules! by_const { ($c:expr, $go:ident, $b:expr, $l:expr, $r:expr, $bc:expr, $lc:expr, $rc:expr) => {
    match $c { 0 => $go!($b, $l, $r), 1 => $go!($bc, $l, $r), 2 => $go!($b, $lc, $r), 3 => $go!($bc, $lc, $r), 4 => $go!($b, $l, $rc), 5 => $go!($bc, $l, $rc), 6 => $go!($b, $lc, $rc), _ => $go!($bc, $lc, $rc) }
} }
#[cfg(feature = "tmc")]
#[no_mangle] pub extern "C" fn h_tm_const() {
    let mut p = pre((0, 3), (1, 2), (2, 3));
    keep(&mut p, 1);
    let c = param(5);
    uniform(&mut p, c);
    assume(((c & 1 == 0) | (p.bk[0] != 3)) & ((c & 2 == 0) | (p.lk[0] != 1)) & ((c & 4 == 0) | (p.rk[0] != 1)));
    let (lm, rm) = p.build_kl();
    let (b, l, r) = tm_ops!(p);
    let (kb, kl) = (p.bk[0], p.lk[0]);
    macro_rules! go { ($b:expr, $l:expr, $r:expr) => { { let x: (M, R) = block_on(unsafe { lm.transform_with_transmuted(&rm, addr, $b, $l, $r, strat(p.par)) }); x.0 } } }
    let x = by_const!(c, go, b, l, r, if kb == 1 { new_map_transform_transmute_unchanged(1) } else { new_map_transform_transmute_removed(1) }, if kl == 0 { new_map_transform_unchanged(1) } else { new_map_transform_removed(1) }, new_map_transmute_removed(1));
    verify!(p, x, 0, 100, 0);
    originals!(p, lm, rm);
    reach(1);
}
#[cfg(feature = "mtc")]
#[no_mangle] pub extern "C" fn h_mt_const() {
    let mut p = pre((1, 2), (0, 3), (2, 3));
    keep(&mut p, 2);
    let c = param(5);
    uniform(&mut p, c);
    assume(((c & 1 == 0) | (p.bk[0] != 3)) & ((c & 2 == 0) | (p.lk[0] != 1)) & ((c & 4 == 0) | (p.rk[0] != 1)));
    let (lm, rm) = p.build_kl();
    let (b, l, r) = mt_ops!(p);
    let (kb, kr) = (p.bk[0], p.rk[0]);
    macro_rules! go { ($b:expr, $l:expr, $r:expr) => { { let x: (ML, R) = block_on(unsafe { lm.transmute_with_transformed(&rm, addr, $b, $l, $r, strat(p.par)) }); x.0 } } }
    let x = by_const!(c, go, b, l, r, if kb == 2 { new_map_transmute_transform_unchanged(1) } else { new_map_transmute_transform_removed(1) }, new_map_transmute_removed(1), if kr == 0 { new_map_transform_unchanged(1) } else { new_map_transform_removed(1) });
    verify!(p, x, 100, 0, 0);
    originals!(p, lm, rm);
    reach(1);
}
#[cfg(feature = "mmc")]
#[no_mangle] pub extern "C" fn h_mm_const() {
    let mut p = pre((1, 2), (1, 2), (3, 2));
    let c = param(5);
    uniform(&mut p, c);
    assume(((c & 1 == 0) | (p.bk[0] != 3)) & ((c & 2 == 0) | (p.lk[0] != 1)) & ((c & 4 == 0) | (p.rk[0] != 1)));
    let (lm, rm) = p.build_kl();
    let (b, l, r) = mm_ops!(p);
    macro_rules! go { ($b:expr, $l:expr, $r:expr) => { { let x: (MS, R) = unsafe { lm.transmute_with_transmuted(&rm, addr, $b, $l, $r) }; x.0 } } }
    let x = by_const!(c, go, b, l, r, new_map_transmute_transmute_removed(1), new_map_transmute_removed(1), new_map_transmute_removed(1));
    verify!(p, x, 100, 100, 100);
    originals!(p, lm, rm);
    reach(1);
}

/// Both strategies give the same map and the same reduction.
#[cfg(feature = "jpar")]
#[no_mangle] pub extern "C" fn h_par() {
    let p = pre((0, 3), (0, 3), (0, 5));
    let (lm, rm) = p.build();
    let (b, l, r) = tt_ops!(p);
    let (x, rx) = block_on(lm.transform_with_transformed(&rm, addr, b.clone(), l.clone(), r.clone(), strat(false)));
    let (y, ry) = block_on(lm.transform_with_transformed(&rm, addr, b, l, r, strat(true)));
    outr(rx);
    check((rx == ry) & (rx == p.red()), 1);
    check(x.size() == y.size(), 2);
    let (a, c) = (Seen::new(), Seen::new());
    x.visit(|_, v| a.note(*v, true));
    y.visit(|k, v| c.note(*v, x.find(k).map_or(false, |(q, w)| same(q, k) & (*w == *v))));
    out(a.bits.get());
    check((a.bits.get() == c.bits.get()) & !a.bad.get() & !c.bad.get(), 3);
    // and for the one-map transform
    let p2 = &p;
    let op = new_map_transform_generic(|_: &K, v: &u8| { let r: R = 1 << (4 * *v as u32); match p2.lk[*v as usize] { 0 => MapTransformResult::Unchanged(r), 1 => MapTransformResult::Transformed(16 + *v, r), _ => MapTransformResult::Removed(r) } });
    let (x, rx) = block_on(lm.transform(addr, op.clone(), strat(false)));
    let (y, ry) = block_on(lm.transform(addr, op, strat(true)));
    check((rx == ry) & (x.size() == y.size()) & ((x == lm) == (y == lm)), 4);
    let (a, c) = (Seen::new(), Seen::new());
    x.visit(|_, v| a.note(*v, true));
    y.visit(|_, v| c.note(*v, true));
    check((a.bits.get() == c.bits.get()) & !a.bad.get() & !c.bad.get(), 5);
    reach(1);
}

/// A joint operation that keeps one whole side yields a collection equal to it, and never to a different one.
#[cfg(feature = "jeq")]
#[no_mangle] pub extern "C" fn h_tt_eq() {
    let p = pre((0, 3), (0, 3), (0, 5));
    let (lm, rm) = p.build();
    let (b, l, r) = tt_ops!(p);
    let (x, _) = block_on(lm.transform_with_transformed(&rm, addr, b, l, r, strat(p.par)));
    // exactly the left map's entries and values
    let mut is_l = true;
    for i in 0..p.n { let q = p.paired_l(i); let mut one = false; for j in 0..p.m { one |= p.e[i][j] & p.sh[j]; } is_l &= !q & (p.lk[i] == 0) | q & ((p.bk[i] <= 1) | one & (p.bk[i] == 2)); }
    for j in 0..p.m { is_l &= p.paired_r(j) | (p.rk[j] == 2); }
    let mut is_r = true;
    for j in 0..p.m { let mut k = !p.paired_r(j) & (p.rk[j] == 0); for i in 0..p.n { k |= p.e[i][j] & ((p.bk[i] == 0) | (p.bk[i] == 2) | p.sh[j] & (p.bk[i] == 1)); } is_r &= k; }
    for i in 0..p.n { is_r &= p.paired_l(i) | (p.lk[i] == 2); }
    let (el, er) = (x == lm, x == rm);
    out(el as u64 + 2 * er as u64);
    check(!el | is_l, 1);
    check(!er | is_r, 2);
    // equal collections answer alike
    if el { for i in 0..p.n { check(x.find(&p.l[i]).map_or(false, |(_, v)| *v as usize == i), 3); } check(x.size() == lm.size(), 4); }
    if er { for j in 0..p.m { check(x.find(&p.r[j]).map_or(false, |(_, v)| if p.sh[j] { *v < 8 } else { *v as usize == 8 + j }), 5); } check(x.size() == rm.size(), 6); }
    check((lm == x) == el && (x != lm) != el, 7);
    reach(1);
}

/// What comes out of a joint operation is a full citizen: a further insert, removal and transform behave.
#[cfg(feature = "jthen")]
#[no_mangle] pub extern "C" fn h_then() {
    let p = pre((0, 3), (0, 3), (0, 5));
    let (lm, rm) = p.build();
    let (b, l, r) = tt_ops!(p);
    let (x, _) = block_on(lm.transform_with_transformed(&rm, addr, b, l, r, strat(p.par)));
    let n = x.size();
    let q = key(p.mask, p.ids).tagged(77);
    let had = x.find(&q).is_ok();
    let (y, ..) = match x.insert(q, 60, true) { Ok(y) => y, Err(_) => { check(false, 1); return } };
    check(y.size() == n + (!had) as usize, 2);
    check(y.find(&q).map_or(false, |(k, v)| (*v == 60) & (k.tag == 77)), 3);
    let z = match y.remove(&q) { Ok((z, k, v)) => { check(same(k, &q) & (*v == 60), 4); z }, Err(_) => { check(false, 5); return } };
    check(z.size() == n - had as usize, 6);
    check(z.find(&q).is_err(), 7);
    let (sx, sz, sq) = (Seen::new(), Seen::new(), Seen::new());
    x.visit(|k, v| { sx.note(*v, true); if same(k, &q) { sq.note(*v, true) } });
    z.visit(|_, v| sz.note(*v, true));
    check(!sx.bad.get() & !sz.bad.get() & (sz.bits.get() == sx.bits.get() & !sq.bits.get()) & ((sq.n.get() == 1) == had), 8);
    for (i, k) in p.l.iter().chain(p.r.iter()).enumerate() {
        let (fx, fz) = (x.find(k).ok().map(|(_, v)| *v), z.find(k).ok().map(|(_, v)| *v));
        check(if same(k, &q) { fz.is_none() } else { fx == fz }, 100 + i as u32);
    }
    let (w, red) = block_on(z.transform(addr, new_map_transform_generic(|_: &K, v: &u8| MapTransformResult::<u8, R>::Transformed(*v, 1)), strat(p.par)));
    check((red == z.size() as R) & (w.size() == z.size()), 9);
    reach(1);
}

/// What a two-map operation leaves behind is a map like any other (`crate::aftermath!`, p5 selects the variant).
#[cfg(feature = "tta")]
#[no_mangle] pub extern "C" fn h_tt_after() {
    let p = pre((0, 3), (0, 3), (0, 5));
    let (lm, rm) = p.build();
    let (b, l, r) = tt_ops!(p);
    let (x, _) = block_on(lm.transform_with_transformed(&rm, addr, b, l, r, strat(p.par)));
    crate::aftermath!(x, M, K, param(5), p.mask, p.ids, p.par);
    originals!(p, lm, rm);
    reach(1);
}
#[cfg(feature = "tma")]
#[no_mangle] pub extern "C" fn h_tm_after() {
    let mut p = pre((0, 3), (1, 2), (2, 3));
    keep(&mut p, 1);
    let (lm, rm) = p.build_kl();
    let (b, l, r) = tm_ops!(p);
    let (x, _): (M, R) = block_on(unsafe { lm.transform_with_transmuted(&rm, addr, b, l, r, strat(p.par)) });
    crate::aftermath!(x, M, K, param(5), p.mask, p.ids, p.par);
    originals!(p, lm, rm);
    reach(1);
}
#[cfg(feature = "mta")]
#[no_mangle] pub extern "C" fn h_mt_after() {
    let mut p = pre((1, 2), (0, 3), (2, 3));
    keep(&mut p, 2);
    let (lm, rm) = p.build_kl();
    let (b, l, r) = mt_ops!(p);
    let (x, _): (ML, R) = block_on(unsafe { lm.transmute_with_transformed(&rm, addr, b, l, r, strat(p.par)) });
    crate::aftermath!(x, ML, L, param(5), p.mask, p.ids, p.par);
    originals!(p, lm, rm);
    reach(1);
}
#[cfg(feature = "mma")]
#[no_mangle] pub extern "C" fn h_mm_after() {
    let p = pre((1, 2), (1, 2), (3, 2));
    let (lm, rm) = p.build_kl();
    let (b, l, r) = mm_ops!(p);
    let (x, _): (MS, R) = unsafe { lm.transmute_with_transmuted(&rm, addr, b, l, r) };
    crate::aftermath!(x, MS, S, param(5), p.mask, p.ids, p.par);
    originals!(p, lm, rm);
    reach(1);
}
