//! Collision lists of any length: c keys of one hash (ids 0, 1, ...), alone, under a branch or below a chain (p2).
use crate::{rt::*, types::{add, strat}};
use core::hash::{Hash, Hasher};
use hash_trie::{results::*, traits::*, transformations::*, HashTrieMap};

macro_rules! key { ($n:ident, $m:ident, $($f:ident: $t:ty),*) => {
    /// Equality is on (hash, id); `tag` tells equal keys apart.
    #[derive(Clone, Copy, Debug, Default)]
    #[repr(C)]
    pub struct $n { $(pub $f: $t),* }
    impl PartialEq for $n { #[inline(always)] fn eq(&self, o: &Self) -> bool { (self.h == o.h) & (self.id == o.id) } }
    impl Eq for $n {}
    impl Hash for $n { fn hash<S: Hasher>(&self, s: &mut S) { self.id.hash(s) } }
    impl HasherBv<u8, $n> for Hl { fn hash(&self, v: &$n) -> u8 { v.h } }
    type $m = HashTrieMap<u8, u8, $n, u16, Hl>;
} }
macro_rules! cross { ($a:ident, $b:ident) => {
    impl PartialEq<$b> for $a { #[inline(always)] fn eq(&self, o: &$b) -> bool { (self.h == o.h) & (self.id == o.id) } }
    impl HashLike<$b> for $a {}
    impl From<$a> for $b { fn from(x: $a) -> $b { #[allow(clippy::needless_update)] $b { h: x.h, id: x.id, tag: x.tag, ..Default::default() } } }
} }
#[derive(Default, Clone)]
pub struct Hl;
key!(K, M, h: u8, id: u16, tag: u8); key!(L, ML, id: u16, tag: u8, more: u32, h: u8); key!(S, MS, tag: u8, more: [u8; 5], id: u16, h: u8);
cross!(K, L); cross!(L, K); cross!(K, S); cross!(S, K); cross!(L, S); cross!(S, L);
pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_long", h_long),
    ("h_long_one", h_long_one),
    ("h_long_joint", h_long_joint),
    ("h_many", h_many),
    ("h_big", h_big),
];
const H: u8 = 0b01_010_001;
fn k(id: usize, tag: u8) -> K { K { h: H, id: id as u16, tag } }
/// Neighbours of the list: none, one in the root, one that parts at the last level.
fn near(at: u64) -> Option<K> { match at { 0 => None, 1 => Some(K { h: 0, id: 0, tag: 0 }), _ => Some(K { h: H ^ 0x80, id: 0, tag: 0 }) } }
fn upto(n: usize) -> u64 { let x = sym_u16() as u64; assume(x <= n as u64); x }
fn count(lo: u64, hi: u64) -> usize { if lo == hi { lo as usize } else { let x = sym_u16() as u64; assume((x >= lo) & (x <= hi)); sym_pick(x) as usize } }
macro_rules! fill { ($M:ty, $K:ty, $ids:expr, $base:expr, $at:expr) => {{
    let mut m = <$M>::new();
    let at = $at;
    if at & 4 == 0 { if let Some(n) = near(at & 3) { match m.insert(<$K>::from(n), 9999u16, false) { Ok(x) => m = x.0, Err(_) => check(false, 90) } } }
    for i in $ids { match m.insert(<$K>::from(k(i, 0)), $base + i as u16, false) { Ok(x) => m = x.0, Err(_) => check(false, 91) } }
    if at & 4 != 0 { if let Some(n) = near(at & 3) { match m.insert(<$K>::from(n), 9999u16, false) { Ok(x) => m = x.0, Err(_) => check(false, 92) } } }
    m
}} }

/// One key of the list, or one that is not in it, is looked up, inserted, replaced and removed (p0..p1 entries).
#[no_mangle] pub extern "C" fn h_long() {
    let (c, at) = (count(param(0), param(1)), param(2));
    let m = fill!(M, K, 0..c, 0, at);
    let extra = (at & 3 != 0) as usize;
    let x = if param(3) != 0 { [0, 1, c / 2, c.saturating_sub(2), c.saturating_sub(1), c][below(6) as usize] } else { sym_pick(upto(c)) as usize };
    let had = x < c;
    let q = k(x, 9);
    check(m.size() == c + extra, 1);
    match m.find(&q) { Ok((a, v)) => check(had & (*v as usize == x) & (*a == q), 2), Err(_) => check(!had, 3) }
    match m.insert(q, 8000u16, false) { Ok((y, ..)) => check(!had & (y.size() == c + extra + 1) & y.find(&q).is_ok(), 4), Err((_, v)) => check(had & (*v as usize == x), 5) }
    let y = match m.insert(q, 8000u16, true) { Ok((y, a, v, prev)) => { check((prev.map(|p| *p.1 as usize) == if had { Some(x) } else { None }) & y.find(&q).map_or(false, |(b, w)| core::ptr::eq(a, b) & core::ptr::eq(v, w)), 6); y }, Err(_) => return check(false, 7) };
    check(y.size() == c + extra + (!had) as usize, 8);
    let z = match y.remove(&q) { Ok((z, a, v)) => { check((*v == 8000) & (*a == q), 9); z }, Err(_) => return check(false, 10) };
    check(z.size() == c + extra - had as usize, 11);
    check(y.find(&q).map_or(false, |(a, v)| (*v == 8000) & (a.tag == 9)) & z.find(&q).is_err(), 12);
    for i in 0..c {
        let a = k(i, 0);
        check(m.find(&a).map_or(false, |(_, v)| *v as usize == i), 13);
        if i != x { check(y.find(&a).map_or(false, |(_, v)| *v as usize == i) & z.find(&a).map_or(false, |(_, v)| *v as usize == i), 14); }
    }
    for w in [&m, &y, &z] { if let Some(n) = near(at & 3) { check(w.find(&n).map_or(false, |(_, v)| *v == 9999), 15) } let t = core::cell::Cell::new(0usize); w.visit(|_, _| t.set(t.get() + 1)); check(t.get() == w.size(), 16); }
    out(z.size() as u64);
    reach(1);
}

/// Entries below, at and above a symbolic one are treated differently by a transform (p3 0..3) or transmute (4..7).
#[no_mangle] pub extern "C" fn h_long_one() {
    let (c, at) = (count(param(0), param(1)), param(2));
    let m = fill!(M, K, 0..c, 0, at);
    let extra = (at & 3 != 0) as usize;
    let t = sym_pick(upto(c)) as u16;
    let (a, b, d) = match param(3) & 3 { 0 => (0, 2, 1), 1 => (2, 0, 1), 2 => (1, 1, 2), _ => (2, 1, 0) };
    let mutate = param(3) & 4 != 0;
    let kind = |v: u16| { let x = if v == 9999 { 1 } else if v < t { a } else if v == t { b } else { d }; if mutate && x == 0 { 1 } else { x } };
    let new = |v: u16| if v == 9999 { 9998 } else { 4096 + v };
    let mut n = extra;
    for i in 0..c { n += (kind(i as u16) != 2) as usize; }
    macro_rules! test { ($x:expr, $red:expr, $K:ty) => {{
        let s = core::cell::Cell::new(0usize);
        $x.visit(|_, _| s.set(s.get() + 1));
        check(($x.size() == n) & (s.get() == n) & ($red == (c + extra) as u64) & (m.size() == c + extra), 3);
        for i in 0..c { match $x.find(&<$K>::from(k(i, 0))) { Ok((_, v)) => check(*v == match kind(i as u16) { 0 => i as u16, 1 => new(i as u16), _ => return check(false, 4) }, 5), Err(_) => check(kind(i as u16) == 2, 6) } }
        if let Some(q) = near(at & 3) { check($x.find(&<$K>::from(q)).map_or(false, |(_, v)| *v == 9998), 7) }
    }} }
    if mutate {
        let (x, red): (MS, u64) = unsafe { m.transmute(add, new_map_transmute_generic(|k: &K, v: &u16| if kind(*v) == 2 { MapTransmuteResult::Removed(1) } else { MapTransmuteResult::Transmuted(S::from(*k), new(*v), 1) })) };
        test!(x, red, S);
    }
    else {
        let (x, red) = block_on(m.transform(add, new_map_transform_generic(|_: &K, v: &u16| match kind(*v) { 0 => MapTransformResult::Unchanged(1u64), 1 => MapTransformResult::Transformed(new(*v), 1), _ => MapTransformResult::Removed(1) }), strat(param(3) & 8 != 0)));
        test!(x, red, K);
    }
    out(n as u64);
    reach(1);
}

/// Left holds ids 0.., right every p3-th from a symbolic one on, up to p1; p4 decisions, p5 operation: which of the four.
#[no_mangle] pub extern "C" fn h_long_joint() {
    let (c, top, at, step) = (param(0) as usize, param(1) as usize, param(2), param(3) as usize);
    let (kl, kr, kb, op) = (param(4) % 3, param(4) / 3 % 3, param(4) / 9, param(5));
    let t = sym_pick(upto(top)) as usize;
    let lm = fill!(M, K, 0..c, 0, at);
    let ratt = param(6);
    let ids = || (t..top).step_by(step);
    // decisions: one side 0 keep, 1 change, 2 drop; both 0 left, 1 right, 2 change, 3 drop
    let one = |k: u64, v: u16| match k { 0 => MapTransformResult::Unchanged(1u64), 1 => MapTransformResult::Transformed(v, 1), _ => MapTransformResult::Removed(1) };
    let mu = |k: u64| k != 2;
    let (el, er) = ((at & 3 != 0) as usize, (ratt & 3 != 0) as usize);
    let same = el == 1 && er == 1 && at & 3 == ratt & 3;
    macro_rules! test { ($x:expr, $red:expr, $K:ty, $keepl:expr, $keepr:expr) => {{
        let (mut n, mut met) = (0usize, (el + er - same as usize) as u64);
        for i in 0..top.max(c) {
            let (p, q) = (i < c, i >= t && i < top && (i - t) % step == 0);
            met += (p | q) as u64;
            let side = |k: u64, keep: bool, v: u16| if k == 2 { None } else if k == 1 || !keep { Some(2500 - i as u16) } else { Some(v) };
            let want = if p && q { match kb { 0 if $keepl => Some(i as u16), 1 if $keepr => Some(3000 + i as u16), 3 => None, _ => Some(2501 - i as u16) } } else if p { side(kl, $keepl, i as u16) } else if q { side(kr, $keepr, 3000 + i as u16) } else { None };
            n += want.is_some() as usize;
            check($x.find(&<$K>::from(k(i, 0))).ok().map(|x| *x.1) == want, 3);
        }
        for q in [near(at & 3), near(ratt & 3)] { if let Some(q) = q { check($x.find(&<$K>::from(q)).is_ok(), 4) } }
        n += el + er - same as usize;
        let s = core::cell::Cell::new(0usize);
        $x.visit(|_, _| s.set(s.get() + 1));
        check(($x.size() == n) & (s.get() == n) & ($red == met), 5);
        out(n as u64);
    }} }
    let idx = |v: u16| v % 3000;
    match op {
        0 => {
            let rm = fill!(M, K, ids(), 3000, ratt);
            let (x, red) = block_on(lm.transform_with_transformed(&rm, add,
                new_map_joint_transform_generic(|_: &K, v: &u16, _: &K, _: &u16| if *v == 9999 { MapJointTransformResult::UnchangedLR(1u64) } else { match kb { 0 => MapJointTransformResult::UnchangedL(1u64), 1 => MapJointTransformResult::UnchangedR(1), 2 => MapJointTransformResult::Transformed(2501 - *v, 1), _ => MapJointTransformResult::Removed(1) } }),
                new_map_transform_generic(|_: &K, v: &u16| if *v == 9999 { one(0, 0) } else { one(kl, 2500 - *v) }), new_map_transform_generic(|_: &K, v: &u16| if *v == 9999 { one(0, 0) } else { one(kr, 2500 - idx(*v)) }), strat(false)));
            test!(x, red, K, true, true);
        },
        1 => {
            let rm = fill!(ML, L, ids(), 3000, ratt);
            let (x, red): (M, u64) = block_on(unsafe { lm.transform_with_transmuted(&rm, add,
                new_map_transform_transmute_generic(|_: &K, v: &u16, _: &L, _: &u16| if *v == 9999 { MapTransformResult::Unchanged(1u64) } else { match kb { 0 => MapTransformResult::Unchanged(1u64), 3 => MapTransformResult::Removed(1), _ => MapTransformResult::Transformed(2501 - *v, 1) } }),
                new_map_transform_generic(|_: &K, v: &u16| if *v == 9999 { one(0, 0) } else { one(kl, 2500 - *v) }), new_map_transmute_generic(|k: &L, v: &u16| if *v == 9999 || mu(kr) { MapTransmuteResult::Transmuted(K::from(*k), if *v == 9999 { 9999 } else { 2500 - idx(*v) }, 1u64) } else { MapTransmuteResult::Removed(1) }), strat(false)) });
            test!(x, red, K, true, false);
        },
        2 => {
            let rm = fill!(ML, L, ids(), 3000, ratt);
            let (x, red): (ML, u64) = block_on(unsafe { lm.transmute_with_transformed(&rm, add,
                new_map_transmute_transform_generic(|_: &K, v: &u16, _: &L, _: &u16| if *v == 9999 { MapTransformResult::Unchanged(1u64) } else { match kb { 1 => MapTransformResult::Unchanged(1u64), 3 => MapTransformResult::Removed(1), _ => MapTransformResult::Transformed(2501 - *v, 1) } }),
                new_map_transmute_generic(|k: &K, v: &u16| if *v == 9999 || mu(kl) { MapTransmuteResult::Transmuted(L::from(*k), if *v == 9999 { 9999 } else { 2500 - *v }, 1u64) } else { MapTransmuteResult::Removed(1) }), new_map_transform_generic(|_: &L, v: &u16| if *v == 9999 { one(0, 0) } else { one(kr, 2500 - idx(*v)) }), strat(false)) });
            test!(x, red, L, false, true);
        },
        _ => {
            let rm = fill!(ML, L, ids(), 3000, ratt);
            let (x, red): (MS, u64) = unsafe { lm.transmute_with_transmuted(&rm, add,
                new_map_transmute_transmute_generic(|k: &K, v: &u16, _: &L, _: &u16| if *v == 9999 || kb != 3 { MapTransmuteResult::Transmuted(S::from(*k), if *v == 9999 { 9999 } else { 2501 - *v }, 1u64) } else { MapTransmuteResult::Removed(1) }),
                new_map_transmute_generic(|k: &K, v: &u16| if *v == 9999 || mu(kl) { MapTransmuteResult::Transmuted(S::from(*k), if *v == 9999 { 9999 } else { 2500 - *v }, 1u64) } else { MapTransmuteResult::Removed(1) }),
                new_map_transmute_generic(|k: &L, v: &u16| if *v == 9999 || mu(kr) { MapTransmuteResult::Transmuted(S::from(*k), if *v == 9999 { 9999 } else { 2500 - idx(*v) }, 1u64) } else { MapTransmuteResult::Removed(1) })) };
            test!(x, red, S, false, false);
        },
    }
    reach(1);
}

/// A map of p0 entries, spread over all hashes with stride p1 (then further ids); p2: one operation on a key (hash bits p3, base p4), a transform, a joint transform.
#[no_mangle] pub extern "C" fn h_many() {
    let (n, stride) = (param(0) as usize, param(1) as usize);
    let key = |i: usize| K { h: (i * stride % 256) as u8, id: (i / 256) as u16, tag: 0 };
    let mut m = M::new();
    for i in 0..n { match m.insert(key(i), i as u16, false) { Ok(x) => m = x.0, Err(_) => check(false, 1) } check(m.size() == i + 1, 2); }
    let total = |x: &M| { let (t, s) = (core::cell::Cell::new(0usize), core::cell::Cell::new(0u64)); x.visit(|k: &K, v: &u16| { t.set(t.get() + 1); s.set(s.get() + *v as u64 + k.h as u64) }); (t.get(), s.get()) };
    let (mut all, inv) = (0u64, (0..256).find(|i| i * stride % 256 == 1).unwrap_or(1));
    for i in 0..n { all += i as u16 as u64 + key(i).h as u64; }
    check((m.size() == n) & (total(&m) == (n, all)), 3);
    match param(2) {
        0 => {
            let q = K { h: sym_pick(((sym_u8() & param(3) as u8) ^ param(4) as u8) as u64) as u8, id: sym_pick(below((n / 256) as u8 + 1) as u64) as u16, tag: 9 };
            let i = (q.h as usize).wrapping_mul(inv) % 256 + q.id as usize * 256;
            let had = i < n;
            match m.find(&q) { Ok((a, v)) => check(had & (*v == i as u16) & (*a == q), 4), Err(_) => check(!had, 5) }
            match m.insert(q, 7u16, true) { Ok((y, _, v, prev)) => check((prev.map(|p| *p.1) == if had { Some(i as u16) } else { None }) & (unsafe { *v } == 7) & (y.size() == n + !had as usize) & (total(&y).0 == y.size()), 6), Err(_) => check(false, 7) }
            match m.remove(&q) { Ok((y, _, v)) => check(had & (*v == i as u16) & (y.size() == n - 1) & (total(&y) == (n - 1, all - i as u16 as u64 - q.h as u64)) & y.find(&q).is_err(), 8), Err(_) => check(!had, 9) }
        },
        1 => {
            // entries whose value has a symbolic bit are dropped, the others kept or changed
            let b = 1u16 << (below(10) & 15);
            let b = sym_pick(b as u64) as u16;
            let (x, red) = block_on(m.transform(add, new_map_transform_generic(|_: &K, v: &u16| if *v & b != 0 { MapTransformResult::Removed(1u64) } else if *v & 1 == 0 { MapTransformResult::Unchanged(1) } else { MapTransformResult::Transformed(*v ^ 1, 1) }), strat(param(3) != 0)));
            let mut kept = 0;
            for i in 0..n { if i as u16 & b == 0 { kept += 1; check(x.find(&key(i)).map_or(false, |(_, v)| *v == i as u16 & !1), 10); } else { check(x.find(&key(i)).is_err(), 11); } }
            check((x.size() == kept) & (total(&x).0 == kept) & (red == n as u64) & (total(&m) == (n, all)), 12);
        },
        _ => {
            // joined with the entries from a symbolic one on, of another map of the same keys
            let t = sym_pick(below(9) as u64 * n as u64 / 8) as usize;
            let mut r = M::new();
            for i in t..n { match r.insert(key(i), !(i as u16), false) { Ok(x) => r = x.0, Err(_) => check(false, 13) } }
            let (x, red) = block_on(m.transform_with_transformed(&r, add, new_map_joint_transform_generic(|_: &K, v: &u16, _: &K, _: &u16| if *v & 1 == 0 { MapJointTransformResult::Removed(1u64) } else { MapJointTransformResult::UnchangedR(1) }),
                new_map_transform_generic(|_: &K, v: &u16| if *v & 2 == 0 { MapTransformResult::Removed(1u64) } else { MapTransformResult::Unchanged(1) }), new_map_transform_generic(|_: &K, _: &u16| MapTransformResult::Removed(1u64)), strat(param(3) != 0)));
            let mut kept = 0;
            for i in 0..n { let (v, keep) = if i < t { (i as u16, i & 2 != 0) } else { (!(i as u16), i & 1 != 0) }; if keep { kept += 1; check(x.find(&key(i)).map_or(false, |(_, w)| *w == v), 14); } else { check(x.find(&key(i)).is_err(), 15); } }
            check((x.size() == kept) & (total(&x).0 == kept) & (red == n as u64) & (total(&m) == (n, all)), 16);
        },
    }
    out(m.size() as u64);
    reach(1);
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct N(u32);
#[derive(Default, Clone)]
pub struct Hn;
impl HasherBv<u32, N> for Hn { fn hash(&self, v: &N) -> u32 { v.0.wrapping_mul(0x9e37_79b1) } }
/// A map of p0 entries, more than 16 bits count, with an arbitrary value for one of them: then one operation on a key out of
/// four (p1 0), a change of the whole (p1 1), a join of it with itself (p1 2).
#[no_mangle] pub extern "C" fn h_big() {
    let n = param(0) as u32;
    let v = sym_u32();
    let mut m = HashTrieMap::<u32, u8, N, u32, Hn>::new();
    for i in 0..n { match m.insert(N(i), if i == n / 3 { v } else { i }, false) { Ok(x) => m = x.0, Err(_) => return check(false, 1) } }
    check((m.size() == n as usize) & m.find(&N(n / 3)).map_or(false, |x| *x.1 == v), 2);
    match param(1) {
        0 => {
            let q = N([n / 2, n, 0, n - 1][param(2) as usize % 4]);
            let had = q.0 < n;
            check(m.find(&q).map_or(!had, |x| had & (*x.1 == q.0)), 3);
            match m.insert(q, v, true) { Ok((x, ..)) => check((x.size() == n as usize + !had as usize) & x.find(&q).map_or(false, |x| *x.1 == v), 4), Err(_) => check(false, 5) }
            match m.remove(&q) { Ok((x, ..)) => check(had & (x.size() == n as usize - 1) & x.find(&q).is_err(), 6), Err(_) => check(!had, 7) }
        },
        1 => {
            let c = param(2) / 2;
            let (x, red) = block_on(m.transform(add, new_map_transform_generic(|k: &N, w: &u32| if c == 0 { MapTransformResult::Unchanged(1u64) } else if c == 1 { MapTransformResult::Transformed(w.wrapping_add(v), 1) } else if k.0 % 64 == 0 { MapTransformResult::Removed(1) } else { MapTransformResult::Unchanged(1) }), strat(param(2) & 1 != 0)));
            let want = if c == 2 { n - (n + 63) / 64 } else { n };
            check((x.size() == want as usize) & (red == n as u64), 8);
            check(x.find(&N(0)).map_or(c == 2, |x| *x.1 == if c == 1 { v } else { 0 }) & x.find(&N(n - 1)).map_or(c == 2 && (n - 1) % 64 == 0, |x| *x.1 == if c == 1 { v.wrapping_add(n - 1) } else { n - 1 }), 9);
        },
        _ => {
            let (x, red) = block_on(m.transform_with_transformed(&m, add, new_map_joint_transform_generic(|_: &N, v: &u32, _: &N, w: &u32| MapJointTransformResult::Transformed(v.wrapping_add(*w), 1u64)),
                new_map_transform_generic(|_: &N, _: &u32| MapTransformResult::Removed(0u64)), new_map_transform_generic(|_: &N, _: &u32| MapTransformResult::Removed(0u64)), strat(param(2) & 1 != 0)));
            check((x.size() == n as usize) & (red == n as u64), 10);
            check(x.find(&N(n - 1)).map_or(false, |x| *x.1 == 2 * (n - 1)) & x.find(&N(n / 3)).map_or(false, |x| *x.1 == v.wrapping_add(v)), 11);
        },
    }
    out(m.size() as u64);
    reach(1);
}
