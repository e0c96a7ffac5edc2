//! Other word widths: every pairing of hash and flag word is a dictionary, at every fan-out a node can have.
use crate::{rt::*, types::Seen};
#[allow(unused_imports)]
use hash_trie::{results::*, traits::*, transformations::*, HashTrieMap, ParallelismStrategy};
use core::hash::{Hash, Hasher};
macro_rules! entries { ($($feat:literal $n:ident $p:path;)*) => {
    $(#[cfg(feature = $feat)] #[no_mangle] pub extern "C" fn $n() { $p() })*
    pub const ENTRIES: &[(&str, extern "C" fn())] = &[$(#[cfg(feature = $feat)] (stringify!($n), $n)),*];
} }
entries! {
    "wa" h_w16_8 w16_8::hist;
    "wb" h_w16_16 w16_16::hist;
    "wa" h_w32_32 w32_32::hist;
    "wc" h_w64_8 w64_8::hist;
    "wc" h_w64_32 w64_32::hist;
    "wb" h_w64_64 w64_64::hist;
    "wd" h_w64_128 w64_128::hist;
    "wd" h_w128_128 w128_128::hist;
    "wb" h_w64_s w64_s::hist;
    "wa" h_w8_16 w8_16::hist;
    "wc" h_w128_8 w128_8::hist;
    "we" h_w32_8 w32_8::hist;
    "we" h_w32_16 w32_16::hist;
    "we" h_w64_16 w64_16::hist;
    "we" h_w16_32 w16_32::hist;
    "we" h_w128_16 w128_16::hist;
    "wf" h_w32_64 w32_64::hist;
    "wf" h_w16_64 w16_64::hist;
    "wf" h_w128_32 w128_32::hist;
    "wf" h_ws_8 ws_8::hist;
    "wf" h_ws_32 ws_32::hist;
    "wg" h_w128_64 w128_64::hist;
    "wg" h_w32_128 w32_128::hist;
    "wg" h_w16_128 w16_128::hist;
    "wg" h_w128_s w128_s::hist;
    "wg" h_ws_s ws_s::hist;
    "ja" h_wj16_8 w16_8::joint;
    "ja" h_wj32_32 w32_32::joint;
    "jb" h_wj64_64 w64_64::joint;
    "ja" h_wj8_16 w8_16::joint;
    "jc" h_wj128_128 w128_128::joint;
    "jb" h_wj64_s w64_s::joint;
    "fa" h_fan8 w64_8::fan;
    "fa" h_fan16 w64_16::fan;
    "fa" h_fan32 w64_32::fan;
    "fb" h_fan64 w64_64::fan;
    "fc" h_fan128 w64_128::fan;
    "fb" h_fans w64_s::fan;
    "fd" h_fant8 w64_8::fan_transform;
    "fd" h_fant32 w64_32::fan_transform;
    "fd" h_fant128 w64_128::fan_transform;
    "fe" h_fanj8 w64_8::fan_joint;
    "fe" h_fanj32 w64_32::fan_joint;
    "ff" h_fanj128 w64_128::fan_joint;
    "sa" h_std8 std_entries::std8;
    "sa" h_std16 std_entries::std16;
    "sb" h_std32 std_entries::std32;
    "sb" h_std64 std_entries::std64;
    "sd" h_stdf8 std_entries::foreign8;
    "sd" h_stdf64 std_entries::foreign64;
    "sd" h_std_unit std_entries::unit;
    "sc" h_fnv_map std_entries::fnv_map;
    "sc" h_fnv_set std_entries::fnv_set;
}

/// Equality on (hash, id); `tag` tells equal keys apart.
#[derive(Clone, Copy, Debug, Default)]
pub struct KW<H> { h: H, id: u8, tag: u8 }
impl<H: PartialEq> PartialEq for KW<H> { #[inline(always)] fn eq(&self, o: &Self) -> bool { (self.h == o.h) & (self.id == o.id) } }
impl<H: PartialEq> Eq for KW<H> {}
impl<H: Hash> Hash for KW<H> { fn hash<S: Hasher>(&self, s: &mut S) { self.h.hash(s) } }
#[derive(Default, Clone)]
pub struct Wh;
macro_rules! wh { ($($t:ty),*) => { $(impl HasherBv<$t, KW<$t>> for Wh { fn hash(&self, v: &KW<$t>) -> $t { v.h } })* } }
wh!(u8, u16, u32, u64, u128, usize);

fn same(a: Option<u8>, p: bool, v: u8) -> bool { match a { Some(x) => p & (x == v), None => !p } }
struct Op<H> { k: KW<H>, ins: bool, rep: bool, v: u8 }
fn oracle<H: PartialEq>(ops: &[Op<H>], q: &KW<H>) -> (bool, u8) {
    let (mut p, mut v) = (false, 0u64);
    for o in ops { let s = o.k == *q; v = sel(s & o.ins & (o.rep | !p), o.v as u64, v); p = (p | s & o.ins) & !(s & !o.ins); }
    (p, v as u8)
}
macro_rules! dict_history { ($M:ty, $n:expr, $key:expr, $mode:expr) => {{
    let n = $n;
    let mut m = <$M>::new();
    let mut ops = Vec::new();
    for i in 0..n {
        let k = $key;
        let c = sym_u8();
        let o = Op { k, ins: $mode == 1 || c & 1 == 0, rep: c & 2 == 0, v: i as u8 };
        let (p, v) = oracle(&ops, &k);
        let size = m.size();
        if o.ins {
            match m.insert(k, o.v, o.rep) {
                Ok((m2, _, _, prev)) => { check((o.rep | !p) & same(prev.map(|x| *x.1), p, v) & (m2.size() == size + (!p) as usize), 1); m = m2 },
                Err((_, w)) => check(!o.rep & p & (*w == v), 2),
            }
        }
        else {
            match m.remove(&k) { Ok((m2, _, w)) => { check(p & (*w == v) & (m2.size() + 1 == size), 3); m = m2 }, Err(_) => check(!p, 4) }
        }
        ops.push(o);
    }
    let q = $key;
    let (p, v) = oracle(&ops, &q);
    match m.find(&q) { Ok((k, w)) => { out(*w as u64); check(p & (*w == v) & (*k == q), 5) }, Err(_) => { out(99); check(!p, 6) } }
    for o in &ops { let (p, v) = oracle(&ops, &o.k); match m.find(&o.k) { Ok((_, w)) => check(p & (*w == v), 7), Err(_) => check(!p, 8) } }
    let s = Seen::new();
    m.visit(|k, v| s.note(*v, (*v as usize) < n && *k == ops[*v as usize].k));
    check(!s.bad.get() & (m.size() as u64 == s.n.get()), 9);
    reach(1);
}} }

macro_rules! wide { ($m:ident, $H:ty, $F:ty, $W:expr, $sym:expr) => {
    #[allow(dead_code)]
    pub mod $m {
        use super::*;
        type M = HashTrieMap<$H, $F, KW<$H>, u8, Wh>;
        fn word(mask: $H) -> $H { ($sym as $H) & mask }
        fn mask() -> $H { (((param(2) as u128) << 64) | param(1) as u128) as $H }
        fn key(mask: $H, ids: u8) -> KW<$H> { KW { h: word(mask), id: sym_u8() & ids, tag: 0 } }
        /// p0 operations, p1/p2 low and high word of the hash mask, p3 id mask, p4 mode (1: insertions only).
        pub fn hist() {
            let (mask, ids, mode) = (mask(), param(3) as u8, param(4));
            dict_history!(M, param(0) as usize, key(mask, ids), mode);
        }
        /// p0/p4 entries left/right, masks as above, p5 strategy: left, right and shared entries are kept, changed or dropped.
        pub fn joint() {
            let (n, m, mask, ids) = (param(0) as usize, param(4) as usize, mask(), param(3) as u8);
            let (l, r): (Vec<KW<$H>>, Vec<KW<$H>>) = ((0..n).map(|_| key(mask, ids)).collect(), (0..m).map(|_| key(mask, ids)).collect());
            let mut ok = true;
            for v in [&l, &r] { for i in 0..v.len() { for j in 0..i { ok &= (v[j].h <= v[i].h) & (v[i] != v[j]); } } }
            assume(ok);
            let (kl, kr, kb) = (below(3), below(3), below(5));
            let (mut lm, mut rm) = (M::new(), M::new());
            for i in 0..n { match lm.insert(l[i], i as u8, false) { Ok(x) => lm = x.0, Err(_) => check(false, 20) } }
            for j in 0..m { match rm.insert(r[j], 8 + j as u8, false) { Ok(x) => rm = x.0, Err(_) => check(false, 21) } }
            let one = |k: u8, v: u8| match k { 0 => MapTransformResult::Unchanged(1u64), 1 => MapTransformResult::Transformed(v, 1), _ => MapTransformResult::Removed(1) };
            let (x, red) = block_on(lm.transform_with_transformed(&rm, |a: &u64, b: &u64| a + b,
                new_map_joint_transform_generic(|_: &KW<$H>, v: &u8, _: &KW<$H>, _: &u8| match kb { 0 => MapJointTransformResult::UnchangedLR(1), 1 => MapJointTransformResult::UnchangedL(1), 2 => MapJointTransformResult::UnchangedR(1), 3 => MapJointTransformResult::Transformed(32 + v, 1), _ => MapJointTransformResult::Removed(1) }),
                new_map_transform_generic(|_: &KW<$H>, v: &u8| one(kl, 16 + v)), new_map_transform_generic(|_: &KW<$H>, v: &u8| one(kr, 16 + v)), crate::types::strat(param(5) != 0)));
            let (mut cnt, mut met) = (0u64, 0u64);
            for i in 0..n {
                let mut p = false; let mut w = 0u64;
                for j in 0..m { let e = l[i] == r[j]; p |= e; w = sel(e, 8 + j as u64, w); }
                let gone = !p & (kl == 2) | p & (kb == 4);
                cnt += (!gone) as u64; met += 1;
                match x.find(&l[i]) {
                    Ok((k, v)) => { let v = *v as u64; check(!gone & (*k == l[i]) & (!p & (v == i as u64 + 16 * (kl == 1) as u64) | p & ((kb <= 1) & (v == i as u64) | ((kb == 0) | (kb == 2)) & (v == w) | (kb == 3) & (v == 32 + i as u64))), 22) },
                    Err(_) => check(gone, 23),
                }
            }
            for j in 0..m {
                let mut p = false;
                for i in 0..n { p |= l[i] == r[j]; }
                if p { continue }
                let gone = kr == 2;
                cnt += (!gone) as u64; met += 1;
                match x.find(&r[j]) { Ok((k, v)) => check(!gone & (*k == r[j]) & (*v as u64 == 8 + j as u64 + 16 * (kr == 1) as u64), 24), Err(_) => check(gone, 25) }
            }
            check((x.size() as u64 == cnt) & (red == met), 26);
            let s = Seen::new();
            x.visit(|_, v| s.note(*v, true));
            out(s.bits.get());
            check(!s.bad.get() & (s.n.get() == cnt), 27);
            reach(1);
        }
        /// A node with c children (p0 <= c <= p1; slots s, s+step, ... for step p2, start p3), then one symbolic slot is
        /// looked up, filled, replaced and emptied; all other slots must not notice. p4: fork on the slot's value at once.
        pub fn fan() {
            let (lo, hi, step, start) = (param(0), param(1), param(2) as usize, param(3) as usize);
            let c = if lo == hi { lo } else { let x = sym_u8() as u64; assume((x >= lo) & (x <= hi)); sym_pick(x) } as usize;
            let slot = |i: usize| ((start + i * step) % $W) as $H;
            let mut m = M::new();
            for i in 0..c { match m.insert(KW { h: slot(i), id: 0, tag: 0 }, i as u8, false) { Ok(x) => m = x.0, Err(_) => check(false, 1) } }
            let x = sym_u8();
            assume((x as usize) < $W);
            let x = if param(4) != 0 { sym_pick(x as u64) as u8 } else { x };
            let q = KW { h: x as $H, id: 0, tag: 1 };
            let (mut had, mut val) = (false, 0u64);
            for i in 0..c { let e = slot(i) == q.h; had |= e; val = sel(e, i as u64, val); }
            check(m.size() == c, 2);
            match m.find(&q) { Ok((_, v)) => check(had & (*v as u64 == val), 3), Err(_) => check(!had, 4) }
            if let Err((k, v)) = m.insert(q, 200, false) { check(had & (*v as u64 == val) & (k.h == q.h), 5) }
            let y = match m.insert(q, 200, true) { Ok((y, _, _, prev)) => { check(prev.is_some() == had, 6); y }, Err(_) => { check(false, 7); return } };
            check(y.size() == c + (!had) as usize, 8);
            let z = match y.remove(&q) { Ok((z, _, v)) => { check(*v == 200, 9); z }, Err(_) => { check(false, 10); return } };
            check(z.size() == c - had as usize, 11);
            check(y.find(&q).map_or(false, |(k, v)| (*v == 200) & (k.tag == 1)) & z.find(&q).is_err(), 12);
            for i in 0..c {
                let k = KW { h: slot(i), id: 0, tag: 0 };
                let e = slot(i) == q.h;
                check(m.find(&k).map_or(false, |(_, v)| *v == i as u8) & (e | y.find(&k).map_or(false, |(_, v)| *v == i as u8)) & (e | z.find(&k).map_or(false, |(_, v)| *v == i as u8)), 13);
            }
            let (a, b) = (core::cell::Cell::new(0u64), core::cell::Cell::new(0u64));
            y.visit(|_, v| a.set(a.get() + *v as u64));
            z.visit(|_, v| b.set(b.get() + *v as u64));
            let all = (c * c.wrapping_sub(1) / 2) as u64;
            check((a.get() == all - val + 200) & (b.get() == all - val), 14);
            out(a.get());
            reach(1);
        }
        /// A node with p0..p1 children under a transformation that treats slots below, at and above a symbolic one differently.
        pub fn fan_transform() {
            let (lo, hi, par) = (param(0), param(1), param(2));
            let c = if lo == hi { lo } else { let x = sym_u8() as u64; assume((x >= lo) & (x <= hi)); sym_pick(x) } as usize;
            let mut m = M::new();
            for i in 0..c { match m.insert(KW { h: ($W - 1 - i) as $H, id: 0, tag: 0 }, i as u8, false) { Ok(x) => m = x.0, Err(_) => check(false, 1) } }
            let t = sym_pick(below(c as u8 + 1) as u64) as u8;
            let (a, b, d) = match param(3) { 0 => (0, 2, 1), 1 => (2, 0, 1), 2 => (1, 1, 2), _ => (2, 1, 2) };
            let kind = |v: u8| if v < t { a } else if v == t { b } else { d };
            let (x, red) = block_on(m.transform(|a: &u64, b: &u64| a + b, new_map_transform_generic(|_: &KW<$H>, v: &u8| match kind(*v) { 0 => MapTransformResult::Unchanged(1u64), 1 => MapTransformResult::Transformed(255 - *v, 1), _ => MapTransformResult::Removed(1) }), crate::types::strat(par != 0)));
            let mut n = 0;
            for i in 0..c {
                let k = KW { h: ($W - 1 - i) as $H, id: 0, tag: 0 };
                n += (kind(i as u8) != 2) as usize;
                match x.find(&k) { Ok((_, v)) => check(*v == match kind(i as u8) { 0 => i as u8, 1 => 255 - i as u8, _ => return check(false, 2) }, 3), Err(_) => check(kind(i as u8) == 2, 4) }
            }
            let s = core::cell::Cell::new(0usize);
            x.visit(|_, _| s.set(s.get() + 1));
            check((x.size() == n) & (s.get() == n) & (red == c as u64) & (m.size() == c), 5);
            out(n as u64);
            reach(1);
        }
        /// Left holds the lowest p0 slots, right the slots from a symbolic one up (every p1-th); p2 strategy, p3 decisions.
        pub fn fan_joint() {
            let (c, step, par, kinds) = (param(0) as usize, param(1) as usize, param(2), param(3));
            let t = { let x = sym_u8() as usize; assume(x < $W); sym_pick(x as u64) as usize };
            let (mut lm, mut rm) = (M::new(), M::new());
            for i in 0..c { match lm.insert(KW { h: i as $H, id: 0, tag: 0 }, i as u8, false) { Ok(x) => lm = x.0, Err(_) => check(false, 1) } }
            let mut j = t;
            while j < $W { match rm.insert(KW { h: j as $H, id: 0, tag: 1 }, 128 + j as u8, false) { Ok(x) => rm = x.0, Err(_) => check(false, 2) } j += step; }
            let (kl, kr, kb) = (kinds & 1, kinds >> 1 & 1, kinds >> 2);
            let (x, red) = block_on(lm.transform_with_transformed(&rm, |a: &u64, b: &u64| a + b,
                new_map_joint_transform_generic(|_: &KW<$H>, _: &u8, _: &KW<$H>, _: &u8| match kb { 0 => MapJointTransformResult::UnchangedL(1u64), 1 => MapJointTransformResult::UnchangedR(1), _ => MapJointTransformResult::Removed(1) }),
                new_map_transform_generic(|_: &KW<$H>, _: &u8| if kl == 0 { MapTransformResult::Unchanged(1u64) } else { MapTransformResult::Removed(1) }),
                new_map_transform_generic(|_: &KW<$H>, _: &u8| if kr == 0 { MapTransformResult::Unchanged(1u64) } else { MapTransformResult::Removed(1) }), crate::types::strat(par != 0)));
            let (mut n, mut met) = (0, 0);
            for i in 0..$W {
                let (p, q) = (i < c, i >= t && (i - t) % step == 0);
                met += (p | q) as u64;
                let want = if p && q { match kb { 0 => Some(i as u8), 1 => Some(128 + i as u8), _ => None } } else if p { if kl == 0 { Some(i as u8) } else { None } } else if q { if kr == 0 { Some(128 + i as u8) } else { None } } else { None };
                n += want.is_some() as usize;
                check(same(x.find(&KW { h: i as $H, id: 0, tag: 0 }).ok().map(|x| *x.1), want.is_some(), want.unwrap_or(0)), 3);
            }
            check((x.size() == n) & (red == met), 4);
            out(n as u64);
            reach(1);
        }
    }
} }
wide!(w16_8, u16, u8, 8, sym_u16());
wide!(w16_16, u16, u16, 16, sym_u16());
wide!(w32_32, u32, u32, 32, sym_u32());
wide!(w64_8, u64, u8, 8, sym_u64());
wide!(w64_16, u64, u16, 16, sym_u64());
wide!(w64_32, u64, u32, 32, sym_u64());
wide!(w64_64, u64, u64, 64, sym_u64());
wide!(w64_128, u64, u128, 128, sym_u64());
wide!(w64_s, u64, usize, 64, sym_u64());
wide!(w8_16, u8, u16, 16, sym_u8());
wide!(w128_8, u128, u8, 8, ((sym_u64() as u128) << 64 | sym_u64() as u128));
wide!(w32_8, u32, u8, 8, sym_u32());
wide!(w32_16, u32, u16, 16, sym_u32());
wide!(w16_32, u16, u32, 32, sym_u16());
wide!(w128_16, u128, u16, 16, ((sym_u64() as u128) << 64 | sym_u64() as u128));
wide!(w32_64, u32, u64, 64, sym_u32());
wide!(w16_64, u16, u64, 64, sym_u16());
wide!(w128_32, u128, u32, 32, ((sym_u64() as u128) << 64 | sym_u64() as u128));
wide!(ws_8, usize, u8, 8, sym_u64());
wide!(ws_32, usize, u32, 32, sym_u64());
wide!(w128_64, u128, u64, 64, ((sym_u64() as u128) << 64 | sym_u64() as u128));
wide!(w32_128, u32, u128, 128, sym_u32());
wide!(w16_128, u16, u128, 128, sym_u16());
wide!(w128_s, u128, usize, 64, ((sym_u64() as u128) << 64 | sym_u64() as u128));
wide!(ws_s, usize, usize, 64, sym_u64());
wide!(w128_128, u128, u128, 128, ((sym_u64() as u128) << 64 | sym_u64() as u128));

/// A standard hasher whose 64-bit result is whatever the key says: the library must fit it to its hash word.
#[cfg(any(feature = "sa", feature = "sb", feature = "sc", feature = "sd"))]
mod std_hashers {
    use super::*;
    #[derive(Default, Clone)]
    pub struct Id(u64);
    impl Hasher for Id { fn finish(&self) -> u64 { self.0 } fn write(&mut self, _: &[u8]) {} fn write_u64(&mut self, x: u64) { self.0 = x } }
    #[derive(Clone, Copy, Debug, Default)]
    pub struct KI { pub h: u64, pub id: u8 }
    impl PartialEq for KI { fn eq(&self, o: &Self) -> bool { (self.h == o.h) & (self.id == o.id) } }
    impl Eq for KI {}
    impl Hash for KI { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u64(self.h) } }
    /// The same keys in other types: one without any storage, and a large one.
    #[derive(Clone, Copy, Debug, Default)]
    pub struct Z;
    impl PartialEq for Z { fn eq(&self, _: &Self) -> bool { true } }
    impl Eq for Z {}
    impl Hash for Z { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u64(param(3)) } }
    #[derive(Clone, Copy, Debug, Default)]
    pub struct KB { pub pad: [u64; 9], pub id: u8, pub h: u64 }
    impl PartialEq for KB { fn eq(&self, o: &Self) -> bool { (self.h == o.h) & (self.id == o.id) } }
    impl Eq for KB {}
    impl Hash for KB { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u64(self.h) } }
    macro_rules! alike { ($a:ident $b:ident $x:ident $y:ident $e:expr; $f:expr; $g:expr) => {
        impl PartialEq<$b> for $a { fn eq(&self, o: &$b) -> bool { let ($x, $y) = (self, o); $e } }
        impl PartialEq<$a> for $b { fn eq(&self, o: &$a) -> bool { let ($y, $x) = (self, o); $e } }
        impl HashLike<$b> for $a {}
        impl HashLike<$a> for $b {}
        impl From<$b> for $a { fn from($y: $b) -> $a { let _ = &$y; $f } }
        impl From<$a> for $b { fn from($x: $a) -> $b { let _ = &$x; $g } }
    } }
    alike!(KI Z x _y (x.h == param(3)) & (x.id == 0); KI { h: param(3), id: 0 }; Z);
    alike!(KB Z x _y (x.h == param(3)) & (x.id == 0); KB { pad: [7; 9], h: param(3), id: 0 }; Z);
    alike!(KI KB x y (x.h == y.h) & (x.id == y.id); KI { h: y.h, id: y.id }; KB { pad: [9; 9], h: x.h, id: x.id });
    pub struct Op { pub k: KI, pub ins: bool, pub rep: bool, pub v: u8 }
    pub fn oracle(ops: &[Op], q: &KI) -> (bool, u8) {
        let (mut p, mut v) = (false, 0u64);
        for o in ops { let s = o.k == *q; v = sel(s & o.ins & (o.rep | !p), o.v as u64, v); p = (p | s & o.ins) & !(s & !o.ins); }
        (p, v as u8)
    }
}
#[cfg(any(feature = "sa", feature = "sb", feature = "sc", feature = "sd"))]
mod std_entries {
    use super::*;
    macro_rules! std_entry { ($n:ident, $H:ty, $F:ty) => {
        /// p0 operations, p1 hash mask, p2 id mask, p3 mode.
        pub fn $n() {
            use super::std_hashers::*;
            let (mask, ids, mode) = (param(1), param(2) as u8, param(3));
            dict_history!(hash_trie::HashTrieMap<$H, $F, KI, u8, Id>, param(0) as usize, KI { h: sym_u64() & mask, id: sym_u8() & ids }, mode);
        }
    } }
    std_entry!(std8, u8, u8);
    std_entry!(std16, u16, u16);
    std_entry!(std32, u32, u32);
    std_entry!(std64, u64, u32);

    /// p0 insertions through any of three key types, then one operation through any of them; p1 hash mask, p2 id mask, p3 the storage-less key's hash.
    macro_rules! foreign { ($n:ident, $H:ty, $F:ty) => { pub fn $n() {
        use super::std_hashers::*;
        let (n, mask, ids) = (param(0) as usize, param(1), param(2) as u8);
        let z = KI { h: param(3), id: 0 };
        type M = hash_trie::HashTrieMap<$H, $F, KI, u8, Id>;
        type B = hash_trie::HashTrieMap<$H, $F, KB, u8, Id>;
        let (mut m, mut b) = (M::new(), B::new());
        let mut ops = Vec::new();
        macro_rules! through { ($q:expr, $way:expr, $f:ident) => { match $way { 0 => $f!($q), 1 => $f!(KB::from($q)), _ => $f!(Z) } } }
        let pick = || { let way = below(3); let k = KI { h: sym_u64() & mask, id: sym_u8() & ids }; (if way == 2 { z } else { k }, way) };
        for i in 0..n {
            let (k, way) = pick();
            let rep = sym_u8() & 1 == 0;
            let o = Op { k, ins: true, rep, v: i as u8 };
            let (p, v) = oracle(&ops, &k);
            macro_rules! ins { ($a:expr) => {{
                match m.insert($a, i as u8, rep) { Ok((x, _, _, prev)) => { check((rep | !p) & same(prev.map(|x| *x.1), p, v) & (x.size() == m.size() + (!p) as usize), 1); m = x }, Err((a, w)) => check(!rep & p & (*w == v) & (*a == k), 2) }
                match b.insert($a, i as u8, rep) { Ok((x, ..)) => { check(rep | !p, 3); b = x }, Err((a, w)) => check(!rep & p & (*w == v) & (*a == k), 4) }
            }} }
            through!(k, way, ins);
            ops.push(o);
        }
        let (q, way) = pick();
        let (p, v) = oracle(&ops, &q);
        macro_rules! ask { ($a:expr) => {{
            match m.find(&$a) { Ok((k, w)) => check(p & (*w == v) & (*k == q), 5), Err(_) => check(!p, 6) }
            match b.find(&$a) { Ok((k, w)) => check(p & (*w == v) & (*k == q), 7), Err(_) => check(!p, 8) }
            match m.remove(&$a) { Ok((x, k, w)) => check(p & (*w == v) & (*k == q) & (x.size() + 1 == m.size()) & x.find(&q).is_err(), 9), Err(_) => check(!p, 10) }
            match b.remove(&$a) { Ok((x, k, w)) => check(p & (*w == v) & (*k == q) & (x.size() + 1 == b.size()) & x.find(&q).is_err(), 11), Err(_) => check(!p, 12) }
        }} }
        through!(q, way, ask);
        for o in &ops { let (p, v) = oracle(&ops, &o.k); check(m.find(&o.k).map_or(!p, |x| p & (*x.1 == v)) & b.find(&o.k).map_or(!p, |x| p & (*x.1 == v)), 13); }
        out(m.size() as u64);
        reach(1);
    } } }
    foreign!(foreign8, u8, u8);
    foreign!(foreign64, u64, u32);

    /// The one key of a type without storage, with values that have none either, through itself and a stored key (p1 hash mask, p3 its hash).
    pub fn unit() {
        use super::std_hashers::*;
        let mut m = hash_trie::HashTrieMap::<u64, u32, Z, (), Id>::new();
        let mut s = hash_trie::HashTrieSet::<u64, u32, Z, Id>::new();
        let mut p = false;
        for _ in 0..param(0) {
            let c = below(4);
            check((m.find(&Z).is_ok() == p) & (s.find(&Z).is_ok() == p) & (m.size() == p as usize) & (s.size() == p as usize), 1);
            if c < 2 {
                match m.insert(Z, (), c == 1) { Ok((x, _, _, prev)) => { check((c == 1 || !p) & (prev.is_some() == p), 2); m = x }, Err(_) => check(c == 0 && p, 3) }
                match s.insert(Z, c == 1) { Ok((x, _, prev)) => { check((c == 1 || !p) & (prev.is_some() == p), 4); s = x }, Err(_) => check(c == 0 && p, 5) }
                p = true;
            }
            else if c == 2 {
                match m.remove(&Z) { Ok((x, ..)) => { check(p, 6); m = x }, Err(_) => check(!p, 7) }
                match s.remove(&Z) { Ok((x, _)) => { check(p, 8); s = x }, Err(_) => check(!p, 9) }
                p = false;
            }
            else {
                let q = KI { h: param(3) ^ (sym_u64() & param(1)), id: below(2) };
                let hit = p & (q.h == param(3)) & (q.id == 0);
                check((m.find(&q).is_ok() == hit) & (s.find(&q).is_ok() == hit) & (m.remove(&q).is_ok() == hit), 10);
            }
        }
        out(p as u64);
        reach(1);
    }

    /// The default map with its own hasher, over every pair of bytes (p0 insertions).
    pub fn fnv_map() {
        let n = param(0) as usize;
        let mut m = hash_trie::DefaultHashTrieMap::<u8, u8>::new();
        let mut ks = Vec::new();
        for i in 0..n {
            let k = sym_pick((sym_u8() & param(1) as u8) as u64) as u8;
            let had = ks.contains(&k);
            match m.insert(k, i as u8, false) { Ok(x) => { check(!had, 1); m = x.0; ks.push(k) }, Err(_) => check(had, 2) }
        }
        let q = sym_pick((sym_u8() & param(1) as u8) as u64) as u8;
        check(m.find(&q).is_ok() == ks.contains(&q), 3);
        match m.remove(&q) { Ok((x, k, _)) => { check((*k == q) & (x.size() + 1 == m.size()) & x.find(&q).is_err(), 4); for k in &ks { check(x.find(k).is_ok() == (*k != q), 5) } }, Err(_) => check(!ks.contains(&q), 6) }
        check(m.size() == ks.len(), 7);
        out(m.size() as u64);
        reach(1);
    }
    pub fn fnv_set() {
        let n = param(0) as usize;
        let mut m = hash_trie::DefaultHashTrieSet::<u16>::new();
        let mut ks = Vec::new();
        for _ in 0..n {
            let k = sym_pick((sym_u16() & param(1) as u16) as u64) as u16;
            let had = ks.contains(&k);
            match m.insert(k, false) { Ok(x) => { check(!had, 1); m = x.0; ks.push(k) }, Err(_) => check(had, 2) }
        }
        let q = sym_pick((sym_u16() & param(1) as u16) as u64) as u16;
        check(m.find(&q).is_ok() == ks.contains(&q), 3);
        match m.remove(&q) { Ok((x, k)) => { check((*k == q) & (x.size() + 1 == m.size()) & x.find(&q).is_err(), 4); for k in &ks { check(x.find(k).is_ok() == (*k != q), 5) } }, Err(_) => check(!ks.contains(&q), 6) }
        check(m.size() == ks.len(), 7);
        out(m.size() as u64);
        reach(1);
    }
}
