//! One-map operations: transform and transmute, against a per-entry oracle.
use crate::{rt::*, types::*};
use hash_trie::{results::*, transformations::*};
pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_transform", h_transform), ("h_transmute", h_transmute), ("h_transform_const", h_transform_const), ("h_transform_eq", h_transform_eq), #[cfg(feature = "xforma")] ("h_transform_after", h_transform_after), #[cfg(feature = "xforma")] ("h_transmute_after", h_transmute_after)];

struct Pre { n: usize, mask: u8, ids: u8, par: bool, v: Vec<K>, kind: [u8; 8], m: M }
/// p0 entries, p1 hash mask, p2 id mask, p3 flags (1: middle-index strategy, 2: ghost entry).
fn pre(kinds: u8) -> Pre {
    let (n, mask, ids, fl) = (param(0) as usize, param(1) as u8, param(2) as u8, param(3));
    calls();
    let v = keys(n, mask, ids, true, 0);
    let mut kind = [0u8; 8];
    for i in 0..n { kind[i] = below(kinds); }
    let m = build(&v, 0, fl & 2 != 0, mask, ids);
    Pre { n, mask, ids, par: fl & 1 != 0, v, kind, m }
}

/// What a derived map must look like: value i (kept) or 16+i (changed) for key i, nothing if dropped.
fn expect(p: &Pre, kind: &[u8; 8]) -> (u64, u64) {
    let (mut bits, mut n) = (0u64, 0u64);
    for i in 0..p.n {
        bits |= sel(kind[i] == 0, 1 << i, 0) | sel(kind[i] == 1, 1 << (16 + i), 0);
        n += (kind[i] != 2) as u64;
    }
    (bits, n)
}
macro_rules! verify { ($p:expr, $m:expr, $kind:expr, $base:expr, $tag:expr) => {{
    let (p, m) = (&$p, &$m);
    let (bits, n) = expect(p, $kind);
    let s = Seen::new();
    m.visit(|k, v| {
        let i = (*v % 16) as usize;
        s.note(*v, i < p.n && (k.h == p.v[i].h) & (k.id == p.v[i].id) & (k.tag == p.v[i].tag + if *v >= 16 { $tag } else { 0 }));
    });
    out(s.bits.get());
    check((s.bits.get() == bits) & !s.bad.get(), $base);
    check(m.size() as u64 == n, $base + 1);
    for i in 0..p.n {
        match m.find(&p.v[i]) {
            Ok((k, v)) => check((k.h == p.v[i].h) & (k.id == p.v[i].id) & ((*v as usize == i) & ($kind[i] == 0) | (*v as usize == 16 + i) & ($kind[i] == 1)), $base + 2),
            Err(_) => check($kind[i] == 2, $base + 3),
        }
    }
}} }
/// The original must be untouched.
fn original(p: &Pre, id: u32) {
    let s = Seen::new();
    p.m.visit(|k, v| s.note(*v, (*v as usize) < p.n && same(k, &p.v[*v as usize])));
    check((s.bits.get() == (1u64 << p.n) - 1) & !s.bad.get() & (p.m.size() == p.n), id);
}

/// transform: every entry kept, changed or dropped as the operation says; reduction covers each entry once.
#[no_mangle] pub extern "C" fn h_transform() {
    let p = pre(3);
    let (kind, v) = (&p.kind, &p.v);
    let op = new_map_transform_generic(|k: &K, x: &u8| {
        let i = *x as usize;
        check(same(k, &v[i]), 10);
        let r = once(1 << (4 * i)) as u64;
        match kind[i] { 0 => MapTransformResult::Unchanged(r), 1 => MapTransformResult::Transformed(16 + *x, r), _ => MapTransformResult::Removed(r) }
    });
    let (m2, red) = block_on(p.m.transform(add, op, strat(p.par)));
    let mut exp = 0u64;
    for i in 0..p.n { exp += 1 << (4 * i); }
    out(red);
    check(red == exp, 11);
    check(calls() == exp as u128, 14);
    verify!(p, m2, kind, 20, 0);
    original(&p, 12);
    reach(1);
}

/// transmute: as transform, but keys and values take new types.
#[no_mangle] pub extern "C" fn h_transmute() {
    let p = pre(2);
    let v = &p.v;
    let mut kind = p.kind;
    for i in 0..p.n { kind[i] += 1; }
    let kd = &kind;
    let op = new_map_transmute_generic(|k: &K, x: &u8| {
        let i = *x as usize;
        check(same(k, &v[i]), 10);
        let r = once(1 << (4 * i)) as u64;
        if kd[i] == 1 { MapTransmuteResult::Transmuted(S::from(k.tagged(k.tag + 100)), 16 + *x, r) } else { MapTransmuteResult::Removed(r) }
    });
    let (m2, red): (MS, u64) = unsafe { p.m.transmute(add, op) };
    let mut exp = 0u64;
    for i in 0..p.n { exp += 1 << (4 * i); }
    out(red);
    check(red == exp, 11);
    check(calls() == exp as u128, 14);
    verify!(p, m2, kd, 20, 100);
    original(&p, 12);
    reach(1);
}

type Never1 = fn(&K, &u8) -> MapTransformResult<u8, u64>;
/// Constant operations give the same map as a generic operation answering the same for every entry.
#[no_mangle] pub extern "C" fn h_transform_const() {
    let mut p = pre(1);
    let which = param(4);
    let op: MapTransform<u64, Never1> = if which == 0 { MapTransform::Unchanged(5) } else { MapTransform::Removed(5) };
    let (m2, red) = block_on(p.m.transform(add, op, strat(p.par)));
    for i in 0..p.n { p.kind[i] = if which == 0 { 0 } else { 2 }; }
    // The reduction may count the constant once per subtree, never something else.
    check(red % 5 == 0 && red <= 5 * 64, 11);
    let kind = p.kind;
    verify!(p, m2, &kind, 20, 0);
    if which == 0 { check(m2 == p.m, 13); }
    if which == 1 {
        let op = new_map_transmute_removed(7u64);
        let _: &MapTransmute<u64, fn(&K, &u8) -> MapTransmuteResult<S, u8, u64>> = &op;
        let (m3, red): (MS, u64) = unsafe { p.m.transmute(add, op) };
        check((m3.size() == 0) & (red % 7 == 0), 14);
        for k in &p.v { check(m3.find(k).is_err(), 15); }
    }
    original(&p, 12);
    reach(1);
}

/// An operation that leaves everything as it was yields an equal collection; equal collections hold the same entries.
#[no_mangle] pub extern "C" fn h_transform_eq() {
    let p = pre(3);
    let kind = &p.kind;
    let op = new_map_transform_generic(|_: &K, x: &u8| match kind[*x as usize] { 0 => MapTransformResult::Unchanged(0u64), 1 => MapTransformResult::Transformed(16 + *x, 0), _ => MapTransformResult::Removed(0) });
    let (m2, _) = block_on(p.m.transform(add, op, strat(p.par)));
    let mut all = true;
    for i in 0..p.n { all &= kind[i] == 0; }
    let e = m2 == p.m;
    out(e as u64);
    check(e == all || p.n == 0, 1);
    let c = m2.clone();
    check(c == m2 && m2 == m2 && (p.m == m2) == e && (m2 != p.m) != e, 2);
    reach(1);
}

/// What a transform leaves behind is a map like any other (p4: how).
#[cfg(feature = "xforma")]
#[no_mangle] pub extern "C" fn h_transform_after() {
    let p = pre(3);
    let kind = &p.kind;
    let op = new_map_transform_generic(|_: &K, x: &u8| match kind[*x as usize] { 0 => MapTransformResult::Unchanged(0u64), 1 => MapTransformResult::Transformed(16 + *x, 0), _ => MapTransformResult::Removed(0) });
    let (m2, _) = block_on(p.m.transform(add, op, strat(p.par)));
    crate::aftermath!(m2, M, K, param(4), p.mask, p.ids, p.par);
    original(&p, 12);
    reach(1);
}
#[cfg(feature = "xforma")]
#[no_mangle] pub extern "C" fn h_transmute_after() {
    let p = pre(2);
    let kind = &p.kind;
    let op = new_map_transmute_generic(|k: &K, x: &u8| if kind[*x as usize] == 0 { MapTransmuteResult::Transmuted(S::from(k.tagged(k.tag + 100)), 16 + *x, 0u64) } else { MapTransmuteResult::Removed(0) });
    let (m2, _): (MS, u64) = unsafe { p.m.transmute(add, op) };
    crate::aftermath!(m2, MS, S, param(4), p.mask, p.ids, p.par);
    original(&p, 12);
    reach(1);
}
