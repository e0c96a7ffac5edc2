//! Dictionary behaviour: histories of insert/remove, lookups, size, visit, persistence.
use crate::{rt::*, types::*};
pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_find", h_find), ("h_insert", h_insert), ("h_remove", h_remove), ("h_persist", h_persist), ("h_visit", h_visit), ("h_key", h_key), ("h_empty", h_empty), ("h_after", h_after)];

/// One recorded operation.
#[derive(Clone, Copy)]
struct Op { k: K, ins: bool, rep: bool, v: u8 }
#[derive(Clone, Copy)]
struct Ans { p: bool, v: u8, t: u8 }

/// Branch-free dictionary oracle: what `q` maps to after `ops`.
fn oracle(ops: &[Op], q: &K) -> Ans {
    let (mut p, mut v, mut t) = (false, 0u64, 0u64);
    for o in ops {
        let m = same(&o.k, q);
        let take = m & o.ins & (o.rep | !p);
        v = sel(take, o.v as u64, v); t = sel(take, o.k.tag as u64, t);
        p = (p | (m & o.ins)) & !(m & !o.ins);
    }
    Ans { p, v: v as u8, t: t as u8 }
}
fn count(ops: &[Op]) -> u64 {
    let mut n = 0;
    for i in 0..ops.len() { let mut first = true; for j in 0..i { first &= !same(&ops[i].k, &ops[j].k); } n += (first & oracle(ops, &ops[i].k).p) as u64; }
    n
}
/// An arbitrary operation; mode 0: any, 1: insertions (replacing or not), 2: insertions then removals.
fn op(i: usize, mask: u8, ids: u8, mode: u64, n: usize, base: u8) -> Op {
    let k = key(mask, ids).tagged(i as u8);
    let c = if mode == 3 { (i as u8) & 1 } else { sym_u8() };
    let ins = match mode { 0 => c & 1 == 0, 1 => true, 2 => i < (n + 1) / 2, _ => true };
    Op { k, ins, rep: c & 2 == 0, v: base + i as u8 }
}
fn step(m: M, o: &Op) -> M {
    if o.ins { match m.insert(o.k, o.v, o.rep) { Ok((m2, ..)) => m2, Err(_) => m } }
    else { match m.remove(&o.k) { Ok((m2, ..)) => m2, Err(_) => m } }
}
fn answer(m: &M, q: &K, a: Ans, id: u32) {
    match m.find(q) {
        Ok((k, v)) => { out(*v as u64); check(a.p & same(k, q) & (*v == a.v) & (k.tag == a.t), id); },
        Err(_) => { out(0); check(!a.p, id + 1) },
    }
}
/// p0 operations, p1 hash mask, p2 id mask, p3 mode.
fn history() -> (Vec<Op>, M, u8, u8) { history_from(100) }
fn history_from(base: u8) -> (Vec<Op>, M, u8, u8) {
    let (n, mask, ids, mode) = (param(0) as usize, param(1) as u8, param(2) as u8, param(3));
    let (mut ops, mut m) = (Vec::new(), M::new());
    for i in 0..n { let o = op(i, mask, ids, mode, n, base); m = step(m, &o); ops.push(o); }
    (ops, m, mask, ids)
}

/// After any history, any lookup answers as the history says.
#[no_mangle] pub extern "C" fn h_find() {
    let (ops, m, mask, ids) = history();
    let q = key(mask, ids);
    answer(&m, &q, oracle(&ops, &q), 1);
    for (i, o) in ops.iter().enumerate() { answer(&m, &o.k, oracle(&ops, &o.k), 10 + 2 * i as u32); }
    check(m.size() as u64 == count(&ops), 3);
    reach(1);
}

/// Everything an insertion promises, after any history.
#[no_mangle] pub extern "C" fn h_insert() {
    let (ops, m, mask, ids) = history();
    let k = key(mask, ids).tagged(50);
    let rep = sym_u8() & 1 == 0;
    let a = oracle(&ops, &k);
    let n = m.size();
    match m.insert(k, 7, rep) {
        Ok((m2, rk, rv, prev)) => {
            check(rep | !a.p, 1);
            match prev {
                Some((pk, pv)) => check(a.p & same(pk, &k) & (pk.tag == a.t) & (*pv == a.v), 2),
                None => check(!a.p, 3),
            }
            match m2.find(&k) {
                Ok((fk, fv)) => {
                    check(same(fk, &k) & (fk.tag == 50) & (*fv == 7), 4);
                    check((rk == fk as *const K) & (rv == fv as *const u8), 5);
                    let (rk, rv) = unsafe { (&*rk, &*rv) };
                    check(same(rk, &k) & (rk.tag == 50) & (*rv == 7), 6);
                },
                Err(_) => check(false, 7),
            }
            check(m2.size() == n + (!a.p) as usize, 8);
            for (i, o) in ops.iter().enumerate() { let b = oracle(&ops, &o.k); let s = same(&o.k, &k); answer(&m2, &o.k, Ans { p: b.p | s, v: sel(s, 7, b.v as u64) as u8, t: sel(s, 50, b.t as u64) as u8 }, 20 + 2 * i as u32); }
        },
        Err((ek, ev)) => {
            check(!rep & a.p & same(ek, &k) & (ek.tag == a.t) & (*ev == a.v), 9);
            if let Ok((fk, fv)) = m.find(&k) { check(core::ptr::eq(fk, ek) & core::ptr::eq(fv, ev), 10) } else { check(false, 11) }
        },
    }
    answer(&m, &k, a, 12);
    check(m.size() == n, 14);
    reach(1);
}

/// Everything a removal promises, after any history.
#[no_mangle] pub extern "C" fn h_remove() {
    let (ops, m, mask, ids) = history();
    let k = key(mask, ids).tagged(50);
    let a = oracle(&ops, &k);
    let n = m.size();
    match m.remove(&k) {
        Ok((m2, rk, rv)) => {
            check(a.p & same(rk, &k) & (rk.tag == a.t) & (*rv == a.v), 1);
            check(m2.find(&k).is_err(), 2);
            check(m2.size() == n - 1, 3);
            for (i, o) in ops.iter().enumerate() { let b = oracle(&ops, &o.k); answer(&m2, &o.k, Ans { p: b.p & !same(&o.k, &k), ..b }, 20 + 2 * i as u32); }
            match m2.remove(&k) { Ok(_) => check(false, 4), Err(_) => {} }
            // and back again
            match m2.insert(k, 9, false) { Ok((m3, _, _, prev)) => check(prev.is_none() & (m3.size() == n) & m3.find(&k).map_or(false, |(x, v)| same(x, &k) & (*v == 9)), 5), Err(_) => check(false, 6) }
        },
        Err(_) => check(!a.p, 7),
    }
    answer(&m, &k, a, 8);
    check(m.size() == n, 10);
    reach(1);
}

/// Every version of a history keeps answering as it did when it was made, and so do references taken from it.
#[no_mangle] pub extern "C" fn h_persist() {
    let (n, mask, ids, mode) = (param(0) as usize, param(1) as u8, param(2) as u8, param(3));
    let mut vs: Vec<M> = vec![M::new()];
    let mut ops: Vec<Op> = Vec::new();
    for i in 0..n {
        let o = op(i, mask, ids, mode, n, 100);
        let m = vs[i].clone();
        let m = step(m, &o);
        vs.push(m);
        ops.push(o);
    }
    for i in 0..=n {
        check(vs[i].size() as u64 == count(&ops[..i]), 1);
        for j in 0..n { answer(&vs[i], &ops[j].k, oracle(&ops[..i], &ops[j].k), 100 + 2 * (i * n + j) as u32); }
    }
    // a reference into the newest version outlives its ancestors
    if n > 0 {
        let last = vs.pop().unwrap();
        let r = last.find(&ops[n - 1].k).ok();
        drop(vs);
        if let Some((k, v)) = r { let a = oracle(&ops, &ops[n - 1].k); check(a.p & same(k, &ops[n - 1].k) & (*v == a.v), 2); }
        // and the newest version outlives them too
        for j in 0..n { answer(&last, &ops[j].k, oracle(&ops, &ops[j].k), 3); }
    }
    reach(1);
}

/// visit meets every entry exactly once, with its own value; size counts them.
#[no_mangle] pub extern "C" fn h_visit() {
    let (ops, m, ..) = history();
    let s = Seen::new();
    m.visit(|k, v| { let i = (*v as usize).wrapping_sub(100); s.note((*v).wrapping_sub(100), i < ops.len() && same(k, &ops[i].k) & (k.tag as usize == i)) });
    let mut exp = 0u64;
    for i in 0..ops.len() { let a = oracle(&ops, &ops[i].k); exp |= sel(a.p & (a.v == ops[i].v), 1 << i, 0); }
    out(s.bits.get());
    check((s.bits.get() == exp) & !s.bad.get(), 1);
    check((s.n.get() == count(&ops)) & (m.size() as u64 == s.n.get()), 2);
    let c = m.clone();
    let t = Seen::new();
    c.visit(|_, v| t.note((*v).wrapping_sub(100), true));
    check(t.bits.get() == s.bits.get(), 3);
    reach(1);
}

/// Any key type that hashes and compares like the stored one finds, inserts and removes the same entries.
#[no_mangle] pub extern "C" fn h_key() {
    let (ops, m, mask, ids) = history();
    let k = key(mask, ids).tagged(50);
    let l = L::from(k);
    let a = oracle(&ops, &k);
    let n = m.size();
    match (m.find(&l), m.find(&k)) {
        (Ok((x, v)), Ok((y, w))) => check(a.p & core::ptr::eq(x, y) & core::ptr::eq(v, w) & (*v == a.v), 1),
        (Err(_), Err(_)) => check(!a.p, 2),
        _ => check(false, 3),
    }
    let c = C::of(&k);
    conversions();
    match m.insert(c, W(7), false) {
        Ok((m2, rk, _, prev)) => check(!a.p & (conversions() == 1) & prev.is_none() & (m2.size() == n + 1) & m2.find(&k).map_or(false, |(x, v)| core::ptr::eq(x, rk) & same(x, &k) & (x.tag == 50) & (*v == 7)), 4),
        Err((x, v)) => check(a.p & (conversions() == 0) & same(x, &k) & (*v == a.v) & (x.tag == a.t), 5),
    }
    match m.insert(c, 8, true) {
        Ok((m2, _, _, prev)) => check((prev.is_some() == a.p) & (conversions() == 1) & (m2.size() == n + (!a.p) as usize) & m2.find(&k).map_or(false, |(x, v)| same(x, &k) & (x.tag == 50) & (*v == 8)), 6),
        Err(_) => check(false, 7),
    }
    match m.remove(&l) {
        Ok((m2, x, v)) => check(a.p & same(x, &k) & (*v == a.v) & (m2.size() == n - 1) & m2.find(&k).is_err(), 8),
        Err(_) => check(!a.p, 9),
    }
    match (m.find(&c), m.remove(&c)) {
        (Ok((x, _)), Ok((m2, y, _))) => check(a.p & core::ptr::eq(x, y) & (m2.size() == n - 1), 10),
        (Err(_), Err(_)) => check(!a.p, 11),
        _ => check(false, 12),
    }
    check(conversions() == 0, 13);
    reach(1);
}

/// The empty map.
#[no_mangle] pub extern "C" fn h_empty() {
    let q = key(255, 255);
    let m = M::new();
    let d = M::default();
    check((m.size() == 0) & (d.size() == 0) & m.find(&q).is_err() & m.remove(&q).is_err() & d.find(&q).is_err(), 1);
    let s = Seen::new();
    m.visit(|_, v| s.note(*v, false));
    check(s.n.get() == 0, 2);
    match d.insert(q, 1, false) { Ok((x, ..)) => { check((x.size() == 1) & x.find(&q).is_ok(), 3); if let Ok((y, ..)) = x.remove(&q) { check((y.size() == 0) & y.find(&q).is_err(), 4); } else { check(false, 5) } }, Err(_) => check(false, 6) }
    reach(1);
}

/// After any history the map is sound all the way down: entries can be dropped and added in any combination (p4: how).
#[no_mangle] pub extern "C" fn h_after() {
    let (ops, m, mask, ids) = history_from(0);
    let s = Seen::new();
    let mut exp = 0u64;
    for i in 0..ops.len() { let a = oracle(&ops, &ops[i].k); exp |= sel(a.p & (a.v == ops[i].v), 1 << i, 0); }
    m.visit(|_, v| s.note(*v, true));
    check((s.bits.get() == exp) & !s.bad.get(), 1);
    crate::aftermath!(m, M, K, param(4), mask, ids, false);
    reach(1);
}
