//! Bit-word primitives and operation objects, over every word value.
use crate::rt::*;
use hash_trie::{results::*, traits::*, transformations::*};
pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_bits8", h_bits8), ("h_bits16", h_bits16), ("h_bits32", h_bits32), ("h_bits64", h_bits64), ("h_bits128", h_bits128), ("h_bitsusize", h_bitsusize), ("h_consts", h_consts), ("h_ops", h_ops), ("h_set_ops", h_set_ops)];

fn err<T>(r: &Result<T, BitError>) -> u8 { match r { Ok(_) => 0, Err(BitError::CountNotEqualToOne) => 1, Err(BitError::Found) => 2, Err(BitError::NotFound) => 3, Err(BitError::Range) => 4 } }
macro_rules! bits { ($n:ident, $t:ty, $sym:expr, $w:expr) => {
    #[no_mangle] pub extern "C" fn $n() {
        let (w, b): ($t, $t) = ($sym as $t, $sym as $t);
        let i = sym_u64();
        // Exactly one bit, without counting.
        let one = (b != 0) & (b & b.wrapping_sub(1) == 0);
        let has = w & b != 0;
        let r = w.bit_contains(b);
        check((err(&r) == if one { 0 } else { 1 }) & r.map_or(true, |x| x == has), 1);
        let r = w.bit_insert(b);
        check(err(&r) == if !one { 1 } else if has { 2 } else { 0 }, 2);
        if let Ok(x) = r { check((x & b == b) & (x & !b == w & !b), 3); let y = x.bit_remove(b); check(y.map_or(false, |y| y == w), 4); }
        let r = w.bit_remove(b);
        check(err(&r) == if !one { 1 } else if has { 0 } else { 3 }, 5);
        if let Ok(x) = r { check((x & b == 0) & (x | b == w), 6); }
        let r = w.bit_merge(b);
        check(err(&r) == if has { 2 } else { 0 }, 7);
        if let Ok(x) = r { check((x & w == w) & (x & b == b) & (x & !w & !b == 0), 8); }
        let r = <$t>::nth_bit(i as usize);
        check(err(&r) == if i < $w { 0 } else { 4 }, 9);
        if let Ok(x) = r { check((x >> (i as u32 & ($w - 1)) == 1) & (x & x.wrapping_sub(1) == 0), 10); }
        let r = w.bit_index(b);
        check(err(&r) == if !one { 1 } else if has { 0 } else { 3 }, 11);
        if let Ok(x) = r {
            check(x < $w, 12);
            // Narrow words are compared with a sum of bits; wide ones with the compiler's population count, whose
            // encoding the narrow ones exercise.
            let mut n = (w & b.wrapping_sub(1)).count_ones() as usize;
            if $w <= 16 { n = 0; let mut below = true; for k in 0..$w { let bit = w >> k & 1 == 1; below &= b >> k & 1 == 0; n += (below & bit) as usize; } }
            check(x == n, 13);
        }
        let mut n = w.count_ones() as usize;
        if $w <= 16 { n = 0; for k in 0..$w { n += (w >> k & 1) as usize; } }
        check(w.count_ones_t() == n, 14);
        check((w.as_usize() as $t == w) | ($w > 64), 15);
        reach(1);
    }
} }
bits!(h_bits8, u8, sym_u8(), 8);
bits!(h_bits16, u16, sym_u16(), 16);
bits!(h_bits32, u32, sym_u32(), 32);
bits!(h_bits64, u64, sym_u64(), 64);
bits!(h_bits128, u128, ((sym_u64() as u128) << 64 | sym_u64() as u128), 128);
bits!(h_bitsusize, usize, sym_u64(), 64);

/// The word constants agree with each other.
#[no_mangle] pub extern "C" fn h_consts() {
    macro_rules! c { ($t:ty, $h:ty, $id:expr) => {
        check(1usize << <$t as LogB>::log_b() == <$t as MaxOnes>::max_ones(), $id);
        check(<$t as MaskLogB<$h>>::mask_log_b() as usize == <$t as MaxOnes>::max_ones() - 1, $id + 1);
        check(<$t as MaxOnes>::max_ones() == 8 * core::mem::size_of::<$t>(), $id + 2);
    } }
    c!(u8, u8, 10); c!(u16, u16, 20); c!(u32, u32, 30); c!(u64, u64, 40); c!(u128, u128, 50); c!(usize, u64, 60);
    c!(u8, u64, 70); c!(u32, u64, 80); c!(u16, u8, 90);
    // Every slot index a hash can select is a slot.
    let h = sym_u64();
    let i = (h & <u32 as MaskLogB<u64>>::mask_log_b()) as usize;
    check(u32::nth_bit(i).is_ok(), 1);
    let i = (h as u8 & <u8 as MaskLogB<u8>>::mask_log_b()) as usize;
    check(u8::nth_bit(i).is_ok(), 2);
    reach(1);
}

fn j(x: &MapJointTransformResult<u32, u8>) -> (u8, u32, u8) { match x { MapJointTransformResult::UnchangedLR(r) => (0, 0, *r), MapJointTransformResult::UnchangedL(r) => (1, 0, *r), MapJointTransformResult::UnchangedR(r) => (2, 0, *r), MapJointTransformResult::Transformed(v, r) => (3, *v, *r), MapJointTransformResult::Removed(r) => (4, 0, *r) } }
fn t(x: &MapTransformResult<u32, u8>) -> (u8, u32, u8) { match x { MapTransformResult::Unchanged(r) => (0, 0, *r), MapTransformResult::Transformed(v, r) => (1, *v, *r), MapTransformResult::Removed(r) => (2, 0, *r) } }
fn m(x: &MapTransmuteResult<u16, u32, u8>) -> (u8, u16, u32, u8) { match x { MapTransmuteResult::Transmuted(k, v, r) => (1, *k, *v, *r), MapTransmuteResult::Removed(r) => (2, 0, 0, *r) } }
fn mix(a: u16, b: u32, c: u16, d: u32) -> u32 { (a as u32) ^ b.rotate_left(3) ^ ((c as u32) << 9) ^ d.rotate_left(17) }
/// Map operation objects: calling means calling the stored function; flipping swaps the roles of the arguments and
/// of "left" and "right" in the answer, and flipping twice changes nothing.
#[no_mangle] pub extern "C" fn h_ops() {
    let (k, v, l, w) = (sym_u16(), sym_u32(), sym_u16(), sym_u32());
    let (c, r) = (below(5), sym_u8());
    let swap = |a: (u8, u32, u8)| (match a.0 { 1 => 2, 2 => 1, x => x }, a.1, a.2);
    let g = new_map_joint_transform_generic(|k: &u16, v: &u32, l: &u16, w: &u32| match c { 0 => MapJointTransformResult::UnchangedLR(r), 1 => MapJointTransformResult::UnchangedL(r), 2 => MapJointTransformResult::UnchangedR(r), 3 => MapJointTransformResult::Transformed(mix(*k, *v, *l, *w), r), _ => MapJointTransformResult::Removed(r) });
    let a = j(&g.call(&k, &v, &l, &w));
    check(a == (c, if c == 3 { mix(k, v, l, w) } else { 0 }, r), 1);
    check(j(&g.flip().call(&l, &w, &k, &v)) == swap(a), 2);
    check(j(&g.flip().flip().call(&k, &v, &l, &w)) == a, 3);
    macro_rules! konst { ($c:expr, $kind:expr, $id:expr) => {{ let o = $c; check(j(&o.call(&k, &v, &l, &w)) == ($kind, 0, r), $id); check(j(&o.flip().call(&l, &w, &k, &v)) == swap(($kind, 0, r)), $id + 1); check(j(&o.flip().flip().call(&k, &v, &l, &w)) == ($kind, 0, r), $id + 2); }} }
    konst!(new_map_joint_transform_unchangedlr::<u16, u32, u8>(r), 0, 10);
    konst!(new_map_joint_transform_unchangedl::<u16, u32, u8>(r), 1, 20);
    konst!(new_map_joint_transform_unchangedr::<u16, u32, u8>(r), 2, 30);
    konst!(new_map_joint_transform_removed::<u16, u32, u8>(r), 4, 40);
    let d = below(3);
    let one = |d: u8, x: u32| match d { 0 => MapTransformResult::Unchanged(r), 1 => MapTransformResult::Transformed(x, r), _ => MapTransformResult::Removed(r) };
    let exp = |x: u32| (d, if d == 1 { x } else { 0 }, r);
    let o = new_map_transform_generic(|k: &u16, v: &u32| one(d, mix(*k, *v, 0, 0)));
    check(t(&o.call(&k, &v)) == exp(mix(k, v, 0, 0)), 50);
    check(t(&new_map_transform_unchanged::<u16, u32, u8>(r).call(&k, &v)) == (0, 0, r), 51);
    check(t(&new_map_transform_removed::<u16, u32, u8>(r).call(&k, &v)) == (2, 0, r), 52);
    let o = new_map_transform_transmute_generic(|k: &u16, v: &u32, l: &u16, w: &u32| one(d, mix(*k, *v, *l, *w)));
    check(t(&o.call_transform_transmute(&k, &v, &l, &w)) == exp(mix(k, v, l, w)), 53);
    check(t(&o.flip_transform_transmute().call_transmute_transform(&l, &w, &k, &v)) == exp(mix(k, v, l, w)), 54);
    let o = new_map_transmute_transform_generic(|k: &u16, v: &u32, l: &u16, w: &u32| one(d, mix(*k, *v, *l, *w)));
    check(t(&o.call_transmute_transform(&k, &v, &l, &w)) == exp(mix(k, v, l, w)), 55);
    check(t(&o.flip_transmute_transform().call_transform_transmute(&l, &w, &k, &v)) == exp(mix(k, v, l, w)), 56);
    check(t(&new_map_transform_transmute_unchanged::<u16, u32, u16, u32, u8>(r).flip_transform_transmute().call_transmute_transform(&l, &w, &k, &v)) == (0, 0, r), 57);
    check(t(&new_map_transform_transmute_removed::<u16, u32, u16, u32, u8>(r).flip_transform_transmute().call_transmute_transform(&l, &w, &k, &v)) == (2, 0, r), 58);
    check(t(&new_map_transmute_transform_unchanged::<u16, u32, u16, u32, u8>(r).flip_transmute_transform().call_transform_transmute(&l, &w, &k, &v)) == (0, 0, r), 59);
    check(t(&new_map_transmute_transform_removed::<u16, u32, u16, u32, u8>(r).flip_transmute_transform().call_transform_transmute(&l, &w, &k, &v)) == (2, 0, r), 60);
    let two = |d: u8, k: u16, x: u32| if d == 1 { MapTransmuteResult::Transmuted(k, x, r) } else { MapTransmuteResult::Removed(r) };
    let exp = |k: u16, x: u32| if d == 1 { (1, k, x, r) } else { (2, 0, 0, r) };
    let o = new_map_transmute_generic(|k: &u16, v: &u32| two(d, *k, mix(*k, *v, 0, 0)));
    check(m(&o.call(&k, &v)) == exp(k, mix(k, v, 0, 0)), 61);
    check(m(&new_map_transmute_removed::<u16, u32, u16, u32, u8>(r).call(&k, &v)) == (2, 0, 0, r), 62);
    let o = new_map_transmute_transmute_generic(|k: &u16, v: &u32, l: &u16, w: &u32| two(d, *k, mix(*k, *v, *l, *w)));
    check(m(&o.call_transmute(&k, &v, &l, &w)) == exp(k, mix(k, v, l, w)), 63);
    check(m(&o.flip().call_transmute(&l, &w, &k, &v)) == exp(k, mix(k, v, l, w)), 64);
    check(m(&new_map_transmute_transmute_removed::<u16, u32, u16, u32, u16, u32, u8>(r).flip().call_transmute(&l, &w, &k, &v)) == (2, 0, 0, r), 65);
    reach(1);
}

fn sj(x: &SetJointTransformResult<u8>) -> (u8, u8) { match x { SetJointTransformResult::UnchangedLR(r) => (0, *r), SetJointTransformResult::UnchangedL(r) => (1, *r), SetJointTransformResult::UnchangedR(r) => (2, *r), SetJointTransformResult::Removed(r) => (4, *r) } }
fn st(x: &SetTransformResult<u8>) -> (u8, u8) { match x { SetTransformResult::Unchanged(r) => (0, *r), SetTransformResult::Removed(r) => (2, *r) } }
fn sm(x: &SetTransmuteResult<u32, u8>) -> (u8, u32, u8) { match x { SetTransmuteResult::Transmuted(k, r) => (1, *k, *r), SetTransmuteResult::Removed(r) => (2, 0, *r) } }
/// The same for set operation objects; the answer may depend on the arguments and their order.
#[no_mangle] pub extern "C" fn h_set_ops() {
    let (k, l) = (sym_u16(), sym_u16());
    let (c, d, r) = (below(4), below(2), sym_u8());
    let swap = |a: (u8, u8)| (match a.0 { 1 => 2, 2 => 1, x => x }, a.1);
    let f = |k: u16, l: u16| r ^ (k as u8) ^ (l as u8).rotate_left(2) ^ ((k >> 8) as u8).rotate_left(5);
    let g = new_set_joint_transform_generic(|k: &u16, l: &u16| { let r = f(*k, *l); match c { 0 => SetJointTransformResult::UnchangedLR(r), 1 => SetJointTransformResult::UnchangedL(r), 2 => SetJointTransformResult::UnchangedR(r), _ => SetJointTransformResult::Removed(r) } });
    let a = sj(&g.call(&k, &l));
    check(a == (if c == 3 { 4 } else { c }, f(k, l)), 1);
    check(sj(&g.flip().call(&l, &k)) == swap(a), 2);
    check(sj(&g.flip().flip().call(&k, &l)) == a, 3);
    macro_rules! konst { ($c:expr, $kind:expr, $id:expr) => {{ let o = $c; check(sj(&o.call(&k, &l)) == ($kind, r), $id); check(sj(&o.flip().call(&l, &k)) == swap(($kind, r)), $id + 1); check(sj(&o.flip().flip().call(&k, &l)) == ($kind, r), $id + 2); }} }
    konst!(new_set_joint_transform_unchangedlr::<u16, u8>(r), 0, 10);
    konst!(new_set_joint_transform_unchangedl::<u16, u8>(r), 1, 20);
    konst!(new_set_joint_transform_unchangedr::<u16, u8>(r), 2, 30);
    konst!(new_set_joint_transform_removed::<u16, u8>(r), 4, 40);
    let o = new_set_transform_generic(|k: &u16| if d == 0 { SetTransformResult::Unchanged(f(*k, 0)) } else { SetTransformResult::Removed(f(*k, 1)) });
    check(st(&o.call(&k)) == if d == 0 { (0, f(k, 0)) } else { (2, f(k, 1)) }, 50);
    check((st(&new_set_transform_unchanged::<u16, u8>(r).call(&k)) == (0, r)) & (st(&new_set_transform_removed::<u16, u8>(r).call(&k)) == (2, r)), 51);
    let o = new_set_transform_transmute_generic(|k: &u16, l: &u16| if d == 0 { SetTransformResult::Unchanged(f(*k, *l)) } else { SetTransformResult::Removed(f(*k, *l)) });
    let e = (2 * d, f(k, l));
    check(st(&o.call_transmute(&k, &l)) == e, 52);
    check(st(&o.flip_transmute().call_transmute(&l, &k)) == e, 53);
    check(st(&new_set_transform_transmute_unchanged::<u16, u16, u8>(r).flip_transmute().call_transmute(&l, &k)) == (0, r), 54);
    check(st(&new_set_transform_transmute_removed::<u16, u16, u8>(r).flip_transmute().call_transmute(&l, &k)) == (2, r), 55);
    let o = new_set_transmute_generic(|k: &u16| if d == 1 { SetTransmuteResult::Transmuted(*k as u32 * 3, r) } else { SetTransmuteResult::Removed(r) });
    check(sm(&o.call(&k)) == if d == 1 { (1, k as u32 * 3, r) } else { (2, 0, r) }, 56);
    check(sm(&new_set_transmute_removed::<u16, u32, u8>(r).call(&k)) == (2, 0, r), 57);
    let o = new_set_transmute_transmute_generic(|k: &u16, l: &u16| if d == 1 { SetTransmuteResult::Transmuted((*k as u32) << 16 | *l as u32, r) } else { SetTransmuteResult::Removed(r) });
    let e = if d == 1 { (1, (k as u32) << 16 | l as u32, r) } else { (2, 0, r) };
    check(sm(&o.call_transmute(&k, &l)) == e, 58);
    check(sm(&o.flip().call_transmute(&l, &k)) == e, 59);
    check(sm(&new_set_transmute_transmute_removed::<u16, u16, u32, u8>(r).flip().call_transmute(&l, &k)) == (2, 0, r), 60);
    reach(1);
}
