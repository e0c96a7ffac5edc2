#![allow(dead_code)]
mod rt;
mod types;
#[cfg(feature = "dict")] mod dict;
#[cfg(feature = "xform")] mod xform;
#[cfg(feature = "joint")] mod joint;
#[cfg(any(feature = "set", feature = "setj"))] mod set;
#[cfg(feature = "bits")] mod bits;
#[cfg(feature = "width")] mod width;
#[cfg(feature = "mem")] mod mem;
#[cfg(feature = "share")] mod share;
#[cfg(feature = "long")] mod long;

/// Native replay: harness ENTRY PARAMS INPUTS (comma-separated decimals).
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let nums = |s: Option<&String>| -> Vec<u128> { s.map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default() };
    let mut all: Vec<(&str, extern "C" fn())> = Vec::new();
    #[cfg(feature = "dict")] all.extend(dict::ENTRIES);
    #[cfg(feature = "xform")] all.extend(xform::ENTRIES);
    #[cfg(feature = "joint")] all.extend(joint::ENTRIES);
    #[cfg(any(feature = "set", feature = "setj"))] all.extend(set::ENTRIES);
    #[cfg(feature = "bits")] all.extend(bits::ENTRIES);
    #[cfg(feature = "width")] all.extend(width::ENTRIES);
    #[cfg(feature = "mem")] all.extend(mem::ENTRIES);
    #[cfg(feature = "share")] all.extend(share::ENTRIES);
    #[cfg(feature = "long")] all.extend(long::ENTRIES);
    let (p, i) = (nums(a.get(2)), nums(a.get(3)));
    { let mut s = rt::ST.lock().unwrap(); s.params = p.iter().map(|&x| x as u64).collect(); s.inputs = i; s.outs.reserve(4096); }
    print!("");
    let e = all.iter().find(|e| Some(e.0) == a.get(1).map(|s| s.as_str())).expect("no such entry").1;
    e();
    rt::dump();
    println!("DONE");
}
