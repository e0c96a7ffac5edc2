//! Intrinsics of the symbolic executor. `lirsym` intercepts these by name; run natively, the same
//! functions read a concrete input vector, so that every model the solver returns can be replayed.
use std::sync::Mutex;

pub struct State { pub inputs: Vec<u128>, pub pos: usize, pub params: Vec<u64>, pub outs: Vec<u64> }
pub static ST: Mutex<State> = Mutex::new(State { inputs: Vec::new(), pos: 0, params: Vec::new(), outs: Vec::new() });

fn next() -> u128 { let mut s = ST.lock().unwrap(); let p = s.pos; s.pos += 1; s.inputs.get(p).copied().unwrap_or(0) }
pub fn dump() { let s = ST.lock().unwrap(); print!("OUT"); for o in &s.outs { print!(" {o}"); } println!(); }

#[no_mangle] #[inline(never)] pub extern "C" fn sym_u8() -> u8 { next() as u8 }
#[no_mangle] #[inline(never)] pub extern "C" fn sym_u16() -> u16 { next() as u16 }
#[no_mangle] #[inline(never)] pub extern "C" fn sym_u32() -> u32 { next() as u32 }
#[no_mangle] #[inline(never)] pub extern "C" fn sym_u64() -> u64 { next() as u64 }
#[no_mangle] #[inline(never)] pub extern "C" fn sym_param(i: u32) -> u64 { ST.lock().unwrap().params.get(i as usize).copied().unwrap_or(0) }
#[no_mangle] #[inline(never)] pub extern "C" fn sym_assume(c: u8) { if c & 1 == 0 { println!("ASSUME"); std::process::exit(78) } }
#[no_mangle] #[inline(never)] pub extern "C" fn sym_assert(c: u8, id: u32) { if c & 1 == 0 { println!("ASSERT {id}"); std::process::exit(77) } }
#[no_mangle] #[inline(never)] pub extern "C" fn sym_reach(id: u32) { core::hint::black_box(id); }
#[no_mangle] #[inline(never)] pub extern "C" fn sym_out(v: u64) { ST.lock().unwrap().outs.push(v) }
#[repr(C)] struct Mi { a: [usize; 7], uordblks: usize, b: [usize; 2] }
extern "C" { fn mallinfo2() -> Mi; }
/// Live heap (blocks for the executor, bytes natively): only ever compared for equality.
#[no_mangle] #[inline(never)] pub extern "C" fn sym_live() -> u64 { unsafe { mallinfo2().uordblks as u64 } }
#[no_mangle] #[inline(never)] pub extern "C" fn sym_pick(v: u64) -> u64 { core::hint::black_box(v) }
/// Runs `f(p)` and `g(q)` as two threads until both return. Natively one after the other unless HARNESS_THREADS is set.
#[no_mangle] #[inline(never)] pub extern "C" fn sym_par(f: extern "C" fn(*mut u8), p: *mut u8, g: extern "C" fn(*mut u8), q: *mut u8, preemptions: u32) {
    core::hint::black_box(preemptions);
    #[cfg(feature = "share")]
    if std::env::var_os("HARNESS_THREADS").is_some() {
        let (a, b) = (p as usize, q as usize);
        let gate = std::sync::Barrier::new(2);
        std::thread::scope(|s| { s.spawn(|| { gate.wait(); f(a as *mut u8) }); s.spawn(|| { gate.wait(); g(b as *mut u8) }); });
        return;
    }
    f(p);
    g(q);
}

// Address-taken, so that link-time optimisation can neither specialise nor drop their parameters.
#[used] static K1: (extern "C" fn() -> u8, extern "C" fn() -> u16, extern "C" fn() -> u32, extern "C" fn() -> u64) = (sym_u8, sym_u16, sym_u32, sym_u64);
#[used] static K2: (extern "C" fn(u32) -> u64, extern "C" fn(u8), extern "C" fn(u8, u32), extern "C" fn(u32), extern "C" fn(u64), extern "C" fn() -> u64, extern "C" fn(u64) -> u64) = (sym_param, sym_assume, sym_assert, sym_reach, sym_out, sym_live, sym_pick);
#[used] static K3: extern "C" fn(extern "C" fn(*mut u8), *mut u8, extern "C" fn(*mut u8), *mut u8, u32) = sym_par;

pub fn assume(c: bool) { sym_assume(c as u8) }
pub fn check(c: bool, id: u32) { sym_assert(c as u8, id) }
pub fn reach(id: u32) { sym_reach(id) }
pub fn out(v: u64) { sym_out(v) }
pub fn param(i: u32) -> u64 { sym_param(i) }
struct Calls(core::cell::UnsafeCell<u128>);
unsafe impl Sync for Calls {}
static CALLS: Calls = Calls(core::cell::UnsafeCell::new(0));
/// Notes that an operation was called (with the contribution it makes, which tells what it was called for), whether or not its
/// answer is used; for operations that run on one thread.
pub fn once(r: u128) -> u128 { unsafe { *CALLS.0.get() = (*CALLS.0.get()).wrapping_add(r) }; r }
/// What was noted since last asked.
pub fn calls() -> u128 { unsafe { CALLS.0.get().replace(0) } }
/// Branch-free selection, so that the oracle does not fork the exploration.
#[inline(always)] pub fn sel(c: bool, a: u64, b: u64) -> u64 { let m = (c as u64).wrapping_neg(); (a & m) | (b & !m) }
/// A symbolic choice below `n`.
pub fn below(n: u8) -> u8 { let x = sym_u8(); assume(x < n); x }

pub fn block_on<F: core::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut cx = core::task::Context::from_waker(core::task::Waker::noop());
    loop { if let core::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; } }
}
