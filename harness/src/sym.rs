//! Primitives of the symbolic executor.  In the symbolic build they stay undefined externs that the
//! executor interprets; in the replay build they are defined here and read a recorded model.
#![allow(dead_code)]

#[cfg(not(feature = "replay"))]
mod raw {
    extern "C" {
        pub fn sym_bv(width: u32, tag: u32) -> u64;
        pub fn sym_f64_range(lo: f64, hi: f64, tag: u32) -> f64;
        pub fn sym_f64_any(tag: u32) -> f64;
        pub fn sym_choice(n: u32, tag: u32) -> u32;
        pub fn sym_pick(v: u32, n: u32) -> u32;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, id: u32);
        pub fn sym_reach(id: u32);
        pub fn sym_out(id: u32, v: u64);
        pub fn sym_on_panic(id: u32);
        pub fn sym_on_hang(id: u32);
        pub fn sym_hang() -> !;
        pub fn sym_done() -> !;
        pub fn sym_mode(m: u32);
        pub fn sym_fork_select(on: u32);
        pub fn sym_deep() -> u32;
    }
}

#[cfg(feature = "replay")]
pub mod raw {
    use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
    pub static mut VALS: Vec<u64> = Vec::new();
    pub static POS: AtomicUsize = AtomicUsize::new(0);
    pub static ONPANIC: AtomicU32 = AtomicU32::new(0);
    pub static ONHANG: AtomicU32 = AtomicU32::new(0);
    fn next() -> u64 {
        let i = POS.fetch_add(1, Ordering::SeqCst);
        unsafe {
            let v = &*std::ptr::addr_of!(VALS);
            if i < v.len() {
                v[i]
            } else {
                println!("EXHAUSTED");
                finish(4);
            }
        }
    }
    pub fn finish(code: i32) -> ! {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(code)
    }
    pub unsafe fn sym_bv(width: u32, _tag: u32) -> u64 {
        let v = next();
        if width < 64 {
            v & ((1u64 << width) - 1)
        } else {
            v
        }
    }
    pub unsafe fn sym_f64_range(lo: f64, hi: f64, _tag: u32) -> f64 {
        let v = f64::from_bits(next());
        if !(v >= lo && v <= hi) {
            println!("ASSUME-FAILED range");
            finish(3);
        }
        v
    }
    pub unsafe fn sym_f64_any(_tag: u32) -> f64 {
        f64::from_bits(next())
    }
    pub unsafe fn sym_choice(n: u32, _tag: u32) -> u32 {
        let v = next() as u32;
        if v >= n {
            println!("ASSUME-FAILED choice");
            finish(3);
        }
        v
    }
    pub unsafe fn sym_pick(v: u32, _n: u32) -> u32 {
        v
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            println!("ASSUME-FAILED");
            finish(3);
        }
    }
    pub unsafe fn sym_assert(c: bool, id: u32) {
        if !c {
            println!("VIOLATED {}", id);
            finish(10);
        } else {
            println!("A {}", id);
        }
    }
    pub unsafe fn sym_reach(id: u32) {
        println!("R {}", id);
    }
    pub unsafe fn sym_out(id: u32, v: u64) {
        println!("O {} {}", id, v);
    }
    pub unsafe fn sym_on_panic(id: u32) {
        ONPANIC.store(id, Ordering::SeqCst);
    }
    pub unsafe fn sym_on_hang(id: u32) {
        ONHANG.store(id, Ordering::SeqCst);
    }
    pub unsafe fn sym_hang() -> ! {
        let id = ONHANG.load(Ordering::SeqCst);
        if id != 0 {
            println!("VIOLATED {} hang", id);
            finish(10);
        }
        println!("END hang");
        finish(0)
    }
    pub unsafe fn sym_done() -> ! {
        println!("END done");
        finish(0)
    }
    pub unsafe fn sym_mode(_m: u32) {}
    pub unsafe fn sym_fork_select(_m: u32) {}
    pub unsafe fn sym_deep() -> u32 {
        std::env::var("VERIF_DEEP").is_ok() as u32
    }
}

pub fn bv(width: u32, tag: u32) -> u64 {
    unsafe { raw::sym_bv(width, tag) }
}
pub fn u8v(tag: u32) -> u8 {
    bv(8, tag) as u8
}
pub fn u16v(tag: u32) -> u16 {
    bv(16, tag) as u16
}
pub fn u32v(tag: u32) -> u32 {
    bv(32, tag) as u32
}
pub fn range(lo: f64, hi: f64, tag: u32) -> f64 {
    unsafe { raw::sym_f64_range(lo, hi, tag) }
}
pub fn fany(tag: u32) -> f64 {
    unsafe { raw::sym_f64_any(tag) }
}
/// a symbolic value below n that is split into its cases right away
pub fn choice(n: u32, tag: u32) -> u32 {
    let v = bv(8, tag) as u32;
    assume(v < n);
    unsafe { raw::sym_pick(v, n) }
}
/// the larger bound in the thorough tier
pub fn deep<T>(quick: T, thorough: T) -> T {
    if unsafe { raw::sym_deep() } != 0 {
        thorough
    } else {
        quick
    }
}
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}
pub fn assert(c: bool, id: u32) {
    unsafe { raw::sym_assert(c, id) }
}
/// reachability witness: some feasible path has to get here
pub fn reach(id: u32) {
    unsafe { raw::sym_reach(id) }
}
/// observation compared between the symbolic run (under a model) and the native replay
pub fn out(id: u32, v: u64) {
    unsafe { raw::sym_out(id, v) }
}
/// 0: a panic ends the path quietly; otherwise a panic is a violation of assertion `id`
pub fn on_panic(id: u32) {
    unsafe { raw::sym_on_panic(id) }
}
pub fn on_hang(id: u32) {
    unsafe { raw::sym_on_hang(id) }
}
pub fn hang() -> ! {
    unsafe { raw::sym_hang() }
}
pub fn done() -> ! {
    unsafe { raw::sym_done() }
}
pub const MODE_REAL: u32 = 0;
pub const MODE_FP: u32 = 1;
/// reals without rounding errors; the tolerances of the assertions have to cover those
pub const MODE_EXACT: u32 = 2;
pub fn mode(m: u32) {
    unsafe { raw::sym_mode(m) }
}
pub fn fany_arr<const N: usize>(tag: u32) -> [f64; N] {
    let mut a = [0.0; N];
    for x in a.iter_mut() {
        *x = fany(tag);
    }
    a
}
pub fn range_arr<const N: usize>(lo: f64, hi: f64, tag: u32) -> [f64; N] {
    let mut a = [0.0; N];
    for x in a.iter_mut() {
        *x = range(lo, hi, tag);
    }
    a
}
/// bit equality of two f64 slices without branching
pub fn same(a: &[f64], b: &[f64]) -> bool {
    let mut ok = a.len() == b.len();
    if ok {
        for i in 0..a.len() {
            ok &= a[i].to_bits() == b[i].to_bits();
        }
    }
    ok
}
