//! C07: torque rate.
use crate::lim::*;
use crate::sym;
use crate::wire::*;

const STEP: f64 = (1000. - 1e-3) * 1e-3;
/// two cycles, all joints, with and without a motion generator; filter off
#[no_mangle]
pub extern "C" fn h07_torques() {
    sym::mode(sym::MODE_REAL);
    sym::on_panic(1);
    sym::on_hang(1);
    prepare();
    let kind = 4 + sym::choice(5, 1);
    let last: [f64; 7] = sym::range_arr(-100., 100., 2);
    let last2: [f64; 7] = sym::range_arr(-100., 100., 2);
    let mut v = STILL;
    if kind != 6 {
        v = ZERO;
    }
    v.t = sym::range_arr(-1000., 1000., 3);
    let mut w = v;
    w.t = sym::range_arr(-1000., 1000., 3);
    // with a motion generator the value that ends the motion comes without torques
    let vals = if kind == 8 { vec![v, w] } else { vec![v, w, w] };
    let (res, out, n) = motion(kind, Some(true), Some(1000.), &vals, move |k, s| {
        put_fs(s, st::TAU_J_D, if k % 2 == 0 { &last } else { &last2 });
    });
    sym::assert(res == 0, 2);
    sym::assert(out.len() >= 2 && n[1] == n[0] + 1, 3);
    for c in 0..2 {
        let l = if n[c] % 2 == 0 { &last } else { &last2 };
        let want = if c == 0 { &v.t } else { &w.t };
        let t = tau(&out[c]);
        for i in 0..7 {
            let d = t[i] - l[i];
            // the documented rate
            sym::assert(within(d, -1.0, 1.0), 4);
            let r = want[i] - l[i];
            // within the limit: unchanged; beyond: exactly the limit in that direction
            let lo = (r < -STEP) & near(d, -STEP, 1e-9);
            let hi = (r > STEP) & near(d, STEP, 1e-9);
            let mid = within(r, -STEP, STEP) & near(d, r, 1e-9);
            sym::assert(lo | hi | mid, 5);
        }
    }
    sym::reach(kind - 3);
    sym::done();
}
/// limit by default, and together with the filter
#[no_mangle]
pub extern "C" fn h07_default() {
    sym::mode(sym::MODE_REAL);
    sym::on_panic(1);
    sym::on_hang(1);
    prepare();
    let kind = 4 + sym::choice(5, 1);
    let (limit, cutoff) = match sym::choice(3, 2) {
        0 => (None, None),
        1 => (Some(true), Some(sym::range(1., 999., 2))),
        _ => (None, Some(1000.)),
    };
    let last: [f64; 7] = sym::range_arr(-100., 100., 2);
    let mut v = if kind == 6 { STILL } else { ZERO };
    v.t = sym::range_arr(-1000., 1000., 3);
    let vals = if kind == 8 { vec![v] } else { vec![v, v] };
    let (res, out, _) = motion(kind, limit, cutoff, &vals, move |_, s| put_fs(s, st::TAU_J_D, &last));
    sym::assert(res == 0, 2);
    let t = tau(&out[0]);
    for i in 0..7 {
        sym::assert(within(t[i] - last[i], -1.0, 1.0), 4);
    }
    sym::reach(kind - 3);
    sym::done();
}
