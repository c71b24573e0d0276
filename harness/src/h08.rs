//! C08: joint velocity, acceleration and jerk.
use crate::lim::*;
use crate::sym;
use crate::wire::*;

const DT: f64 = 1e-3;
const EPS: f64 = 1e-3;
const J: [f64; 7] = [7500., 3750., 5000., 6250., 7500., 10000., 10000.];
const A: [f64; 7] = [15., 7.5, 10., 12.5, 15., 20., 20.];
const V: [f64; 7] = [2.175, 2.175, 2.175, 2.175, 2.61, 2.61, 2.61];

/// limits with the margins the limiter keeps
pub fn margins(v: f64, a: f64, j: f64) -> (f64, f64, f64) {
    (v - EPS - 1e-3 * DT * (a - EPS), a - EPS, j - EPS)
}
/// The last command (velocity v, acceleration a) is one the limiter could have produced: within the
/// limits, and the acceleration leaves room to brake before the velocity limit.
pub fn consistent(v: f64, a: f64, lim: (f64, f64, f64)) -> bool {
    let k = lim.2 / lim.1;
    let before = v - a * DT;
    within(v, -lim.0, lim.0) & within(a, -lim.1, lim.1) & (a <= k * (lim.0 - before)) & (a >= k * (-lim.0 - before))
}
/// checks a commanded velocity against the documented limits
pub fn check(v: f64, a: f64, req: f64, out: f64, doc: (f64, f64, f64)) {
    let lim = margins(doc.0, doc.1, doc.2);
    let acc = (out - v) / DT;
    let jerk = (acc - a) / DT;
    sym::assert(within(out, -doc.0, doc.0), 4);
    sym::assert(within(acc, -doc.1, doc.1), 5);
    sym::assert(within(jerk, -doc.2, doc.2), 6);
    // and the next command finds a consistent last command again
    let k = lim.2 / lim.1;
    let t = 1e-6;
    sym::assert(within(out, -lim.0 - t, lim.0 + t) & within(acc, -lim.1 - t, lim.1 + t) & (acc <= k * (lim.0 - v) + t) & (acc >= k * (-lim.0 - v) - t), 7);
    // requests well inside the limits are not touched
    let ra = (req - v) / DT;
    let rj = (ra - a) / DT;
    let inside = within(v, -0.9 * doc.0, 0.9 * doc.0) & within(ra, -0.99 * doc.1, 0.99 * doc.1) & within(rj, -0.99 * doc.2, 0.99 * doc.2);
    sym::assert(!inside | near(out, req, 1e-9), 8);
    let free = v + a * DT;
    let braking = !within(free, -lim.0 + t, lim.0 - t) | (a > k * (lim.0 - v) - t) | (a < k * (-lim.0 - v) + t);
    // no further than asked for, unless that is needed to stay within the limits
    sym::assert(!(req >= free) | (out <= req + 1e-9) | braking, 9);
    sym::assert(!(req <= free) | (out >= req - 1e-9) | braking, 9);
}
fn states() -> ([f64; 7], [f64; 7], [f64; 7]) {
    let q: [f64; 7] = sym::range_arr(-3., 3., 2);
    let v: [f64; 7] = sym::range_arr(-3., 3., 3);
    let a: [f64; 7] = sym::range_arr(-25., 25., 4);
    for i in 0..7 {
        sym::assume(consistent(v[i], a[i], margins(V[i], A[i], J[i])));
    }
    (q, v, a)
}
/// joint velocities
#[no_mangle]
pub extern "C" fn h08_velocities() {
    sym::mode(sym::MODE_REAL);
    sym::on_panic(1);
    sym::on_hang(1);
    prepare();
    let kind = if sym::choice(2, 1) == 0 { 1 } else { 5 };
    let (q, v, a) = states();
    let req: [f64; 7] = sym::range_arr(-100., 100., 5);
    let mut x = ZERO;
    x.m = m7(&req);
    let vals = if kind == 1 { vec![x] } else { vec![x, x] };
    let (res, out, _) = motion(kind, Some(true), Some(1000.), &vals, move |_, s| {
        put_fs(s, st::Q_D, &q);
        put_fs(s, st::DQ_D, &v);
        put_fs(s, st::DDQ_D, &a);
    });
    sym::assert(res == 0, 2);
    let o = dq(&out[0]);
    for i in 0..7 {
        check(v[i], a[i], req[i], o[i], (V[i], A[i], J[i]));
    }
    sym::reach(if kind == 1 { 1 } else { 2 });
    sym::done();
}
/// joint positions
#[no_mangle]
pub extern "C" fn h08_positions() {
    sym::mode(sym::MODE_REAL);
    sym::on_panic(1);
    sym::on_hang(1);
    prepare();
    let kind = if sym::choice(2, 1) == 0 { 0 } else { 4 };
    let (q0, v, a) = states();
    let req: [f64; 7] = sym::range_arr(-3., 3., 5);
    let mut x = ZERO;
    x.m = m7(&req);
    let vals = if kind == 0 { vec![x] } else { vec![x, x] };
    let (res, out, _) = motion(kind, Some(true), Some(1000.), &vals, move |_, s| {
        put_fs(s, st::Q_D, &q0);
        put_fs(s, st::DQ_D, &v);
        put_fs(s, st::DDQ_D, &a);
    });
    sym::assert(res == 0, 2);
    let o = q(&out[0]);
    for i in 0..7 {
        check(v[i], a[i], (req[i] - q0[i]) / DT, (o[i] - q0[i]) / DT, (V[i], A[i], J[i]));
    }
    sym::reach(if kind == 0 { 1 } else { 2 });
    sym::done();
}
/// limit by default, and together with the filter: the limits hold all the same
#[no_mangle]
pub extern "C" fn h08_default() {
    sym::mode(sym::MODE_REAL);
    sym::on_panic(1);
    sym::on_hang(1);
    prepare();
    let kind = sym::choice(2, 1);
    let kind = if sym::choice(2, 1) == 1 { kind + 4 } else { kind };
    let (q0, v, a) = states();
    let req: [f64; 7] = sym::range_arr(-3., 3., 5);
    let (limit, cutoff) = match sym::choice(3, 2) {
        0 => (None, None),
        1 => (Some(true), Some(250.)),
        _ => (None, Some(1000.)),
    };
    let mut x = ZERO;
    x.m = m7(&req);
    let vals = if kind < 4 { vec![x] } else { vec![x, x] };
    let (res, out, _) = motion(kind, limit, cutoff, &vals, move |_, s| {
        put_fs(s, st::Q_D, &q0);
        put_fs(s, st::DQ_D, &v);
        put_fs(s, st::DDQ_D, &a);
    });
    sym::assert(res == 0, 2);
    let o = if kind % 4 == 0 { q(&out[0]) } else { dq(&out[0]) };
    for i in 0..7 {
        let u = if kind % 4 == 0 { (o[i] - q0[i]) / DT } else { o[i] };
        let acc = (u - v[i]) / DT;
        sym::assert(within(u, -V[i], V[i]), 4);
        sym::assert(within(acc, -A[i], A[i]), 5);
        sym::assert(within((acc - a[i]) / DT, -J[i], J[i]), 6);
    }
    sym::reach(kind % 4 + 1);
    sym::done();
}
