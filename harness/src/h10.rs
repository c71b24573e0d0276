//! C10: the low-pass filter.
use crate::lim::*;
use crate::sym;
use crate::wire::*;
use franka::robot::low_pass_filter::{cartesian_low_pass_filter, low_pass_filter};

const DT: f64 = 1e-3;
fn gain(f: f64) -> f64 {
    DT / (DT + 1. / (2. * std::f64::consts::PI * f))
}
/// request y, last value l, filtered value o
fn check(y: f64, l: f64, o: f64, g: f64) {
    sym::assert(near(o, g * y + (1. - g) * l, 1e-9), 4);
    let between = ((o >= y - 1e-9) & (o <= l + 1e-9)) | ((o >= l - 1e-9) & (o <= y + 1e-9));
    sym::assert(between, 5);
}
fn cutoff() -> (Option<f64>, f64) {
    match sym::choice(5, 1) {
        0 => (None, gain(100.)),
        1 => (Some(1.), gain(1.)),
        2 => (Some(999.), gain(999.)),
        3 => (Some(1e-3), gain(1e-3)),
        _ => {
            let f = sym::range(0.01, 999.9, 1);
            (Some(f), gain(f))
        }
    }
}
/// joint positions and velocities, torques; two cycles with different states
#[no_mangle]
pub extern "C" fn h10_joints() {
    sym::mode(sym::MODE_REAL);
    sym::on_panic(1);
    sym::on_hang(1);
    prepare();
    let kind = match sym::choice(5, 2) {
        0 => 0,
        1 => 1,
        2 => 4,
        3 => 5,
        _ => 8,
    };
    let (cut, g) = cutoff();
    let l: [[f64; 7]; 2] = [sym::range_arr(-10., 10., 3), sym::range_arr(-10., 10., 3)];
    let t: [[f64; 7]; 2] = [sym::range_arr(-10., 10., 3), sym::range_arr(-10., 10., 3)];
    let mut vals = [ZERO; 3];
    for v in vals.iter_mut() {
        v.m = m7(&sym::range_arr(-10., 10., 4));
        v.t = sym::range_arr(-10., 10., 4);
    }
    let n = if kind == 8 { 2 } else { 3 };
    let (res, out, k) = motion(kind, Some(false), cut, &vals[..n], move |k, s| {
        // every other field of the same kind holds something else
        put_fs(s, st::Q, &[77.; 7]);
        put_fs(s, st::DQ, &[78.; 7]);
        put_fs(s, st::TAU_J, &[79.; 7]);
        let i = (k % 2) as usize;
        put_fs(s, if kind % 4 == 0 { st::Q_D } else { st::DQ_D }, &l[i]);
        put_fs(s, st::TAU_J_D, &t[i]);
    });
    sym::assert(res == 0, 2);
    sym::assert(out.len() >= 2 && k[1] == k[0] + 1, 3);
    for c in 0..2 {
        let s = (k[c] % 2) as usize;
        if kind != 8 {
            let o = if kind % 4 == 0 { q(&out[c]) } else { dq(&out[c]) };
            for i in 0..7 {
                check(vals[c].m[i], l[s][i], o[i], g);
            }
        }
        if kind >= 4 {
            let o = tau(&out[c]);
            for i in 0..7 {
                check(vals[c].t[i], t[s][i], o[i], g);
            }
        }
    }
    sym::reach(kind + 1);
    sym::done();
}
pub const ROT: [[f64; 16]; 5] = [
    IDENTITY,
    [0., 1., 0., 0., -1., 0., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.],
    [0.36, 0.48, -0.8, 0., -0.8, 0.6, 0., 0., 0.48, 0.64, 0.6, 0., 0., 0., 0., 1.],
    // by 180 degrees
    [1., 0., 0., 0., 0., -1., 0., 0., 0., 0., -1., 0., 0., 0., 0., 1.],
    [0.6, 0.8, 0., 0., 0.8, -0.6, 0., 0., 0., 0., -1., 0., 0., 0., 0., 1.],
];
/// twists and poses with elbow
#[no_mangle]
pub extern "C" fn h10_cartesian() {
    sym::mode(sym::MODE_REAL);
    sym::on_panic(1);
    sym::on_hang(1);
    prepare();
    let kind = match sym::choice(4, 2) {
        0 => 2,
        1 => 3,
        2 => 6,
        _ => 7,
    };
    let (cut, g) = cutoff();
    let pose_kind = kind % 4 == 2;
    let r = if pose_kind { sym::choice(5, 5) as usize } else { 0 };
    let mut last = ROT[r];
    let mut v = ZERO;
    v.m = ROT[r];
    for i in 12..15 {
        last[i] = sym::range(-10., 10., 3);
        v.m[i] = sym::range(-10., 10., 4);
    }
    let lv: [f64; 6] = sym::range_arr(-10., 10., 3);
    if !pose_kind {
        v.m = m6(&sym::range_arr(-10., 10., 4));
    }
    let le = [sym::range(-3., 3., 6), 1.];
    v.e = Some([sym::range(-3., 3., 6), if sym::choice(2, 6) == 0 { 1. } else { -1. }]);
    let vals = if kind < 4 { vec![v] } else { vec![v, v] };
    let (res, out, _) = motion(kind, Some(false), cut, &vals, move |_, s| {
        put_fs(s, st::O_T_EE_C, &last);
        put_fs(s, st::O_DP_EE_C, &lv);
        put_fs(s, st::O_DP_EE_D, &[77.; 6]);
        put_fs(s, st::ELBOW, &[7., -1.]);
        put_fs(s, st::ELBOW_D, &[7., -1.]);
        put_fs(s, st::ELBOW_C, &le);
    });
    sym::assert(res == 0, 2);
    let b = &out[0];
    if pose_kind {
        let o = pose(b);
        for i in 12..15 {
            check(v.m[i], last[i], o[i], g);
        }
        for i in 0..12 {
            sym::assert(near(o[i], ROT[r][i], 1e-9), 6);
        }
        sym::assert(o[15] == 1., 6);
    } else {
        let o = vel(b);
        for i in 0..6 {
            check(v.m[i], lv[i], o[i], g);
        }
    }
    let e = elbow(b);
    let want = v.e.unwrap_or([0.; 2]);
    check(want[0], le[0], e[0], g);
    sym::assert(e[1] == want[1], 7);
    sym::reach(kind - 1);
    sym::done();
}
/// rotations are interpolated: half way between two rotations about the same axis
#[no_mangle]
pub extern "C" fn h10_slerp() {
    sym::mode(sym::MODE_REAL);
    sym::on_panic(1);
    let (axis, a, b) = match sym::choice(6, 1) {
        0 => (0, 0.3f64, 0.9f64),
        1 => (1, -0.4, 1.2),
        2 => (2, 3.0, 3.3),
        3 => (0, std::f64::consts::PI, 3.0),
        4 => (2, -1.0, -1.5),
        _ => (1, 0.0, 3.0),
    };
    let f = match sym::choice(3, 2) {
        0 => 100.,
        1 => 10.,
        _ => 900.,
    };
    let rot = |x: f64| -> [f64; 16] {
        let (c, s) = (x.cos(), x.sin());
        match axis {
            0 => [1., 0., 0., 0., 0., c, s, 0., 0., -s, c, 0., 0., 0., 0., 1.],
            1 => [c, 0., -s, 0., 0., 1., 0., 0., s, 0., c, 0., 0., 0., 0., 1.],
            _ => [c, s, 0., 0., -s, c, 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.],
        }
    };
    let mut y = rot(a);
    let mut l = rot(b);
    for i in 12..15 {
        y[i] = sym::range(-10., 10., 3);
        l[i] = sym::range(-10., 10., 3);
    }
    let g = gain(f);
    let o = cartesian_low_pass_filter(DT, &y, &l, f);
    let want = rot(b + g * (a - b));
    for i in 0..12 {
        sym::assert(near(o[i], want[i], 1e-9), 6);
    }
    for i in 12..15 {
        check(y[i], l[i], o[i], g);
    }
    sym::reach(1);
    sym::done();
}
/// at the maximum cutoff frequency values pass unchanged
#[no_mangle]
pub extern "C" fn h10_off() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    prepare();
    let kind = sym::choice(9, 1);
    let f = sym::range(1000., 1e9, 1);
    let mut v = STILL;
    for i in 12..15 {
        v.m[i] = sym::range(-10., 10., 2);
    }
    if kind % 4 != 2 {
        v.m = [0.; 16];
        for i in 0..if kind % 4 == 3 { 6 } else { 7 } {
            v.m[i] = sym::range(-10., 10., 2);
        }
    }
    if kind % 4 >= 2 {
        v.e = Some([sym::range(-3., 3., 2), 1.]);
    }
    v.t = sym::range_arr(-10., 10., 2);
    let vals = if kind < 4 || kind == 8 { vec![v] } else { vec![v, v] };
    let (res, out, _) = motion(kind, Some(false), Some(f), &vals, |_, s| {
        put_fs(s, st::Q_D, &[0.5; 7]);
        put_fs(s, st::DQ_D, &[0.5; 7]);
        put_fs(s, st::TAU_J_D, &[0.5; 7]);
        put_fs(s, st::O_DP_EE_C, &[0.5; 6]);
        put_fs(s, st::ELBOW_C, &[0.5, -1.]);
    });
    sym::assert(res == 0, 2);
    let b = &out[0];
    match kind {
        0 | 4 => sym::assert(sym::same(&q(b), &a7(&v.m)), 8),
        1 | 5 => sym::assert(sym::same(&dq(b), &a7(&v.m)), 8),
        2 | 6 => sym::assert(sym::same(&pose(b), &v.m), 8),
        3 | 7 => sym::assert(sym::same(&vel(b), &a6(&v.m)), 8),
        _ => {}
    }
    if let Some(e) = v.e {
        sym::assert(sym::same(&elbow(b), &e), 8);
    }
    if kind >= 4 {
        sym::assert(sym::same(&tau(b), &v.t), 8);
    }
    sym::reach(kind + 1);
    sym::done();
}
/// invalid arguments of the public filter functions are refused: no value comes back
#[no_mangle]
pub extern "C" fn h10_invalid() {
    sym::mode(sym::MODE_FP);
    let which = sym::choice(4, 1);
    let cart = sym::choice(2, 2) == 1;
    let mut a = [DT, 0.5, 0.25, 100.];
    let x = sym::fany(3);
    a[which as usize] = x;
    let bad = match which {
        // a negative sample time, or none
        0 => !(x >= 0. && x < f64::INFINITY),
        3 => !(x > 0. && x < f64::INFINITY),
        _ => !x.is_finite(),
    };
    if bad {
        sym::on_panic(0);
        sym::reach(1 + which);
    } else {
        // everything else is accepted
        sym::on_panic(1);
        // minus zero is left open
        sym::assume(which != 0 || x.to_bits() != (-0.0f64).to_bits());
    }
    if cart {
        let (mut y, mut l) = (IDENTITY, IDENTITY);
        let k = 12 + sym::choice(3, 4) as usize;
        y[k] = a[1];
        l[k] = a[2];
        let _ = cartesian_low_pass_filter(a[0], &y, &l, a[3]);
    } else {
        let _ = low_pass_filter(a[0], a[1], a[2], a[3]);
    }
    sym::assert(!bad, 9);
    sym::reach(5 + which);
}
/// the public function itself
#[no_mangle]
pub extern "C" fn h10_function() {
    sym::mode(sym::MODE_REAL);
    sym::on_panic(1);
    let t = sym::range(0., 10., 1);
    let y = sym::range(-10., 10., 2);
    let l = sym::range(-10., 10., 2);
    let f = match sym::choice(3, 4) {
        0 => 100.,
        1 => 1000.,
        _ => 0.125,
    };
    let o = low_pass_filter(t, y, l, f);
    let g = t / (t + 1. / (2. * std::f64::consts::PI * f));
    check(y, l, o, g);
    sym::reach(1);
}
