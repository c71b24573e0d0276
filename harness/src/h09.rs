//! C09: Cartesian velocity, acceleration and jerk.
use crate::h08::{check, consistent, margins};
use crate::lim::*;
use crate::sym;
use crate::wire::*;

const DT: f64 = 1e-3;
const TRANS: (f64, f64, f64) = (2., 13., 6500.);
const ROTA: (f64, f64, f64) = (2.5, 25., 12500.);
const ELBOW: (f64, f64, f64) = (2.175, 10., 5000.);

/// twists along one axis, the last command at any consistent velocity and acceleration
#[no_mangle]
pub extern "C" fn h09_axis() {
    sym::mode(sym::MODE_REAL);
    sym::on_panic(1);
    sym::on_hang(1);
    prepare();
    let kind = if sym::choice(2, 1) == 0 { 3 } else { 7 };
    let ax = sym::choice(6, 2) as usize;
    let doc = if ax < 3 { TRANS } else { ROTA };
    let v = sym::range(-3., 3., 3);
    let a = sym::range(-30., 30., 4);
    sym::assume(consistent(v, a, margins(doc.0, doc.1, doc.2)));
    let req = sym::range(-10., 10., 5);
    let mut x = ZERO;
    x.m[ax] = req;
    let (mut lv, mut la) = ([0.; 6], [0.; 6]);
    lv[ax] = v;
    la[ax] = a;
    let vals = if kind == 3 { vec![x] } else { vec![x, x] };
    let (res, out, _) = motion(kind, Some(true), Some(1000.), &vals, move |_, s| {
        put_fs(s, st::O_DP_EE_C, &lv);
        put_fs(s, st::O_DDP_EE_C, &la);
    });
    sym::assert(res == 0, 2);
    let o = vel(&out[0]);
    for i in 0..6 {
        if i == ax {
            check(v, a, req, o[i], doc);
        } else {
            sym::assert(o[i] == 0., 3);
        }
    }
    sym::reach(1 + ax as u32);
    sym::done();
}
fn norm2(a: &[f64]) -> f64 {
    a[0] * a[0] + a[1] * a[1] + a[2] * a[2]
}
/// directions, unit length up to rounding
const DIR: [[f64; 3]; 4] = [[0.36, 0.48, -0.8], [-0.48, 0.64, 0.6], [-0.64, -0.48, -0.6], [0.8, -0.36, 0.48]];
/// last velocity and acceleration in units of the limits
const LAST: [([f64; 3], [f64; 3]); 5] = [
    ([0., 0., 0.], [0., 0., 0.]),
    ([0.5, -0.25, 0.25], [0.2, 0.1, -0.3]),
    ([0., 0.9, 0.], [0.5, 0., 0.]),
    ([-0.3, 0., 0.7], [0., 0., 0.]),
    ([0.4, 0.4, -0.4], [-0.9, 0., 0.]),
];
/// twists in space: fixed last commands, the request deviates from the constant acceleration motion
/// by any amount in a fixed direction
#[no_mangle]
pub extern "C" fn h09_space() {
    sym::mode(sym::MODE_EXACT);
    sym::on_panic(1);
    sym::on_hang(1);
    prepare();
    let rot = sym::choice(2, 1) as usize;
    let doc = if rot == 0 { TRANS } else { ROTA };
    let (lv, la) = LAST[sym::choice(5, 2) as usize];
    let d = DIR[sym::choice(4, 3) as usize];
    let t = sym::range(0., 10. * doc.2, 4);
    let mut x = ZERO;
    let (mut sv, mut sa) = ([0.25; 6], [0.; 6]);
    x.m = m6(&sv);
    for i in 0..3 {
        let k = 3 * rot + i;
        sv[k] = lv[i] * doc.0;
        sa[k] = la[i] * doc.1;
        x.m[k] = sv[k] + DT * (sa[k] + DT * t * d[i]);
    }
    let (res, out, _) = motion(3, Some(true), Some(1000.), &[x], move |_, s| {
        put_fs(s, st::O_DP_EE_C, &sv);
        put_fs(s, st::O_DDP_EE_C, &sa);
    });
    sym::assert(res == 0, 2);
    let o = vel(&out[0]);
    let (mut v, mut a, mut j, mut ra) = ([0.; 3], [0.; 3], [0.; 3], [0.; 3]);
    for i in 0..3 {
        let k = 3 * rot + i;
        v[i] = o[k];
        a[i] = (o[k] - sv[k]) / DT;
        j[i] = (a[i] - sa[k]) / DT;
        ra[i] = sa[k] + DT * t * d[i];
        sym::assert(near(o[3 - 3 * rot + i], 0.25, 1e-12), 3);
    }
    sym::assert(norm2(&v) <= doc.0 * doc.0, 4);
    sym::assert(norm2(&a) <= doc.1 * doc.1, 5);
    sym::assert(norm2(&j) <= doc.2 * doc.2, 6);
    let inside = (t <= 0.99 * doc.2) & (norm2(&ra) <= 0.98 * doc.1 * doc.1);
    for i in 0..3 {
        sym::assert(!inside | near(v[i], x.m[3 * rot + i], 1e-9), 8);
    }
    sym::reach(1);
    sym::done();
}
/// rotation about a coordinate axis, column by column
fn about(axis: usize, x: f64) -> [[f64; 3]; 3] {
    let (c, s) = (x.cos(), x.sin());
    match axis {
        0 => [[1., 0., 0.], [0., c, s], [0., -s, c]],
        1 => [[c, 0., -s], [0., 1., 0.], [s, 0., c]],
        _ => [[c, s, 0.], [-s, c, 0.], [0., 0., 1.]],
    }
}
fn times(a: &[[f64; 3]; 3], b: &[[f64; 3]; 3]) -> [[f64; 3]; 3] {
    let mut o = [[0.; 3]; 3];
    for c in 0..3 {
        for r in 0..3 {
            o[c][r] = a[0][r] * b[c][0] + a[1][r] * b[c][1] + a[2][r] * b[c][2];
        }
    }
    o
}
fn part(m: &[f64; 16]) -> [[f64; 3]; 3] {
    [[m[0], m[1], m[2]], [m[4], m[5], m[6]], [m[8], m[9], m[10]]]
}
/// rotation vector (per second) that leads from a to b in one cycle, for small rotations
fn rate(a: &[[f64; 3]; 3], b: &[[f64; 3]; 3]) -> [f64; 3] {
    let at = [[a[0][0], a[1][0], a[2][0]], [a[0][1], a[1][1], a[2][1]], [a[0][2], a[1][2], a[2][2]]];
    let d = times(b, &at);
    [(d[1][2] - d[2][1]) / (2. * DT), (d[2][0] - d[0][2]) / (2. * DT), (d[0][1] - d[1][0]) / (2. * DT)]
}
/// poses: fixed last orientations (among them such by 180 degrees) and angular velocities, fixed
/// requested rotations about a coordinate axis, translations as above
#[no_mangle]
pub extern "C" fn h09_pose() {
    sym::mode(sym::MODE_EXACT);
    sym::on_panic(1);
    sym::on_hang(1);
    prepare();
    let base = crate::h10::ROT[sym::choice(5, 1) as usize];
    let axis = sym::choice(3, 2) as usize;
    // angular velocity now, and requested
    let (w, y) = match sym::choice(7, 3) {
        0 => (0., 0.),
        1 => (0., 0.012),
        2 => (0.5, 0.5),
        3 => (-0.5, -0.49),
        4 => (0.5, 3.),
        5 => (2.4, 2.6),
        _ => (-1., 1.),
    };
    let k = if w == 0. { sym::choice(4, 4) as usize } else { 1 };
    let (lv, la) = LAST[k];
    let d = DIR[k];
    let t = sym::range(0., 10. * TRANS.2, 4);
    let mut last = base;
    let (mut sv, mut sa) = ([0.; 6], [0.; 6]);
    let mut x = STILL;
    let r = times(&about(axis, y * DT), &part(&base));
    for i in 0..3 {
        sv[i] = lv[i] * TRANS.0;
        sa[i] = la[i] * TRANS.1;
        last[12 + i] = 0.125 * (i as f64 + 1.);
        x.m[12 + i] = last[12 + i] + DT * (sv[i] + DT * (sa[i] + DT * t * d[i]));
        for k in 0..3 {
            x.m[4 * i + k] = r[i][k];
        }
    }
    sv[3 + axis] = w;
    let (res, out, _) = motion(2, Some(true), Some(1000.), &[x], move |_, s| {
        put_fs(s, st::O_T_EE_C, &last);
        put_fs(s, st::O_DP_EE_C, &sv);
        put_fs(s, st::O_DDP_EE_C, &sa);
    });
    sym::assert(res == 0, 2);
    let o = pose(&out[0]);
    let (mut v, mut a, mut j, mut ra) = ([0.; 3], [0.; 3], [0.; 3], [0.; 3]);
    for i in 0..3 {
        v[i] = (o[12 + i] - last[12 + i]) / DT;
        a[i] = (v[i] - sv[i]) / DT;
        j[i] = (a[i] - sa[i]) / DT;
        ra[i] = sa[i] + DT * t * d[i];
    }
    sym::assert(norm2(&v) <= TRANS.0 * TRANS.0, 4);
    sym::assert(norm2(&a) <= TRANS.1 * TRANS.1, 5);
    sym::assert(norm2(&j) <= TRANS.2 * TRANS.2, 6);
    let inside = (t <= 0.99 * TRANS.2) & (norm2(&ra) <= 0.98 * TRANS.1 * TRANS.1);
    for i in 0..3 {
        sym::assert(!inside | near(o[12 + i], x.m[12 + i], 1e-9), 8);
    }
    // orientation
    let got = part(&o);
    let om = rate(&part(&base), &got);
    for i in 0..3 {
        let now = if i == axis { w } else { 0. };
        sym::assert(within(om[i], -ROTA.0, ROTA.0), 10);
        sym::assert(within((om[i] - now) / DT, -ROTA.1, ROTA.1), 11);
        sym::assert(within((om[i] - now) / DT / DT, -ROTA.2, ROTA.2), 12);
        if i != axis {
            sym::assert(near(om[i], 0., 1e-6), 13);
        } else if near(w, y, 0.012) {
            sym::assert(near(om[i], y, 1e-6), 14);
        } else {
            // as far as allowed, towards the request
            sym::assert(if y > w { om[i] > w } else { om[i] < w }, 15);
        }
        for k in 0..3 {
            sym::assert(near(got[i][0] * got[k][0] + got[i][1] * got[k][1] + got[i][2] * got[k][2], if i == k { 1. } else { 0. }, 1e-9), 16);
        }
    }
    sym::assert((o[3] == 0.) & (o[7] == 0.) & (o[11] == 0.) & (o[15] == 1.), 17);
    sym::reach(1);
    sym::done();
}
/// the elbow, in both Cartesian interfaces, with and without torques
#[no_mangle]
pub extern "C" fn h09_elbow() {
    sym::mode(sym::MODE_REAL);
    sym::on_panic(1);
    sym::on_hang(1);
    prepare();
    let kind = match sym::choice(4, 1) {
        0 => 2,
        1 => 3,
        2 => 6,
        _ => 7,
    };
    let e = sym::range(-3., 3., 2);
    let v = sym::range(-3., 3., 3);
    let a = sym::range(-12., 12., 4);
    sym::assume(consistent(v, a, margins(ELBOW.0, ELBOW.1, ELBOW.2)));
    let req = sym::range(-3., 3., 5);
    let mut x = if kind % 4 == 2 { STILL } else { ZERO };
    let flip = if sym::choice(2, 6) == 0 { 1. } else { -1. };
    x.e = Some([req, flip]);
    let vals = if kind < 4 { vec![x] } else { vec![x, x] };
    let (limit, cutoff) = if sym::choice(2, 7) == 0 { (Some(true), Some(1000.)) } else { (None, None) };
    let (res, out, _) = motion(kind, limit, cutoff, &vals, move |_, s| {
        put_fs(s, st::ELBOW, &[7., -1.]);
        put_fs(s, st::ELBOW_D, &[7., -1.]);
        put_fs(s, st::ELBOW_C, &[e, 1.]);
        put_fs(s, st::DELBOW_C, &[v, 0.]);
        put_fs(s, st::DDELBOW_C, &[a, 0.]);
    });
    sym::assert(res == 0, 2);
    let o = elbow(&out[0]);
    sym::assert(o[1] == flip, 3);
    let u = (o[0] - e) / DT;
    if cutoff.is_some() {
        check(v, a, (req - e) / DT, u, ELBOW);
    } else {
        let acc = (u - v) / DT;
        sym::assert(within(u, -ELBOW.0, ELBOW.0), 4);
        sym::assert(within(acc, -ELBOW.1, ELBOW.1), 5);
        sym::assert(within((acc - a) / DT, -ELBOW.2, ELBOW.2), 6);
    }
    sym::reach(kind);
    sym::done();
}
