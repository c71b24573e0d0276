//! C20: conversions.
use crate::sym;
use franka::*;
use nalgebra::Vector6;

fn v7(a: &[f64; 7]) -> Vector7 {
    Vector7::from_row_slice(a)
}
/// vectors and arrays into command values
#[no_mangle]
pub extern "C" fn h20_values() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    let a: [f64; 7] = sym::fany_arr(1);
    let v: [f64; 6] = sym::fany_arr(2);
    let p: [f64; 16] = sym::fany_arr(3);
    let e: [f64; 2] = sym::fany_arr(4);
    sym::assert(sym::same(&JointPositions::from(v7(&a)).q, &a) && sym::same(&JointPositions::new(a).q, &a), 2);
    sym::assert(sym::same(&JointVelocities::from(v7(&a)).dq, &a) && sym::same(&JointVelocities::new(a).dq, &a), 3);
    sym::assert(sym::same(&Torques::from(v7(&a)).tau_J, &a) && sym::same(&Torques::new(a).tau_J, &a), 4);
    let c = CartesianVelocities::from(Vector6::from_column_slice(&v));
    sym::assert(sym::same(&c.O_dP_EE, &v) && !c.has_elbow(), 5);
    let c = CartesianVelocities::new(v, Some(e));
    sym::assert(sym::same(&c.O_dP_EE, &v) && c.has_elbow() && sym::same(&c.elbow.unwrap_or([0.; 2]), &e), 5);
    let c = CartesianPose::from(p);
    sym::assert(sym::same(&c.O_T_EE, &p) && !c.has_elbow(), 6);
    let c = CartesianPose::new(p, Some(e));
    sym::assert(sym::same(&c.O_T_EE, &p) && c.has_elbow() && sym::same(&c.elbow.unwrap_or([0.; 2]), &e), 6);
    // not finished unless said so, and the values survive
    let t = Torques::new(a);
    sym::assert(!t.is_finished() && t.motion_finished().is_finished() && sym::same(&t.motion_finished().tau_J, &a), 7);
    let t = JointPositions::new(a);
    sym::assert(!t.is_finished() && t.motion_finished().is_finished() && sym::same(&t.motion_finished().q, &a), 7);
    let t = JointVelocities::new(a);
    sym::assert(!t.is_finished() && t.motion_finished().is_finished() && sym::same(&t.motion_finished().dq, &a), 7);
    let t = CartesianPose::new(p, Some(e));
    sym::assert(!t.is_finished() && t.motion_finished().is_finished() && sym::same(&t.motion_finished().O_T_EE, &p), 7);
    let t = CartesianVelocities::new(v, Some(e));
    sym::assert(!t.is_finished() && t.motion_finished().is_finished() && sym::same(&t.motion_finished().O_dP_EE, &v), 7);
    sym::reach(1);
}
type M = [[f64; 3]; 3];
fn mul(a: &M, b: &M) -> M {
    let mut r = [[0.; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j];
        }
    }
    r
}
/// rotation by an angle with cosine c and sine s about axis k, r[row][column]
pub fn rot(k: u32, c: f64, s: f64) -> M {
    match k {
        0 => [[1., 0., 0.], [0., c, -s], [0., s, c]],
        1 => [[c, 0., s], [0., 1., 0.], [-s, 0., c]],
        _ => [[c, -s, 0.], [s, c, 0.], [0., 0., 1.]],
    }
}
fn pose(r: &M, t: &[f64; 3]) -> [f64; 16] {
    [r[0][0], r[1][0], r[2][0], 0., r[0][1], r[1][1], r[2][1], 0., r[0][2], r[1][2], r[2][2], 0., t[0], t[1], t[2], 1.]
}
fn check(p: &[f64; 16]) {
    let iso = array_to_isometry(p);
    let t = [iso.translation.vector[0], iso.translation.vector[1], iso.translation.vector[2]];
    sym::assert(t[0] == p[12] && t[1] == p[13] && t[2] == p[14], 8);
    let back = CartesianPose::from(iso);
    sym::assert(!back.has_elbow() && !back.is_finished(), 9);
    let o = back.O_T_EE;
    sym::assert(o[3] == 0. && o[7] == 0. && o[11] == 0. && o[15] == 1., 10);
    sym::assert(o[12] == p[12] && o[13] == p[13] && o[14] == p[14], 8);
    for k in 0..3 {
        for i in 0..3 {
            let d = o[4 * k + i] - p[4 * k + i];
            sym::assert(d <= 1e-9 && d >= -1e-9, 11);
        }
    }
}
/// concrete rotations, every translation
#[no_mangle]
pub extern "C" fn h20_translation() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    let k = sym::choice(12, 1);
    let t = [sym::fany(2), sym::fany(2), sym::fany(2)];
    sym::assume(t[0].is_finite() && t[1].is_finite() && t[2].is_finite());
    let i = rot(0, 1., 0.);
    let r = match k {
        0 => i,
        1 => rot(0, -1., 0.),
        2 => rot(1, -1., 0.),
        3 => rot(2, -1., 0.),
        4 => rot(2, 0., 1.),
        5 => mul(&rot(2, 0.6, 0.8), &rot(0, 0.28, -0.96)),
        6 => mul(&rot(0, -1., 0.), &rot(2, 0.6, 0.8)),
        7 => mul(&mul(&rot(0, 0.8, 0.6), &rot(1, -0.6, 0.8)), &rot(2, -0.28, 0.96)),
        8 => mul(&rot(1, -0.96, 0.28), &rot(2, -0.8, 0.6)),
        9 => mul(&rot(0, -0.96, 0.28), &rot(2, 0.8, -0.6)),
        10 => mul(&rot(1, 0.352, 0.936), &rot(0, -0.936, 0.352)),
        _ => mul(&mul(&rot(1, 0., 1.), &rot(2, 0., -1.)), &rot(0, 0., 1.)),
    };
    let p = pose(&r, &t);
    // equality of floats: signed zeros are the same position
    check(&p);
    sym::reach(1);
}
