//! One motion with chosen values per cycle, for the properties of filter and rate limiter.
#![allow(dead_code)]
use crate::peer::{self, cmd};
use crate::svc::*;
use crate::wire::*;
use franka::robot::control_types::*;
use franka::RobotState;
use std::cell::Cell;
use std::time::Duration;

#[derive(Copy, Clone)]
pub struct Val {
    pub m: [f64; 16],
    pub e: Option<[f64; 2]>,
    pub t: [f64; 7],
}
pub const ZERO: Val = Val { m: [0.; 16], e: None, t: [0.; 7] };
pub const STILL: Val = Val { m: IDENTITY, e: None, t: [0.; 7] };
pub fn a7(a: &[f64; 16]) -> [f64; 7] {
    [a[0], a[1], a[2], a[3], a[4], a[5], a[6]]
}
pub fn a6(a: &[f64; 16]) -> [f64; 6] {
    [a[0], a[1], a[2], a[3], a[4], a[5]]
}
pub fn m7(a: &[f64; 7]) -> [f64; 16] {
    let mut m = [0.; 16];
    m[..7].copy_from_slice(a);
    m
}
pub fn m6(a: &[f64; 6]) -> [f64; 16] {
    let mut m = [0.; 16];
    m[..6].copy_from_slice(a);
    m
}
static mut READY: Option<(franka::Robot, peer::P)> = None;
/// connects, so that the cases of a harness share this part
pub fn prepare() {
    unsafe { READY = Some(peer::robot(peer::peer())) }
}
/// Runs a motion of kind 0..8 (see peer::run); the k-th callback returns vals[k], the last one ends
/// the motion.  `fill` completes the k-th state of the motion.  Result class, datagrams, and per
/// datagram the number of the newest state sent before it.
pub fn motion(
    kind: u32,
    limit: Option<bool>,
    cutoff: Option<f64>,
    vals: &[Val],
    fill: impl FnMut(u32, &mut Vec<u8>) + 'static,
) -> (u32, Vec<Vec<u8>>, Vec<u32>) {
    motion_checked(kind, limit, cutoff, vals, fill, |_| ())
}
pub fn motion_checked(
    kind: u32,
    limit: Option<bool>,
    cutoff: Option<f64>,
    vals: &[Val],
    fill: impl FnMut(u32, &mut Vec<u8>) + 'static,
    check: fn(&[u8]),
) -> (u32, Vec<Vec<u8>>, Vec<u32>) {
    let (mut r, p) = match unsafe { (*std::ptr::addr_of_mut!(READY)).take() } {
        Some(x) => x,
        None => peer::robot(peer::peer()),
    };
    p.borrow_mut().check = check;
    p.borrow_mut().fill = Box::new(fill);
    let km = Cell::new(0usize);
    let kt = Cell::new(0usize);
    let next = |c: &Cell<usize>| {
        let k = c.get();
        c.set(k + 1);
        (vals[usize::min(k, vals.len() - 1)], k + 1 >= vals.len())
    };
    let ta = |_: &RobotState, _: &Duration| {
        let (v, l) = next(&kt);
        let o = Torques::new(v.t);
        if l && kind == 8 { o.motion_finished() } else { o }
    };
    let jp = |_: &RobotState, _: &Duration| {
        let (v, l) = next(&km);
        let o = JointPositions::new(a7(&v.m));
        if l { o.motion_finished() } else { o }
    };
    let jv = |_: &RobotState, _: &Duration| {
        let (v, l) = next(&km);
        let o = JointVelocities::new(a7(&v.m));
        if l { o.motion_finished() } else { o }
    };
    let cp = |_: &RobotState, _: &Duration| {
        let (v, l) = next(&km);
        let o = CartesianPose::new(v.m, v.e);
        if l { o.motion_finished() } else { o }
    };
    let cv = |_: &RobotState, _: &Duration| {
        let (v, l) = next(&km);
        let o = CartesianVelocities::new(a6(&v.m), v.e);
        if l { o.motion_finished() } else { o }
    };
    let res = match kind {
        0 => r.control_joint_positions(jp, None, limit, cutoff),
        1 => r.control_joint_velocities(jv, None, limit, cutoff),
        2 => r.control_cartesian_pose(cp, None, limit, cutoff),
        3 => r.control_cartesian_velocities(cv, None, limit, cutoff),
        4 => r.control_torques_and_joint_positions(ta, jp, limit, cutoff),
        5 => r.control_torques_and_joint_velocities(ta, jv, limit, cutoff),
        6 => r.control_torques_and_cartesian_pose(ta, cp, limit, cutoff),
        7 => r.control_torques_and_cartesian_velocities(ta, cv, limit, cutoff),
        _ => r.control_torques(ta, limit, cutoff),
    };
    let c = class(&res);
    std::mem::forget(res);
    let out = p.borrow().cmds.iter().map(|x| x.0.clone()).collect();
    std::mem::forget(r);
    let n = p.borrow().cmd_state.clone();
    (c, out, n)
}
pub fn tau(b: &[u8]) -> [f64; 7] {
    gfs(b, cmd::TAU)
}
pub fn q(b: &[u8]) -> [f64; 7] {
    gfs(b, cmd::Q)
}
pub fn dq(b: &[u8]) -> [f64; 7] {
    gfs(b, cmd::DQ)
}
pub fn pose(b: &[u8]) -> [f64; 16] {
    gfs(b, cmd::POSE)
}
pub fn vel(b: &[u8]) -> [f64; 6] {
    gfs(b, cmd::VEL)
}
pub fn elbow(b: &[u8]) -> [f64; 2] {
    gfs(b, cmd::ELBOW)
}
pub fn within(x: f64, lo: f64, hi: f64) -> bool {
    (x >= lo) & (x <= hi)
}
pub fn near(a: f64, b: f64, tol: f64) -> bool {
    within(a - b, -tol, tol)
}
