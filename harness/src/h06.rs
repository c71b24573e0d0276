//! C06: real-time command datagrams.
use crate::peer::{self, cmd};
use crate::sym;
use crate::svc::*;
use crate::wire::*;
use franka::robot::control_types::*;
use franka::robot::low_pass_filter::MAX_CUTOFF_FREQUENCY;
use franka::RobotState;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

const ROT: [[f64; 16]; 3] = [
    IDENTITY,
    [0., 1., 0., 0., -1., 0., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.],
    [0.36, 0.48, -0.8, 0., -0.8, 0.6, 0., 0., 0.48, 0.64, 0.6, 0., 0., 0., 0., 1.],
];

fn finite(tag: u32) -> f64 {
    sym::range(-1e6, 1e6, tag)
}

/// every motion interface, arbitrary values, limiting and filtering off: the datagram holds exactly
/// the caller's values, nothing else, and the id of the newest state
#[no_mangle]
pub extern "C" fn h06_content() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    // 0..3 motion only, 4..7 with torques, 8 torques only
    let kind = sym::choice(9, 1);
    // in which cycles an elbow is given
    let gen = if kind == 8 { 1 } else { kind % 4 };
    let variants = if gen >= 2 { 8 } else { 1 };
    let var = sym::choice(variants, 2);
    let mut p = peer::peer();
    p.next_id = peer::any_ids(4, 9);
    p.finish_after = 2;
    let (mut r, p) = peer::robot(p);
    let p2 = p.clone();

    const N: usize = 3;
    let mut mv: Vec<[f64; 16]> = Vec::new();
    let mut ev: Vec<Option<[f64; 2]>> = Vec::new();
    let mut tv: Vec<[f64; 7]> = Vec::new();
    for c in 0..N {
        let mut a = [0.; 16];
        let mut e = None;
        match gen {
            0 | 1 => {
                for i in 0..7 {
                    a[i] = finite(3);
                }
            }
            2 => {
                a = ROT[(var % 3) as usize];
                for i in 12..15 {
                    a[i] = finite(3);
                }
            }
            _ => {
                for i in 0..6 {
                    a[i] = finite(3);
                }
            }
        }
        if gen >= 2 && var >> c & 1 == 1 {
            e = Some([finite(4), if sym::bv(1, 4) == 1 { 1. } else { -1. }]);
        }
        if kind == 8 {
            a = [0.; 16];
        }
        mv.push(a);
        ev.push(e);
        let mut t = [0.; 7];
        if kind >= 4 {
            for x in t.iter_mut() {
                *x = finite(5);
            }
        }
        tv.push(t);
    }
    let arr7 = |a: &[f64; 16]| [a[0], a[1], a[2], a[3], a[4], a[5], a[6]];
    let arr6 = |a: &[f64; 16]| [a[0], a[1], a[2], a[3], a[4], a[5]];
    // calls seen so far and commands on the wire at each call
    let calls = Rc::new(RefCell::new((0usize, 0usize)));
    let (c1, c2) = (calls.clone(), calls.clone());
    let (p3, p4) = (p.clone(), p.clone());
    let m_step = move || {
        let k = c1.borrow().0;
        c1.borrow_mut().0 += 1;
        // exactly one datagram per earlier callback
        sym::assert(p3.borrow().cmds.len() == k, 2);
        k
    };
    let t_step = move || {
        let k = c2.borrow().1;
        c2.borrow_mut().1 += 1;
        sym::assert(p4.borrow().cmds.len() == k, 2);
        k
    };
    let last = N - 1;
    let (m2, e2, t2) = (mv.clone(), ev.clone(), tv.clone());
    let mut jp = |_: &RobotState, _: &Duration| {
        let k = m_step();
        let o = JointPositions::new(arr7(&m2[k]));
        if k == last { o.motion_finished() } else { o }
    };
    let (m3, ms) = (mv.clone(), &t_step);
    let _ = ms;
    let mut ta = |_: &RobotState, _: &Duration| {
        let k = t_step();
        let o = Torques::new(t2[k]);
        if k == last && kind == 8 { o.motion_finished() } else { o }
    };
    let c5 = calls.clone();
    let mut jv = |_: &RobotState, _: &Duration| {
        let k = c5.borrow().0;
        c5.borrow_mut().0 += 1;
        sym::assert(p2.borrow().cmds.len() == k, 2);
        let o = JointVelocities::new(arr7(&m3[k]));
        if k == last { o.motion_finished() } else { o }
    };
    let (c6, p6) = (calls.clone(), p.clone());
    let mut cp = |_: &RobotState, _: &Duration| {
        let k = c6.borrow().0;
        c6.borrow_mut().0 += 1;
        sym::assert(p6.borrow().cmds.len() == k, 2);
        let o = CartesianPose::new(mv[k], e2[k]);
        if k == last { o.motion_finished() } else { o }
    };
    let (c7, p7) = (calls.clone(), p.clone());
    let mut cv = |_: &RobotState, _: &Duration| {
        let k = c7.borrow().0;
        c7.borrow_mut().0 += 1;
        sym::assert(p7.borrow().cmds.len() == k, 2);
        let o = CartesianVelocities::new(arr6(&mv[k]), e2[k]);
        if k == last { o.motion_finished() } else { o }
    };
    let f = MAX_CUTOFF_FREQUENCY;
    let res = match kind {
        0 => r.control_joint_positions(&mut jp, None, false, f),
        1 => r.control_joint_velocities(&mut jv, None, false, f),
        2 => r.control_cartesian_pose(&mut cp, ControllerMode::CartesianImpedance, false, f),
        3 => r.control_cartesian_velocities(&mut cv, None, false, f),
        4 => r.control_torques_and_joint_positions(&mut ta, &mut jp, false, f),
        5 => r.control_torques_and_joint_velocities(&mut ta, &mut jv, false, f),
        6 => r.control_torques_and_cartesian_pose(&mut ta, &mut cp, false, f),
        7 => r.control_torques_and_cartesian_velocities(&mut ta, &mut cv, false, f),
        _ => r.control_torques(&mut ta, false, f),
    };
    sym::assert(class(&res) == OK, 3);
    let p = p.borrow();
    // N callbacks; the last value is repeated with the finished flag until the motion has ended
    sym::assert(p.cmds.len() == N - 1 + 2, 4);
    sym::assert(p.dest_ok, 5);
    for (i, (b, newest)) in p.cmds.iter().enumerate() {
        let k = usize::min(i, N - 1);
        sym::assert(b.len() == cmd::SIZE, 6);
        sym::assert(g64(b, cmd::ID) == *newest, 7);
        let mut w = vec![0u8; cmd::SIZE];
        put_u64(&mut w, 0, *newest);
        if kind != 8 {
            match gen {
                0 => put_fs(&mut w, cmd::Q, &mv[k][0..7]),
                1 => put_fs(&mut w, cmd::DQ, &mv[k][0..7]),
                2 => put_fs(&mut w, cmd::POSE, &mv[k]),
                _ => put_fs(&mut w, cmd::VEL, &mv[k][0..6]),
            }
        }
        if let Some(e) = ev[k] {
            put_fs(&mut w, cmd::ELBOW, &e);
            w[cmd::VALID_ELBOW] = 1;
        }
        // with torques a finished motion value ends the loop before the torques are asked for
        let kt = if kind >= 4 && kind < 8 { usize::min(k, N - 2) } else { k };
        put_fs(&mut w, cmd::TAU, &tv[kt]);
        let fin = i >= N - 1;
        w[cmd::FINISHED] = fin as u8;
        sym::assert(b[cmd::FINISHED] == fin as u8, 8);
        sym::assert(b[cmd::VALID_ELBOW] == w[cmd::VALID_ELBOW], 9);
        sym::assert(same_bytes(&b[cmd::Q..cmd::VALID_ELBOW], &w[cmd::Q..cmd::VALID_ELBOW]), 10);
        sym::assert(same_bytes(&b[cmd::TAU..], &w[cmd::TAU..]), 11);
    }
    sym::reach(kind + 1);
}
