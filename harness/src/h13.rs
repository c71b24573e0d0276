//! C13: the log attached to a control error.
use crate::env;
use crate::peer::{self, cmd};
use crate::sym;
use crate::wire::*;
use franka::exception::FrankaException;
use franka::robot::control_types::*;
use franka::robot::logger::Record;
use franka::{RealtimeConfig, RobotState};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

/// the log holds the last `size` commands since the start of the motion, oldest first, each with
/// the state received after it
fn check(log: &[Record], cmds: &[(Vec<u8>, u64)], ids: &[u64], tags: &[f64], size: usize) {
    let n = usize::min(size, cmds.len());
    sym::assert(log.len() == n, 2);
    for i in 0..n {
        let (b, newest) = &cmds[cmds.len() - n + i];
        let k = ids.iter().position(|x| *x == *newest).unwrap_or(0) + 1;
        let rec = &log[i];
        sym::assert(rec.state.time == Duration::from_millis(ids[k]), 3);
        sym::assert(rec.state.q[0].to_bits() == tags[k].to_bits(), 4);
        let c = &rec.command;
        let mut ok = true;
        ok &= sym::same(&c.joint_positions.q, &gfs::<7>(b, cmd::Q));
        ok &= sym::same(&c.joint_velocities.dq, &gfs::<7>(b, cmd::DQ));
        ok &= sym::same(&c.cartesian_pose.O_T_EE, &gfs::<16>(b, cmd::POSE));
        ok &= sym::same(&c.cartesian_velocities.O_dP_EE, &gfs::<6>(b, cmd::VEL));
        ok &= sym::same(&c.torques.tau_J, &gfs::<7>(b, cmd::TAU));
        sym::assert(ok, 5);
    }
}
fn value() -> f64 {
    sym::range(-1., 1., 9)
}

fn one(sizes: &[usize], max: u32) {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let size = sizes[sym::choice(sizes.len() as u32, 1) as usize];
    let first = sym::choice(3, 2);
    let kind = sym::choice(4, 3);
    let n = 1 + sym::choice(max, 4);
    let mut p = peer::peer();
    let tags = Rc::new(RefCell::new(Vec::new()));
    let t2 = tags.clone();
    p.fill = Box::new(move |_, b| {
        let x = sym::fany(7);
        put_f(b, st::Q, x);
        t2.borrow_mut().push(x);
    });
    let (mut r, p) = peer::robot_with(p, RealtimeConfig::Ignore, Some(size));
    // an earlier motion, successful or failed, leaves nothing behind
    if first > 0 {
        if first == 2 {
            p.borrow_mut().abort_after = 3;
        }
        let mut k = 0;
        let _ = peer::run(&mut r, 0, false, 1000., |_: &RobotState, _: &Duration| {
            k += 1;
            k == 4
        });
        let mut p = p.borrow_mut();
        p.cmds.clear();
        p.ids.clear();
        p.rm = 1;
        tags.borrow_mut().clear();
    }
    p.borrow_mut().ids.clear();
    tags.borrow_mut().clear();
    let abort = sym::choice(2, 5);
    if abort == 0 {
        p.borrow_mut().abort_after = n;
    } else {
        p.borrow_mut().abort_after = u32::MAX;
        p.borrow_mut().finish_status = 6;
    }
    let mut k = 0;
    let mut done = move || {
        k += 1;
        abort == 1 && k == n
    };
    let res = match kind {
        0 => r.control_joint_positions(
            |_: &RobotState, _: &Duration| {
                let o = JointPositions::new([value(), 1., 2., 3., 4., 5., value()]);
                if done() { o.motion_finished() } else { o }
            },
            None,
            false,
            1000.,
        ),
        1 => r.control_cartesian_pose(
            |_: &RobotState, _: &Duration| {
                let mut t = IDENTITY;
                t[13] = value();
                let o = CartesianPose::new(t, None);
                if done() { o.motion_finished() } else { o }
            },
            None,
            false,
            1000.,
        ),
        2 => r.control_torques(
            |_: &RobotState, _: &Duration| {
                let o = Torques::new([value(), 1., 2., 3., 4., 5., value()]);
                if done() { o.motion_finished() } else { o }
            },
            false,
            1000.,
        ),
        _ => r.control_torques_and_cartesian_velocities(
            |_: &RobotState, _: &Duration| Torques::new([value(), 1., 2., 3., 4., 5., value()]),
            |_: &RobotState, _: &Duration| {
                let o = CartesianVelocities::new([value(), 1., 2., 3., 4., value()], None);
                if done() { o.motion_finished() } else { o }
            },
            false,
            1000.,
        ),
    };
    let p = p.borrow();
    match res {
        Err(FrankaException::ControlException { log: Some(log), error }) => {
            // the state after the last command of an ended motion has no tag
            let mut t = tags.borrow().clone();
            // states before the motion showed up as running carry no tag
            while t.len() < p.ids.len() {
                t.push(0.);
            }
            check(&log, &p.cmds, &p.ids, &t, size);
            sym::assert(!error.is_empty(), 6);
            sym::reach(1 + first);
        }
        _ => sym::assert(false, 7),
    }
    let _ = env::net();
}

/// small logs: wrapped several times
#[no_mangle]
pub extern "C" fn h13_log() {
    one(&[1, 2, 3, 5], 6);
}
/// a log of size zero
#[no_mangle]
pub extern "C" fn h13_zero() {
    one(&[0], 3);
}
