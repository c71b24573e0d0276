//! C01: TCP requests carry exactly what the caller asked for.
use crate::env::{self, Ev};
use crate::svc::*;
use crate::sym;
use crate::wire::*;
use franka::robot::control_types::*;
use std::cell::RefCell;
use std::rc::Rc;

type Log = Rc<RefCell<Vec<Vec<u8>>>>;

/// asserts that `b` is `cmd`/`body` in the wire format and returns its id
fn check_robot(b: &[u8], cmd: u32, body: &[u8]) -> u32 {
    sym::assert(b.len() == 12 + body.len(), 1);
    sym::assert(robot_cmd(b) == cmd, 2);
    sym::assert(g32(b, 8) as usize == b.len(), 3);
    sym::assert(same_bytes(&b[12..], body), 4);
    robot_id(b)
}
fn fresh(ids: &[u32]) {
    for i in 0..ids.len() {
        for j in 0..i {
            sym::assert(ids[i] != ids[j], 5);
        }
    }
}

#[no_mangle]
pub extern "C" fn h01_services() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(8);
    sym::on_hang(8);
    let k = sym::choice(N_CALLS, 1);
    let c = robot_call(k);
    let log: Log = Rc::new(RefCell::new(Vec::new()));
    let l2 = log.clone();
    let mut r = with_robot(1, move |ev| {
        if let Ev::Request(b) = ev {
            l2.borrow_mut().push(b.to_vec());
            env::tcp_deliver(&reply(robot_cmd(b), robot_id(b), 0));
        }
    });
    let res = (c.run)(&mut r);
    sym::assert(res == OK, 6);
    let n1 = log.borrow().len();
    sym::assert(n1 == 1, 7);
    // a later call gets an id of its own
    let c2 = robot_call((k + 1) % N_CALLS);
    let res = (c2.run)(&mut r);
    sym::assert(res == OK, 6);
    let log = log.borrow();
    sym::assert(log.len() == 2, 7);
    let mut ids = vec![0];
    ids[0] = check_robot(&log[0], c.cmd, &c.body);
    ids.push(check_robot(&log[1], c2.cmd, &c2.body));
    fresh(&ids);
    sym::reach(k + 1);
}

#[no_mangle]
pub extern "C" fn h01_gripper() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(8);
    sym::on_hang(8);
    let k = sym::choice(N_GCALLS, 1);
    let c = gripper_call(k);
    let log: Log = Rc::new(RefCell::new(Vec::new()));
    let l2 = log.clone();
    let mut g = with_gripper(move |ev| {
        if let Ev::Request(b) = ev {
            l2.borrow_mut().push(b.to_vec());
            env::tcp_deliver(&gripper_status(gripper_cmd(b), gripper_id(b), 0));
        }
    });
    let c2 = gripper_call((k + 1) % N_GCALLS);
    sym::assert((c.run)(&mut g) == OK, 6);
    let n1 = log.borrow().len();
    sym::assert(n1 == 1, 7);
    sym::assert((c2.run)(&mut g) == OK, 6);
    let log = log.borrow();
    sym::assert(log.len() == 2, 7);
    let want = [(c.cmd, &c.body), (c2.cmd, &c2.body)];
    for i in 0..2 {
        let b = &log[i];
        sym::assert(b.len() == 10 + want[i].1.len(), 1);
        sym::assert(gripper_cmd(b) == want[i].0, 2);
        sym::assert(g32(b, 6) as usize == b.len(), 3);
        sym::assert(same_bytes(&b[10..], want[i].1), 4);
    }
    fresh(&[gripper_id(&log[0]), gripper_id(&log[1])]);
    sym::reach(k + 1);
}

struct Seen {
    small: Vec<bool>,
    large: Vec<u32>,
}
impl Seen {
    fn fresh(&mut self, id: u32) -> bool {
        if (id as usize) < self.small.len() {
            !std::mem::replace(&mut self.small[id as usize], true)
        } else {
            let f = !self.large.contains(&id);
            self.large.push(id);
            f
        }
    }
}

/// ids over a long session; the ids of the connection requests included
#[no_mangle]
pub extern "C" fn h01_history() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(8);
    sym::on_hang(8);
    let n = sym::deep(66000, 200000);
    let seen = Rc::new(RefCell::new((Seen { small: vec![false; 1 << 18], large: Vec::new() }, 0)));
    let s2 = seen.clone();
    if sym::choice(2, 1) == 0 {
        let mut r = with_robot(1, move |ev| {
            if let Ev::Request(b) = ev {
                let mut s = s2.borrow_mut();
                let f = s.0.fresh(robot_id(b));
                sym::assert(f, 5);
                s.1 += 1;
                env::tcp_deliver(&reply(robot_cmd(b), robot_id(b), 0));
            }
        });
        for i in 0..n {
            let res = if i % 2 == 0 { r.stop() } else { r.automatic_error_recovery() };
            sym::assert(class(&res) == OK, 6);
        }
        sym::reach(1);
    } else {
        let mut g = with_gripper(move |ev| {
            if let Ev::Request(b) = ev {
                let mut s = s2.borrow_mut();
                let f = s.0.fresh(gripper_id(b));
                sym::assert(f, 5);
                s.1 += 1;
                env::tcp_deliver(&gripper_status(gripper_cmd(b), gripper_id(b), 0));
            }
        });
        for i in 0..n {
            let res = if i % 2 == 0 { g.stop() } else { g.homing() };
            sym::assert(class(&res) == OK, 6);
        }
        sym::reach(2);
    }
    let calls = seen.borrow().1;
    sym::assert(calls == n, 7);
}

/// the documented default behaviour is exactly these three requests
#[no_mangle]
pub extern "C" fn h01_default_behavior() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(8);
    sym::on_hang(8);
    let log: Log = Rc::new(RefCell::new(Vec::new()));
    let l2 = log.clone();
    let mut r = with_robot(1, move |ev| {
        if let Ev::Request(b) = ev {
            l2.borrow_mut().push(b.to_vec());
            env::tcp_deliver(&reply(robot_cmd(b), robot_id(b), 0));
        }
    });
    sym::assert(class(&r.set_default_behavior()) == OK, 6);
    let log = log.borrow();
    sym::assert(log.len() == 3, 7);
    let mut seen = [0u32; 3];
    let mut ids = Vec::new();
    for b in log.iter() {
        let mut body = Vec::new();
        match robot_cmd(b) {
            SET_COLLISION => {
                seen[0] += 1;
                for (v, n) in [(20., 14), (10., 14), (20., 12), (10., 12)].iter() {
                    for _ in 0..*n {
                        pf(&mut body, *v);
                    }
                }
                ids.push(check_robot(b, SET_COLLISION, &body));
            }
            SET_JOINT_IMPEDANCE => {
                seen[1] += 1;
                pfs(&mut body, &[3000., 3000., 3000., 2500., 2500., 2000., 2000.]);
                ids.push(check_robot(b, SET_JOINT_IMPEDANCE, &body));
            }
            SET_CARTESIAN_IMPEDANCE => {
                seen[2] += 1;
                pfs(&mut body, &[3000., 3000., 3000., 300., 300., 300.]);
                ids.push(check_robot(b, SET_CARTESIAN_IMPEDANCE, &body));
            }
            _ => sym::assert(false, 2),
        }
    }
    sym::assert(seen == [1, 1, 1], 7);
    fresh(&ids);
    sym::reach(1);
}

/// what every way of starting a motion asks for
#[no_mangle]
pub extern "C" fn h01_move() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(8);
    sym::on_hang(8);
    let log: Log = Rc::new(RefCell::new(Vec::new()));
    let l2 = log.clone();
    let mut r = with_robot(1, move |ev| {
        if let Ev::Request(b) = ev {
            l2.borrow_mut().push(b.to_vec());
            // rejected: the call ends here
            env::tcp_deliver(&reply(robot_cmd(b), robot_id(b), 3));
        }
    });
    let cm = |c: u32| match c {
        0 => None,
        1 => Some(ControllerMode::JointImpedance),
        _ => Some(ControllerMode::CartesianImpedance),
    };
    let jp = |_: &franka::RobotState, _: &std::time::Duration| JointPositions::new([0.; 7]);
    let jv = |_: &franka::RobotState, _: &std::time::Duration| JointVelocities::new([0.; 7]);
    let cp = |_: &franka::RobotState, _: &std::time::Duration| CartesianPose::new(IDENTITY, None);
    let cv = |_: &franka::RobotState, _: &std::time::Duration| CartesianVelocities::new([0.; 6], None);
    let ta = |_: &franka::RobotState, _: &std::time::Duration| Torques::new([0.; 7]);
    let k = sym::choice(18, 1);
    let (res, ctrl, gen) = if k < 12 {
        let c = k % 3;
        let res = match k / 3 {
            0 => r.control_joint_positions(jp, cm(c), None, None),
            1 => r.control_joint_velocities(jv, cm(c), None, None),
            2 => r.control_cartesian_pose(cp, cm(c), None, None),
            _ => r.control_cartesian_velocities(cv, cm(c), None, None),
        };
        (res, if c == 2 { 1 } else { 0 }, k / 3)
    } else {
        match k {
            12 => (r.control_torques_and_joint_positions(ta, jp, None, None), 2, 0),
            13 => (r.control_torques_and_joint_velocities(ta, jv, None, None), 2, 1),
            14 => (r.control_torques_and_cartesian_pose(ta, cp, None, None), 2, 2),
            15 => (r.control_torques_and_cartesian_velocities(ta, cv, None, None), 2, 3),
            16 => (r.control_torques(ta, None, None), 2, 1),
            _ => (r.joint_motion(0.5, &[0.1; 7]), 0, 0),
        }
    };
    sym::assert(class(&res) == COMMAND, 6);
    let log = log.borrow();
    sym::assert(log.len() == 1, 7);
    let mut body = Vec::new();
    p32(&mut body, ctrl);
    p32(&mut body, gen);
    pfs(&mut body, &[10., 3.12, 2. * std::f64::consts::PI]);
    pfs(&mut body, &[10., 3.12, 2. * std::f64::consts::PI]);
    check_robot(&log[0], MOVE, &body);
    sym::reach(k + 1);
}
