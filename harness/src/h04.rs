//! C04: replies are matched to requests by id, however the byte stream is cut into segments.
use crate::env::{self, Ev, Idle};
use crate::svc::*;
use crate::sym;
use crate::wire::*;
use franka::robot::control_types::*;
use franka::RobotState;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
use std::time::Duration;

type Queue = Rc<RefCell<VecDeque<Vec<u8>>>>;

/// next segment, if any
fn pump(q: &Queue) {
    let s = q.borrow_mut().pop_front();
    if let Some(s) = s {
        env::tcp_deliver(&s);
    }
}
/// cut `b` at up to two places; the first segment arrives with the request, the others later
fn segments(b: &[u8], tag: u32) -> VecDeque<Vec<u8>> {
    let n = b.len() as u32;
    let i = sym::choice(n, tag) as usize;
    let j = i + sym::choice(n - i as u32, tag) as usize;
    let mut q = VecDeque::new();
    for s in [&b[..i], &b[i..j], &b[j..]].iter() {
        if !s.is_empty() {
            q.push_back(s.to_vec());
        }
    }
    q
}

/// every way of cutting the reply of a service call into at most three segments
#[no_mangle]
pub extern "C" fn h04_split() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let which = sym::choice(3, 1);
    let st = sym::u8v(2);
    sym::assume(st < 3);
    let q: Queue = Rc::new(RefCell::new(VecDeque::new()));
    let q2 = q.clone();
    let now = sym::choice(2, 3) == 1;
    let mut r = with_robot(1, move |ev| match ev {
        Ev::Request(b) => {
            *q2.borrow_mut() = segments(&reply(robot_cmd(b), robot_id(b), st), 4);
            if now {
                pump(&q2);
            }
        }
        Ev::Idle(Idle::Tcp) => pump(&q2),
        _ => {}
    });
    let res = match which {
        0 => class(&r.set_joint_impedance([1.; 7])),
        1 => class(&r.automatic_error_recovery()),
        _ => class(&r.stop()),
    };
    sym::assert((res == OK) == (st == 0), 2);
    sym::assert(res == OK || res == COMMAND, 2);
    sym::assert(q.borrow().is_empty(), 3);
    sym::reach(which + 1);
}

/// the same for a longer reply with content
#[no_mangle]
pub extern "C" fn h04_split_wall() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let size: [f64; 3] = sym::fany_arr(1);
    let frame: [f64; 16] = sym::fany_arr(1);
    let active = sym::u8v(1);
    sym::assume(active < 2);
    let cut = sym::choice(24, 2) as usize * 7 + 1;
    let q: Queue = Rc::new(RefCell::new(VecDeque::new()));
    let q2 = q.clone();
    let mut r = with_robot(1, move |ev| match ev {
        Ev::Request(b) => {
            let mut body = vec![0u8];
            pfs(&mut body, &size);
            pfs(&mut body, &frame);
            p8(&mut body, active);
            let m = robot_msg(robot_cmd(b), robot_id(b), &body);
            let cut = usize::min(cut, m.len() - 1);
            q2.borrow_mut().push_back(m[..cut].to_vec());
            q2.borrow_mut().push_back(m[cut..].to_vec());
        }
        Ev::Idle(Idle::Tcp) => pump(&q2),
        _ => {}
    });
    match r.get_virtual_wall(3) {
        Ok(w) => {
            sym::assert(sym::same(&w.object_world_size, &size), 4);
            sym::assert(sym::same(&w.p_frame, &frame), 4);
            sym::assert(w.active == (active == 1), 4);
            sym::reach(1);
        }
        Err(_) => sym::assert(false, 2),
    }
}

/// the reply to the connection request in pieces
#[no_mangle]
pub extern "C" fn h04_split_connect() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let q: Queue = Rc::new(RefCell::new(VecDeque::new()));
    let gripper = sym::choice(2, 1) == 1;
    let version = sym::u16v(2);
    let q2 = q.clone();
    env::init(if gripper { 10 } else { 12 }, Box::new(move |ev| match ev {
        Ev::Request(b) => {
            let m = if gripper {
                gripper_connect_response(gripper_id(b), 0, version)
            } else {
                connect_response(robot_id(b), 0, version)
            };
            *q2.borrow_mut() = segments(&m, 4);
        }
        Ev::Idle(Idle::Tcp) => pump(&q2),
        Ev::Idle(Idle::Udp) => {
            if !gripper {
                env::udp_deliver(base_state(1));
            }
        }
        _ => {}
    }));
    if gripper {
        match franka::Gripper::new("10.0.0.7") {
            Ok(g) => {
                sym::assert(g.server_version() == version, 5);
                sym::reach(1);
            }
            Err(_) => sym::assert(false, 2),
        }
    } else {
        match franka::Robot::new("10.0.0.7", RealtimeConfig::Ignore, None) {
            Ok(r) => {
                sym::assert(r.server_version() == version, 5);
                sym::reach(2);
            }
            Err(_) => sym::assert(false, 2),
        }
    }
}

/// gripper replies in pieces
#[no_mangle]
pub extern "C" fn h04_split_gripper() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let st = sym::choice(3, 1) as u16;
    let q: Queue = Rc::new(RefCell::new(VecDeque::new()));
    let q2 = q.clone();
    let mut g = with_gripper(move |ev| match ev {
        Ev::Request(b) => {
            *q2.borrow_mut() = segments(&gripper_status(gripper_cmd(b), gripper_id(b), st), 4);
            pump(&q2);
        }
        Ev::Idle(Idle::Tcp) => pump(&q2),
        _ => {}
    });
    let r1 = bclass(&g.homing());
    let want = [OK, COMMAND, OK_FALSE][st as usize];
    sym::assert(r1 == want, 2);
    sym::reach(st as u32 + 1);
}

/// replies to other requests before and after the awaited one, in one segment or several
#[no_mangle]
pub extern "C" fn h04_foreign() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let before = sym::choice(3, 1);
    let after = sym::choice(3, 1);
    let joined = sym::choice(2, 2) == 1;
    let long = sym::choice(2, 3) == 1;
    let st = sym::u8v(4);
    let st2 = sym::u8v(4);
    let other = sym::u8v(5);
    sym::assume(st < 3 && st2 < 3 && other < 3);
    let q: Queue = Rc::new(RefCell::new(VecDeque::new()));
    let q2 = q.clone();
    let mut n = 0;
    let mut r = with_robot(1, move |ev| match ev {
        Ev::Request(b) => {
            n += 1;
            let own = status_response(robot_cmd(b), robot_id(b), if n == 1 { st } else { st2 });
            let mut all = Vec::new();
            for i in 0..before + after + 1 {
                if i == before {
                    all.push(own.clone());
                } else if long {
                    let mut body = vec![other; 30];
                    body[7] = 0;
                    all.push(robot_msg(MOVE, 1000 + i + 10 * n, &body));
                } else {
                    all.push(status_response(MOVE, 1000 + i + 10 * n, other));
                }
            }
            if joined {
                q2.borrow_mut().push_back(all.concat());
            } else {
                for m in all {
                    q2.borrow_mut().push_back(m);
                }
            }
            pump(&q2);
        }
        Ev::Idle(Idle::Tcp) => pump(&q2),
        _ => {}
    });
    let res = class(&r.set_joint_impedance([1.; 7]));
    sym::assert((res == OK) == (st == 0), 2);
    let res = class(&r.set_cartesian_impedance([1.; 6]));
    sym::assert((res == OK) == (st2 == 0), 2);
    sym::reach(1);
}

/// the robot's replies around the end of a failed motion arrive together, in either order
#[no_mangle]
pub extern "C" fn h04_motion_tail() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let joined = sym::choice(2, 1) == 1;
    let move_first = sym::choice(2, 2) == 1;
    let good = sym::choice(3, 3);
    let q: Queue = Rc::new(RefCell::new(VecDeque::new()));
    let q2 = q.clone();
    let mut id = 1u64;
    let mut mv = 0;
    let mut mode = (0u8, 3u8, 1u8);
    let mut r = with_robot(1, move |ev| match ev {
        Ev::Request(b) => {
            let i = robot_id(b);
            match robot_cmd(b) {
                MOVE => {
                    mv = i;
                    env::tcp_deliver(&status_response(MOVE, i, 1));
                    mode = (1, 0, 2);
                }
                STOP_MOVE => {
                    let m = status_response(MOVE, mv, 2);
                    let s = status_response(STOP_MOVE, i, 0);
                    let (x, y) = if move_first { (m, s) } else { (s, m) };
                    if joined {
                        env::tcp_deliver(&[x, y].concat());
                    } else {
                        env::tcp_deliver(&x);
                        q2.borrow_mut().push_back(y);
                    }
                    mode = (0, 3, 1);
                }
                c => env::tcp_deliver(&reply(c, i, 0)),
            }
        }
        Ev::Idle(Idle::Tcp) => pump(&q2),
        Ev::Idle(Idle::Udp) => {
            id += 1;
            let mut s = base_state(id);
            s[st::MG_MODE] = mode.0;
            s[st::CTRL_MODE] = mode.1;
            s[st::ROBOT_MODE] = mode.2;
            env::udp_deliver(s);
        }
        _ => {}
    });
    for _ in 0..2 {
        let mut k = 0;
        let res = r.control_joint_positions(
            |_: &RobotState, _: &Duration| {
                k += 1;
                env::net().udp_send_fail = k > good;
                JointPositions::new([0.; 7])
            },
            None,
            false,
            1000.,
        );
        env::net().udp_send_fail = false;
        sym::assert(class(&res) == NETWORK, 6);
        // later calls are answered by their own replies
        sym::assert(class(&r.set_joint_impedance([1.; 7])) == OK, 2);
    }
    sym::reach(1 + good);
}

/// the acceptance of a motion and its abortion arrive in one segment
#[no_mangle]
pub extern "C" fn h04_started_and_ended() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let end = sym::choice(8, 1) as u8 + 2;
    let shown = sym::choice(3, 2);
    let joined = sym::choice(2, 3) == 1;
    let mut id = 1u64;
    let mut n = 0;
    let mut started = false;
    let mut r = with_robot(1, move |ev| match ev {
        Ev::Request(b) => {
            let i = robot_id(b);
            match robot_cmd(b) {
                MOVE => {
                    let x = status_response(MOVE, i, 1);
                    let y = status_response(MOVE, i, end);
                    if joined {
                        env::tcp_deliver(&[x, y].concat());
                    } else {
                        env::tcp_deliver(&x);
                        env::tcp_deliver(&y);
                    }
                    started = true;
                }
                c => env::tcp_deliver(&reply(c, i, 0)),
            }
        }
        Ev::Idle(Idle::Udp) => {
            id += 1;
            let mut s = base_state(id);
            // the motion is reported as running for a few states
            if started {
                n += 1;
                if n <= shown {
                    s[st::MG_MODE] = 1;
                    s[st::CTRL_MODE] = 0;
                    s[st::ROBOT_MODE] = 2;
                } else {
                    s[st::MG_MODE] = 0;
                    s[st::CTRL_MODE] = 3;
                    s[st::ROBOT_MODE] = 4;
                }
            }
            env::udp_deliver(s);
        }
        _ => {}
    });
    let res = r.control_joint_positions(
        |_: &RobotState, _: &Duration| JointPositions::new([0.; 7]),
        None,
        false,
        1000.,
    );
    sym::assert(class(&res) == CONTROL, 7);
    sym::assert(class(&r.set_joint_impedance([1.; 7])) == OK, 2);
    sym::reach(1 + shown);
}
