//! C21: lost connections are reported, never waited for and never fatal.
use crate::env::{self, Ev, Idle};
use crate::peer;
use crate::svc::*;
use crate::sym;
use crate::wire::*;
use franka::{Gripper, RealtimeConfig, Robot, RobotState};
use std::time::Duration;

/// where the connection breaks
const CLOSED: u32 = 0; // closed when the request arrives
const PARTIAL: u32 = 1; // closed in the middle of the reply
const SEND: u32 = 2; // the request cannot be sent

fn break_after(reply: &[u8], how: u32, cut: usize) {
    if how == PARTIAL && !env::net().tcp_eof {
        env::tcp_deliver(&reply[..cut]);
    }
    env::tcp_close();
}

/// every robot service call
#[no_mangle]
pub extern "C" fn h21_services() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let k = sym::choice(N_CALLS, 1);
    let how = sym::choice(3, 2);
    let cut = if how == PARTIAL { 1 + sym::choice(12, 3) as usize } else { 0 };
    let c = robot_call(k);
    let mut r = with_robot(1, move |ev| {
        if let Ev::Request(b) = ev {
            break_after(&reply(robot_cmd(b), robot_id(b), 0), how, cut);
        }
    });
    env::net().tcp_send_fail = how == SEND;
    sym::assert((c.run)(&mut r) == NETWORK, 2);
    // and again
    sym::assert(class(&r.automatic_error_recovery()) == NETWORK, 2);
    sym::reach(how + 1);
}

/// every gripper call
#[no_mangle]
pub extern "C" fn h21_gripper() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let k = sym::choice(N_GCALLS, 1);
    let how = sym::choice(3, 2);
    let cut = if how == PARTIAL { 1 + sym::choice(11, 3) as usize } else { 0 };
    let c = gripper_call(k);
    let mut g = with_gripper(move |ev| {
        if let Ev::Request(b) = ev {
            break_after(&gripper_status(gripper_cmd(b), gripper_id(b), 0), how, cut);
        }
    });
    env::net().tcp_send_fail = how == SEND;
    sym::assert((c.run)(&mut g) == NETWORK, 2);
    sym::assert(bclass(&g.homing()) == NETWORK, 2);
    sym::reach(how + 1);
}

/// while connecting: refused, unknown host, closed, silent
#[no_mangle]
pub extern "C" fn h21_connect() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let gripper = sym::choice(2, 1) == 1;
    let how = sym::choice(6, 2);
    let cut = if how == 1 { 1 + sym::choice(13, 3) as usize } else { 0 };
    env::init(
        if gripper { 10 } else { 12 },
        Box::new(move |ev| match ev {
            Ev::Request(b) => {
                let m = if gripper {
                    gripper_connect_response(gripper_id(b), 0, 3)
                } else {
                    connect_response(robot_id(b), 0, 5)
                };
                if how == 5 {
                    env::tcp_deliver(&m);
                } else {
                    break_after(&m, how, cut);
                }
            }
            // how 5: no state ever arrives
            _ => {}
        }),
    );
    env::net().tcp_send_fail = how == SEND;
    env::net().connect_fail = how == 3;
    let host = if how == 4 { "no.such.host" } else { "10.0.0.7" };
    let res = if gripper {
        class(&Gripper::new(host))
    } else {
        class(&Robot::new(host, RealtimeConfig::Ignore, None))
    };
    if gripper && how == 5 {
        sym::assert(res == OK, 3);
    } else {
        sym::assert(res == NETWORK, 2);
    }
    sym::reach(how + 1);
}

/// no states
#[no_mangle]
pub extern "C" fn h21_silent() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let which = sym::choice(3, 1);
    let n = sym::choice(3, 2);
    let stale = sym::choice(2, 3) == 1;
    let mut sent = 0;
    if which == 2 {
        let mut g = with_gripper(move |_| {});
        sym::assert(class(&g.read_once()) == NETWORK, 2);
        sym::reach(3);
        return;
    }
    let mut r = with_robot(5, move |ev| {
        if let Ev::Idle(Idle::Udp) = ev {
            if sent < n {
                sent += 1;
                env::udp_deliver(base_state(5 + sent as u64));
            } else if stale && sent == n {
                // an old state does not count
                sent += 1;
                env::udp_deliver(base_state(2));
            }
        }
    });
    if which == 0 {
        for _ in 0..n {
            sym::assert(class(&r.read_once()) == OK, 4);
        }
        sym::assert(class(&r.read_once()) == NETWORK, 2);
    } else {
        let mut calls = 0;
        let res = r.read(|_: &RobotState| {
            calls += 1;
            true
        });
        sym::assert(class(&res) == NETWORK, 2);
        sym::assert(calls == n, 4);
    }
    sym::reach(which + 1);
}

/// the connection is closed during a motion
#[no_mangle]
pub extern "C" fn h21_motion() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let kind = [0, 2, 5, 8][sym::choice(4, 1) as usize];
    let n = 1 + sym::choice(2, 2);
    let how = sym::choice(3, 3);
    let (mut r, p) = peer::robot(peer::peer());
    let mut calls = 0;
    let p2 = p.clone();
    let res = peer::run(&mut r, kind, false, 1000., |_: &RobotState, _: &Duration| {
        calls += 1;
        if calls == n {
            // nothing gets through any more: commands, requests, states
            env::tcp_close();
            env::net().tcp_send_fail = how > 0;
            env::net().udp_send_fail = how == 2;
            let s = p2.borrow().states;
            p2.borrow_mut().silent_after = s;
        }
        false
    });
    sym::assert(class(&res) == NETWORK, 2);
    sym::assert(calls == n, 4);
    // a new attempt is refused in the same way
    let res = class(&r.automatic_error_recovery());
    sym::assert(res == NETWORK, 2);
    sym::reach(how + 1);
}

/// the connection is closed instead of a reply to the request to move
#[no_mangle]
pub extern "C" fn h21_start() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let kind = [0, 2, 5, 8][sym::choice(4, 1) as usize];
    let how = sym::choice(4, 2);
    let mut id = 1;
    let mut r = with_robot(1, move |ev| match ev {
        Ev::Request(b) => {
            if how == 3 {
                // accepted, then silence
                env::tcp_deliver(&status_response(MOVE, robot_id(b), 1));
            } else {
                break_after(&status_response(MOVE, robot_id(b), 1), how, 5);
            }
        }
        Ev::Idle(Idle::Udp) => {
            if how != 3 {
                id += 1;
                env::udp_deliver(base_state(id));
            }
        }
        _ => {}
    });
    env::net().tcp_send_fail = how == SEND;
    let mut calls = 0;
    let res = peer::run(&mut r, kind, false, 1000., |_: &RobotState, _: &Duration| {
        calls += 1;
        true
    });
    sym::assert(class(&res) == NETWORK, 2);
    sym::assert(calls == 0, 4);
    sym::reach(how + 1);
}
