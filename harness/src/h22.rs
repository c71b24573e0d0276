//! C22: a motion that fails.
use crate::env;
use crate::peer;
use crate::svc::*;
use crate::sym;
use franka::exception::FrankaException;
use franka::RobotState;
use std::time::Duration;

fn text(status: u8) -> &'static str {
    match status {
        2 => "preempted",
        3 => "not possible in the current mode",
        4 => "singular pose",
        5 => "path deviation",
        6 => "reflex",
        7 => "User Stop",
        8 => "invalid input",
        _ => "aborted",
    }
}

/// the robot aborts the motion: the error says why, whatever becomes of the stop request
#[no_mangle]
pub extern "C" fn h22_abort() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let kind = [0, 3, 6, 8][sym::choice(4, 1) as usize];
    let n = 1 + sym::choice(2, 2);
    // any final status of a failed motion, any outcome of the stop request, any mode but moving
    let status = sym::u8v(3);
    sym::assume(status >= 2 && status <= 9);
    let stop = sym::u8v(4);
    sym::assume(stop <= 4);
    let rm = sym::u8v(5);
    sym::assume(rm <= 6 && rm != 2);
    let mut p = peer::peer();
    p.abort_after = n;
    p.abort_status = status;
    p.abort_rm = rm;
    p.stop_status = stop;
    if status == 6 {
        p.idle_reflex = true;
    }
    let (mut r, p) = peer::robot(p);
    let mut calls = 0;
    let res = peer::run(&mut r, kind, false, 1000., |_: &RobotState, _: &Duration| {
        calls += 1;
        false
    });
    match &res {
        Err(FrankaException::ControlException { log, error }) => {
            sym::assert(error.contains(text(status)), 2);
            // the reason given by the robot
            sym::assert(error.contains(&format!("{:?}", franka::robot::error::FrankaError::CartesianReflex)) == (status == 6), 3);
            sym::assert(log.is_some(), 4);
        }
        _ => sym::assert(false, 5),
    }
    sym::assert(calls == n, 6);
    {
        let p = p.borrow();
        sym::assert(p.cmds.len() as u32 == n, 6);
        sym::assert(p.moves == 1 && p.stops <= 1, 7);
    }
    // the connection is still usable
    {
        let mut p = p.borrow_mut();
        p.rm = 1;
        p.abort_after = u32::MAX;
        p.idle_reflex = false;
    }
    sym::assert(class(&r.automatic_error_recovery()) == OK, 8);
    let mut k = 0;
    let res = peer::run(&mut r, kind, false, 1000., |_: &RobotState, _: &Duration| {
        k += 1;
        k == 2
    });
    sym::assert(class(&res) == OK, 9);
    sym::reach(if status == 6 { 1 } else { 2 });
}

/// a local failure while the robot is moving: stop is requested and awaited, the failure returned
#[no_mangle]
pub extern "C" fn h22_local() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let kind = [0, 3, 6, 8][sym::choice(4, 1) as usize];
    let n = 1 + sym::choice(3, 2);
    let preempt = sym::choice(2, 3) == 1;
    let lag = sym::choice(3, 4);
    let how = sym::choice(2, 5);
    let mut p = peer::peer();
    p.stop_lag = lag;
    if !preempt {
        p.preempt_reply = peer::REPLY_NONE;
    }
    let (mut r, p) = peer::robot(p);
    let mut calls = 0;
    let res = peer::run(&mut r, kind, lag == 1, 1000., |_: &RobotState, _: &Duration| {
        calls += 1;
        if calls == n {
            if how == 0 {
                env::net().udp_send_fail = true;
            } else {
                // something that is not a robot state arrives
                env::udp_deliver(vec![1, 2, 3]);
            }
        }
        false
    });
    sym::assert(class(&res) == NETWORK, 5);
    sym::assert(calls == n, 6);
    {
        let p = p.borrow();
        sym::assert(p.stops == 1 && p.moves == 1, 7);
        // the motion has ended before the call returns
        sym::assert(!p.running, 10);
    }
    env::net().udp_send_fail = false;
    let mut k = 0;
    let res = peer::run(&mut r, kind, false, 1000., |_: &RobotState, _: &Duration| {
        k += 1;
        k == 2
    });
    sym::assert(class(&res) == OK, 9);
    sym::reach(how + 1);
}

/// the modes in the states change one after the other when the motion is aborted or stopped
#[no_mangle]
pub extern "C" fn h22_gradual() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let kind = [0, 1, 3, 6, 8][sym::choice(5, 1) as usize];
    let n = 1 + sym::choice(2, 2);
    let aborted = sym::choice(2, 3) == 1;
    let part = 1 + sym::choice(if aborted { 3 } else { 2 }, 4) as u8;
    let mut p = peer::peer();
    if aborted {
        p.abort_after = n;
        p.abort_part = part;
    } else {
        p.end_part = part;
    }
    let (mut r, p) = peer::robot(p);
    let mut calls = 0;
    let limit = n == 2;
    let res = peer::run(&mut r, kind, limit, if limit { 100. } else { 1000. }, |_: &RobotState, _: &Duration| {
        calls += 1;
        if calls == n && !aborted {
            env::net().udp_send_fail = true;
        }
        false
    });
    sym::assert(class(&res) == if aborted { CONTROL } else { NETWORK }, 5);
    sym::assert(calls == n, 6);
    {
        let p = p.borrow();
        sym::assert(p.moves == 1 && (aborted || p.stops == 1), 7);
        sym::assert(!p.running, 10);
    }
    env::net().udp_send_fail = false;
    {
        let mut p = p.borrow_mut();
        p.rm = 1;
        p.abort_after = u32::MAX;
        p.end_part = 0;
    }
    let mut k = 0;
    let res = peer::run(&mut r, kind, limit, 1000., |_: &RobotState, _: &Duration| {
        k += 1;
        k == 2
    });
    sym::assert(class(&res) == OK, 9);
    sym::reach(if aborted { 0 } else { 3 } + part as u32);
}

/// the robot falls silent during a motion
#[no_mangle]
pub extern "C" fn h22_silent() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let kind = [0, 3, 6, 8][sym::choice(4, 1) as usize];
    let after = 1 + sym::choice(4, 2);
    let stop = sym::u8v(4);
    sym::assume(stop <= 4);
    let mut p = peer::peer();
    p.silent_after = after;
    p.stop_status = stop;
    let (mut r, p) = peer::robot(p);
    let res = peer::run(&mut r, kind, false, 1000., |_: &RobotState, _: &Duration| false);
    sym::assert(class(&res) == NETWORK, 5);
    sym::assert(p.borrow().stops == 1, 7);
    sym::reach(1);
}
