//! C03: the peer's answer decides the result of a service call.
use crate::env::{self, Ev};
use crate::svc::*;
use crate::sym;
use crate::wire::*;
use franka::exception::FrankaException;

fn has(s: &str, w: &str) -> bool {
    s.contains(w)
}

/// every robot service, every status value of its reply
#[no_mangle]
pub extern "C" fn h03_services() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(4);
    sym::on_hang(4);
    let k = sym::choice(N_CALLS, 1);
    let c = robot_call(k);
    let st = sym::u8v(2);
    sym::assume((st as u32) < n_status(c.cmd));
    let mut r = with_robot(1, move |ev| {
        if let Ev::Request(b) = ev {
            env::tcp_deliver(&reply(robot_cmd(b), robot_id(b), st));
        }
    });
    let res = (c.run)(&mut r);
    sym::assert((res == OK) == (st == 0), 1);
    sym::assert(res == OK || res == COMMAND, 2);
    // the next call is unaffected: it is decided by its own reply
    let res2 = class(&r.automatic_error_recovery());
    sym::assert((res2 == OK) == (st == 0), 3);
    sym::reach(if st == 0 { 1 } else { 2 });
}

/// error texts distinguish what happened
#[no_mangle]
pub extern "C" fn h03_messages() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(4);
    sym::on_hang(4);
    let which = sym::choice(4, 1);
    let n = match which {
        0 => 6,
        1 => 5,
        2 => 3,
        _ => 10,
    };
    let st = sym::choice(n, 2) as u8;
    let mut r = with_robot(1, move |ev| {
        if let Ev::Request(b) = ev {
            env::tcp_deliver(&reply(robot_cmd(b), robot_id(b), st));
        }
    });
    let res = match which {
        0 => r.automatic_error_recovery(),
        1 => r.stop(),
        2 => r.set_joint_impedance([1.; 7]),
        _ => {
            if st < 2 {
                sym::done();
            }
            r.control_joint_positions(|_, _| franka::JointPositions::new([0.; 7]), None, None, None)
        }
    };
    let text = match res {
        Err(FrankaException::CommandException { message }) => message,
        Err(_) => {
            sym::assert(false, 2);
            return;
        }
        Ok(_) => {
            sym::assert(st == 0, 1);
            return;
        }
    };
    sym::assert(st != 0, 1);
    let (user, reflex, manual, args) = match which {
        0 => (st == 4, st == 3, st == 2, false),
        1 => (st == 2, st == 3, false, false),
        2 => (false, false, false, st == 2),
        _ => (st == 7, st == 6, false, false),
    };
    sym::assert(has(&text, "User Stop") == user, 5);
    sym::assert(has(&text, "reflex") == reflex, 6);
    sym::assert(has(&text, "manual error recovery") == manual, 7);
    if which == 2 {
        sym::assert(has(&text, "invalid argument") == args, 8);
    }
    if which == 3 {
        sym::assert(has(&text, "rejected") == (st == 3 || st == 4 || st == 5), 9);
        sym::assert(has(&text, "aborted") == (st >= 6), 10);
        sym::assert(has(&text, "preempted") == (st == 2), 11);
        sym::assert(has(&text, "singular") == (st == 4), 12);
        sym::assert(has(&text, "invalid input") == (st == 8), 13);
    }
    sym::reach(which + 1);
}

/// the wall a reply describes is the wall the caller gets
#[no_mangle]
pub extern "C" fn h03_wall() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(4);
    sym::on_hang(4);
    let size: [f64; 3] = sym::fany_arr(1);
    let frame: [f64; 16] = sym::fany_arr(1);
    let act = sym::bv(1, 1) == 1;
    let id = sym::u32v(1) as i32;
    let mut r = with_robot(1, move |ev| {
        if let Ev::Request(b) = ev {
            let mut body = vec![0u8];
            pfs(&mut body, &size);
            pfs(&mut body, &frame);
            body.push(act as u8);
            env::tcp_deliver(&robot_msg(GET_CARTESIAN_LIMIT, robot_id(b), &body));
        }
    });
    match r.get_virtual_wall(id) {
        Ok(w) => {
            sym::assert(w.id == id, 14);
            sym::assert(sym::same(&w.object_world_size, &size), 15);
            sym::assert(sym::same(&w.p_frame, &frame), 16);
            sym::assert(w.active == act, 17);
            sym::reach(1);
        }
        Err(_) => sym::assert(false, 1),
    }
}

#[no_mangle]
pub extern "C" fn h03_gripper() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(4);
    sym::on_hang(4);
    let k = sym::choice(4, 1);
    let c = gripper_call(k);
    let st = sym::u16v(2);
    sym::assume(st < 4);
    let mut g = with_gripper(move |ev| {
        if let Ev::Request(b) = ev {
            env::tcp_deliver(&gripper_status(gripper_cmd(b), gripper_id(b), st));
        }
    });
    let res = (c.run)(&mut g);
    sym::assert((res == OK) == (st == 0), 1);
    sym::assert((res == OK_FALSE) == (st == 2), 18);
    sym::assert((res == COMMAND) == (st == 1 || st == 3), 2);
    sym::reach(1);
}

/// the default-behaviour sequence stops at the first refusal and reports it
#[no_mangle]
pub extern "C" fn h03_default_behavior() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(4);
    sym::on_hang(4);
    let st = [sym::u8v(1), sym::u8v(1), sym::u8v(1)];
    for s in st.iter() {
        sym::assume(*s < 3);
    }
    let mut i = 0;
    let mut r = with_robot(1, move |ev| {
        if let Ev::Request(b) = ev {
            env::tcp_deliver(&reply(robot_cmd(b), robot_id(b), st[i % 3]));
            i += 1;
        }
    });
    let res = class(&r.set_default_behavior());
    sym::assert((res == OK) == ((st[0] == 0) & (st[1] == 0) & (st[2] == 0)), 1);
    sym::assert(res == OK || res == COMMAND, 2);
    sym::reach(if res == OK { 1 } else { 2 });
}
