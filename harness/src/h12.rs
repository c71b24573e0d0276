//! C12: life cycle of a motion that goes well.
use crate::env::{self, Ev, Idle};
use crate::peer::{self, cmd};
use crate::svc::*;
use crate::sym;
use crate::wire::*;
use franka::exception::FrankaException;
use franka::RobotState;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

/// every interface: start, callbacks, finish; twice in a row
#[no_mangle]
pub extern "C" fn h12_motion() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let kind = sym::choice(peer::KINDS, 1);
    let n = 1 + sym::choice(3, 2) as usize;
    let lag = sym::choice(3, 3);
    let fin = 1 + sym::choice(3, 4);
    let mut p = peer::peer();
    p.start_lag = lag;
    p.finish_after = fin;
    let (mut r, p) = peer::robot(p);
    let p2 = p.clone();
    let mut calls = 0;
    let res = peer::run(&mut r, kind, false, 1000., |s: &RobotState, d: &Duration| {
        let p = p2.borrow();
        // the callback is only asked while the motion is reported as running
        sym::assert(p.running && p.mg == p.mg_after_move && p.cm == p.ctrl_after_move, 2);
        sym::assert(p.moves == 1 && p.stops == 0, 3);
        // one command per callback
        sym::assert(p.cmds.len() == calls, 4);
        // states are seen without a gap
        sym::assert(s.time == Duration::from_millis(p.id), 5);
        sym::assert(*d == Duration::from_millis(if calls == 0 { 0 } else { 1 }), 6);
        calls += 1;
        calls == n
    });
    sym::assert(class(&res) == OK, 7);
    sym::assert(calls == n, 8);
    {
        let p = p.borrow();
        sym::assert(!p.running && p.finished_seen == fin, 9);
        sym::assert(p.cmds.len() == n - 1 + fin as usize, 10);
        for (i, (b, _)) in p.cmds.iter().enumerate() {
            sym::assert((b[cmd::FINISHED] == 1) == (i >= n - 1), 11);
        }
        sym::assert(p.moves == 1 && p.stops == 0, 3);
    }
    // the next motion starts from scratch
    p.borrow_mut().start_lag = 1;
    p.borrow_mut().finish_after = 1;
    let p2 = p.clone();
    let mut again = 0;
    let before = p.borrow().cmds.len();
    let kind2 = (kind + 5) % peer::KINDS;
    let res = peer::run(&mut r, kind2, false, 1000., |_: &RobotState, d: &Duration| {
        sym::assert(p2.borrow().cmds.len() == before + again, 4);
        sym::assert(*d == Duration::from_millis(if again == 0 { 0 } else { 1 }), 6);
        again += 1;
        again == 2
    });
    sym::assert(class(&res) == OK, 7);
    sym::assert(again == 2 && p.borrow().moves == 2 && p.borrow().stops == 0, 8);
    sym::reach(kind + 1);
}

/// the modes in the states change one after the other at the start and at the end
#[no_mangle]
pub extern "C" fn h12_gradual() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let kind = sym::choice(peer::KINDS, 1);
    let sp = sym::choice(3, 2) as u8;
    let ep = sym::choice(3, 3) as u8;
    let n = 1 + sym::choice(2, 4) as usize;
    let mut p = peer::peer();
    p.start_part = sp;
    p.end_part = ep;
    p.start_lag = sp as u32;
    p.finish_after = 1 + ep as u32 % 2;
    let (mut r, p) = peer::robot(p);
    for round in 0..2 {
        let p2 = p.clone();
        p.borrow_mut().cmds.clear();
        let mut calls = 0;
        // filter and limiter do not matter for the protocol
        let limit = (n + round) % 2 == 0;
        let res = peer::run(&mut r, kind, limit, if limit { 100. } else { 1000. }, |_: &RobotState, d: &Duration| {
            let p = p2.borrow();
            sym::assert(p.running && p.mg == p.mg_after_move && p.cm == p.ctrl_after_move, 2);
            sym::assert(p.cmds.len() == calls, 4);
            sym::assert(*d == Duration::from_millis(if calls == 0 { 0 } else { 1 }), 6);
            calls += 1;
            calls == n
        });
        sym::assert(class(&res) == OK, 7);
        sym::assert(calls == n, 8);
        let p = p.borrow();
        sym::assert(!p.running && p.moves == round as u32 + 1 && p.stops == 0, 9);
        for (i, (b, _)) in p.cmds.iter().enumerate() {
            sym::assert((b[cmd::FINISHED] == 1) == (i >= n - 1), 11);
        }
    }
    sym::reach(1 + sp as u32);
    sym::reach(4 + ep as u32);
}

/// time steps with arbitrary gaps between states
#[no_mangle]
pub extern "C" fn h12_time() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let kind = [0, 6, 8][sym::choice(3, 1) as usize];
    let mut p = peer::peer();
    // also across a full second
    p.id = [1, 985, 59_990][sym::choice(3, 2) as usize];
    let base = p.id;
    let mut gaps = 0;
    p.next_id = Box::new(move |last| {
        gaps += 1;
        if gaps > 4 {
            return last + 1;
        }
        let n = base + sym::bv(6, 77);
        sym::assume(n > last);
        n
    });
    let (mut r, p) = peer::robot(p);
    let p2 = p.clone();
    let mut calls = 0usize;
    let mut last = 0u64;
    let res = peer::run(&mut r, kind, false, 1000., |s: &RobotState, d: &Duration| {
        let now = p2.borrow().id;
        sym::assert(s.time == Duration::from_millis(now), 5);
        let want = if calls == 0 {
            Duration::from_millis(0)
        } else {
            Duration::from_millis(now) - Duration::from_millis(last)
        };
        sym::assert(*d == want, 6);
        last = now;
        calls += 1;
        calls == 3
    });
    sym::assert(class(&res) == OK, 7);
    sym::reach(1);
}

/// the end of a motion: success is reported only if the robot says so
#[no_mangle]
pub extern "C" fn h12_end() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let kind = [0, 2, 5, 8][sym::choice(4, 1) as usize];
    let n = 1 + sym::choice(2, 2) as usize;
    let status = sym::u8v(3);
    sym::assume(status <= 8);
    let status = if status == 0 { 0 } else { status + 1 };
    let mut p = peer::peer();
    p.finish_status = status;
    let (mut r, p) = peer::robot(p);
    let mut calls = 0;
    let res = peer::run(&mut r, kind, false, 1000., |_: &RobotState, _: &Duration| {
        calls += 1;
        calls == n
    });
    sym::assert((class(&res) == OK) == (status == 0), 7);
    match res {
        Ok(()) => sym::reach(1),
        Err(FrankaException::ControlException { error, .. }) => {
            let w = match status {
                2 => "preempted",
                3 => "not possible in the current mode",
                4 => "singular pose",
                5 => "path deviation",
                6 => "still moving",
                7 => "User Stop",
                8 => "invalid input",
                _ => "aborted",
            };
            sym::assert(error.contains(w), 12);
            sym::reach(2);
        }
        Err(_) => sym::assert(false, 13),
    }
    let _ = p;
}

/// while the robot reports a running motion no second one is requested
#[no_mangle]
pub extern "C" fn h12_busy() {
    sym::mode(sym::MODE_FP);
    // giving up loudly is fine, requesting a motion is not
    let kind = sym::choice(peer::KINDS, 1);
    let mg = sym::u8v(2);
    sym::assume(mg <= 4);
    let cm = sym::u8v(3);
    sym::assume(cm <= 3);
    let busy = mg != 0 || cm == 2;
    let asked = Rc::new(RefCell::new(false));
    let a2 = asked.clone();
    let mut id = 1;
    let mut r = with_robot(1, move |ev| match ev {
        Ev::Request(b) => {
            if robot_cmd(b) == MOVE {
                sym::assert(!busy, 14);
                *a2.borrow_mut() = true;
            }
            env::tcp_deliver(&reply(robot_cmd(b), robot_id(b), 3));
        }
        Ev::Idle(Idle::Udp) => {
            id += 1;
            let mut s = base_state(id);
            s[st::MG_MODE] = mg;
            s[st::CTRL_MODE] = cm;
            s[st::ROBOT_MODE] = 2;
            env::udp_deliver(s);
        }
        _ => {}
    });
    if r.read_once().is_err() {
        sym::assert(false, 15);
    }
    sym::reach(if busy { 1 } else { 2 });
    let res = peer::run(&mut r, kind, false, 1000., |_: &RobotState, _: &Duration| true);
    sym::assert(class(&res) != OK, 7);
    sym::assert(*asked.borrow() != busy, 14);
}

/// a refused motion: no callback, no command, the reason is returned
#[no_mangle]
pub extern "C" fn h12_refused() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let kind = sym::choice(peer::KINDS, 1);
    let status = sym::u8v(2);
    sym::assume(status >= 2 && status <= 9);
    let mut p = peer::peer();
    p.move_status = status;
    let (mut r, p) = peer::robot(p);
    let mut calls = 0;
    let res = peer::run(&mut r, kind, false, 1000., |_: &RobotState, _: &Duration| {
        calls += 1;
        true
    });
    sym::assert(class(&res) == COMMAND || class(&res) == CONTROL, 7);
    sym::assert(calls == 0, 8);
    sym::assert(p.borrow().cmds.is_empty() && p.borrow().moves == 1, 10);
    // a later attempt works
    p.borrow_mut().move_status = 1;
    let res = peer::run(&mut r, kind, false, 1000., |_: &RobotState, _: &Duration| true);
    sym::assert(class(&res) == OK, 16);
    sym::reach(1);
}
