//! C19: realtime.
use crate::env::{self, Ev};
use crate::peer::{self, peer};
use crate::svc::*;
use crate::sym;
use crate::wire::*;
use franka::{RealtimeConfig, Robot};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// kinds 0..8 of motions, 9: motion to a joint goal, 10: unlimited and unfiltered
const N: u32 = 10;
#[no_mangle]
pub extern "C" fn h19_realtime() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let kind = sym::choice(N, 1);
    // 0 ignored, 1 enforced, 2 the default
    let cfg = sym::choice(3, 2);
    let kernel = sym::choice(2, 3) == 1;
    let fail = sym::choice(4, 4);
    let first = 1;
    let p = Rc::new(RefCell::new(peer()));
    let p2 = p.clone();
    let moved_rt = Rc::new(Cell::new(-1i64));
    let m2 = moved_rt.clone();
    let mut connected = false;
    env::init(
        12,
        Box::new(move |ev| {
            if !connected {
                match ev {
                    Ev::Request(r) => env::tcp_deliver(&connect_response(robot_id(r), 0, 5)),
                    Ev::Idle(env::Idle::Udp) => {
                        connected = true;
                        env::udp_deliver(base_state(first));
                    }
                    _ => {}
                }
            } else {
                if let Ev::Request(r) = &ev {
                    if robot_cmd(r) == MOVE && m2.get() < 0 {
                        m2.set(env::net().sched[5]);
                    }
                }
                p2.borrow_mut().on_event(ev)
            }
        }),
    );
    if kernel {
        env::add_file("/sys/kernel/realtime", vec![b'1', b'\n'], true);
    }
    env::net().rt_ok = fail as i32;
    let r = match cfg {
        0 => Robot::new("10.0.0.7", RealtimeConfig::Ignore, None),
        1 => Robot::new("10.0.0.7", RealtimeConfig::Enforce, None),
        _ => Robot::new("10.0.0.7", None, None),
    };
    let mut r = match r {
        Ok(r) => r,
        Err(_) => {
            sym::assert(false, 2);
            sym::hang()
        }
    };
    let in_cb = Cell::new(-1i64);
    let calls = Cell::new(0);
    let again = sym::choice(2, 5);
    for round in 0..1 + again {
        let res = if kind < 9 {
            class(&peer::run(&mut r, kind, true, 100., |_, _| {
                in_cb.set(env::net().sched[5]);
                calls.set(calls.get() + 1);
                calls.get() > 1
            }))
        } else {
            let q = [0.; 7];
            class(&r.joint_motion(0.5, &q))
        };
        let enforced = cfg != 0;
        if enforced && (!kernel || fail != 0) {
            sym::assert(res == REALTIME, 3);
            sym::assert(p.borrow().moves == 0 && calls.get() == 0 && p.borrow().cmds.len() == 0, 4);
            sym::reach(1);
        } else {
            sym::assert(res == OK, 5);
            sym::assert(p.borrow().moves == 1 + round, 6);
            if enforced {
                if kind < 9 {
                    sym::assert(in_cb.get() == 3, 7);
                }
                sym::assert(moved_rt.get() == 3, 8);
                sym::reach(2);
            } else {
                sym::reach(3);
            }
        }
    }
    // everything else works without realtime
    sym::assert(class(&r.set_joint_impedance([1.; 7])) == OK, 9);
    sym::assert(class(&r.read_once()) == OK, 9);
    std::mem::forget(r);
    sym::done();
}
