//! C18: connecting.
use crate::env::{self, Ev, Idle};
use crate::svc::*;
use crate::sym;
use crate::wire::*;
use franka::exception::FrankaException;
use franka::{Gripper, RealtimeConfig, Robot};
use std::cell::RefCell;
use std::rc::Rc;

struct Seen {
    requests: u32,
    ok: bool,
    first_id_ok: bool,
    version: u16,
    port: u16,
}
/// status, version and port arbitrary
#[no_mangle]
pub extern "C" fn h18_connect() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let gripper = sym::choice(2, 1) == 1;
    let status = sym::choice(if gripper { 4 } else { 2 }, 2);
    let version = sym::u16v(3);
    let port = sym::u16v(4);
    sym::assume(port != 0);
    let (host, ip) = if sym::choice(2, 5) == 0 { ("10.0.0.7", 0x0a00_0007) } else { ("192.168.178.43", 0xc0a8_b22b) };
    let state_id = sym::bv(64, 6);
    sym::assume(state_id > 0 && state_id < u64::MAX);
    let seen = Rc::new(RefCell::new(Seen { requests: 0, ok: true, first_id_ok: true, version: 0, port: 0 }));
    let s2 = seen.clone();
    let mut states = 0;
    env::init(
        if gripper { 10 } else { 12 },
        Box::new(move |ev| match ev {
            Ev::Request(b) => {
                let mut s = s2.borrow_mut();
                s.requests += 1;
                if gripper {
                    s.ok &= b.len() == 14 && gripper_cmd(b) == 0 && g32(b, 6) == 14;
                    s.version = g16(b, 10);
                    s.port = g16(b, 12);
                    env::tcp_deliver(&gripper_connect_response(gripper_id(b), status as u16, version));
                } else {
                    s.ok &= b.len() == 16 && robot_cmd(b) == CONNECT && g32(b, 8) == 16;
                    s.version = g16(b, 12);
                    s.port = g16(b, 14);
                    env::tcp_deliver(&connect_response(robot_id(b), status as u8, version));
                }
            }
            Ev::Idle(Idle::Udp) => {
                states += 1;
                if states < 10 && !gripper {
                    env::udp_deliver(base_state(state_id + states - 1));
                }
            }
            _ => {}
        }),
    );
    env::net().udp_port = port;
    let err: Option<FrankaException>;
    let mut got = None;
    if gripper {
        match Gripper::new(host) {
            Ok(g) => {
                got = Some(g.server_version());
                err = None;
                std::mem::forget(g);
            }
            Err(e) => err = Some(e),
        }
    } else {
        match Robot::new(host, RealtimeConfig::Ignore, None) {
            Ok(g) => {
                got = Some(g.server_version());
                err = None;
                std::mem::forget(g);
            }
            Err(e) => err = Some(e),
        }
    }
    let n = env::net();
    let want = if gripper { 3 } else { 5 };
    sym::assert(n.connect_addr.0 == ip && n.connect_addr.1 == if gripper { 1338 } else { 1337 }, 2);
    {
        let s = seen.borrow();
        sym::assert(s.requests == 1 && s.ok, 3);
        sym::assert(s.version == want, 4);
        // the port that was really bound, on an address the robot can reach
        sym::assert(s.port == n.udp_port && n.bound == 1 && (n.bind_ip >> 24) != 127, 5);
    }
    sym::assert(got.is_some() == (status == 0), 6);
    if let Some(v) = got {
        sym::assert(v == version, 7);
        sym::reach(1);
    }
    if let Some(e) = err {
        match e {
            FrankaException::IncompatibleLibraryVersionError { server_version, library_version } => {
                sym::assert(server_version == version && library_version == want, 8);
                sym::reach(2);
            }
            _ => sym::assert(false, 9),
        }
    }
    sym::done();
}
/// the text of the error
#[no_mangle]
pub extern "C" fn h18_message() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let gripper = sym::choice(2, 1) == 1;
    let (version, text) = match sym::choice(3, 2) {
        0 => (4u16, "4"),
        1 => (65535, "65535"),
        _ => (10, "10"),
    };
    env::init(
        if gripper { 10 } else { 12 },
        Box::new(move |ev| {
            if let Ev::Request(b) = ev {
                if gripper {
                    env::tcp_deliver(&gripper_connect_response(gripper_id(b), 1, version));
                } else {
                    env::tcp_deliver(&connect_response(robot_id(b), 1, version));
                }
            }
        }),
    );
    let (res, s) = if gripper {
        let r = Gripper::new("10.0.0.7");
        (class(&r), r.err().map(|e| e.to_string()))
    } else {
        let r = Robot::new("10.0.0.7", RealtimeConfig::Ignore, None);
        (class(&r), r.err().map(|e| e.to_string()))
    };
    sym::assert(res == VERSION_MISMATCH, 9);
    let s = s.unwrap_or_default();
    sym::assert(s.contains(text) && s.contains(if gripper { "3" } else { "5" }), 10);
    sym::reach(1);
    sym::done();
}
