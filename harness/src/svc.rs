//! The service calls of the public API, each with an independent statement of the request it stands
//! for: command number and body bytes.
#![allow(dead_code)]
use crate::sym;
use crate::wire::*;
use franka::exception::{FrankaException, FrankaResult};
use franka::{Gripper, Robot};

pub const OK: u32 = 0;
pub const COMMAND: u32 = 1;
pub const NETWORK: u32 = 2;
pub const CONTROL: u32 = 3;
pub const VERSION_MISMATCH: u32 = 4;
pub const MODEL: u32 = 5;
pub const REALTIME: u32 = 6;
pub const OTHER: u32 = 7;
pub const OK_FALSE: u32 = 8;

pub fn class<T>(r: &FrankaResult<T>) -> u32 {
    match r {
        Ok(_) => OK,
        Err(e) => eclass(e),
    }
}
pub fn bclass(r: &FrankaResult<bool>) -> u32 {
    match r {
        Ok(true) => OK,
        Ok(false) => OK_FALSE,
        Err(e) => eclass(e),
    }
}
pub fn eclass(e: &FrankaException) -> u32 {
    match e {
        FrankaException::CommandException { .. } => COMMAND,
        FrankaException::NetworkException { .. } => NETWORK,
        FrankaException::ControlException { .. } => CONTROL,
        FrankaException::IncompatibleLibraryVersionError { .. } => VERSION_MISMATCH,
        FrankaException::ModelException { .. } => MODEL,
        FrankaException::RealTimeException { .. } => REALTIME,
        _ => OTHER,
    }
}
/// byte equality without branching on the contents
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
pub struct Call {
    pub cmd: u32,
    pub body: Vec<u8>,
    pub run: Box<dyn FnOnce(&mut Robot) -> u32>,
}
pub const N_SETTERS: u32 = 8;
pub const N_CALLS: u32 = 11;

/// robot service call `k` with arbitrary arguments
#[allow(deprecated)]
pub fn robot_call(k: u32) -> Call {
    let mut b = Vec::new();
    match k {
        0 => {
            let lta: [f64; 7] = sym::fany_arr(1);
            let uta: [f64; 7] = sym::fany_arr(1);
            let ltn: [f64; 7] = sym::fany_arr(1);
            let utn: [f64; 7] = sym::fany_arr(1);
            let lfa: [f64; 6] = sym::fany_arr(1);
            let ufa: [f64; 6] = sym::fany_arr(1);
            let lfn: [f64; 6] = sym::fany_arr(1);
            let ufn: [f64; 6] = sym::fany_arr(1);
            for x in [lta, uta, ltn, utn].iter() {
                pfs(&mut b, x);
            }
            for x in [lfa, ufa, lfn, ufn].iter() {
                pfs(&mut b, x);
            }
            Call {
                cmd: SET_COLLISION,
                body: b,
                run: Box::new(move |r| class(&r.set_collision_behavior(lta, uta, ltn, utn, lfa, ufa, lfn, ufn))),
            }
        }
        1 => {
            let k: [f64; 7] = sym::fany_arr(1);
            pfs(&mut b, &k);
            Call { cmd: SET_JOINT_IMPEDANCE, body: b, run: Box::new(move |r| class(&r.set_joint_impedance(k))) }
        }
        2 => {
            let k: [f64; 6] = sym::fany_arr(1);
            pfs(&mut b, &k);
            Call { cmd: SET_CARTESIAN_IMPEDANCE, body: b, run: Box::new(move |r| class(&r.set_cartesian_impedance(k))) }
        }
        3 => {
            let mut g = [false; 6];
            for x in g.iter_mut() {
                *x = sym::bv(1, 1) == 1;
                p8(&mut b, *x as u8);
            }
            let e = sym::bv(1, 1) == 1;
            p8(&mut b, e as u8);
            Call { cmd: SET_GUIDING_MODE, body: b, run: Box::new(move |r| class(&r.set_guiding_mode(g, e))) }
        }
        4 => {
            let k: [f64; 16] = sym::fany_arr(1);
            pfs(&mut b, &k);
            Call { cmd: SET_EE_TO_K, body: b, run: Box::new(move |r| class(&r.set_K(k))) }
        }
        5 => {
            let k: [f64; 16] = sym::fany_arr(1);
            pfs(&mut b, &k);
            Call { cmd: SET_NE_TO_EE, body: b, run: Box::new(move |r| class(&r.set_EE(k))) }
        }
        6 => {
            let m = sym::fany(1);
            let x: [f64; 3] = sym::fany_arr(1);
            let i: [f64; 9] = sym::fany_arr(1);
            pf(&mut b, m);
            pfs(&mut b, &x);
            pfs(&mut b, &i);
            Call { cmd: SET_LOAD, body: b, run: Box::new(move |r| class(&r.set_load(m, x, i))) }
        }
        7 => {
            let f: [f64; 5] = sym::fany_arr(1);
            pfs(&mut b, &f);
            Call { cmd: SET_FILTERS, body: b, run: Box::new(move |r| class(&r.set_filters(f[0], f[1], f[2], f[3], f[4]))) }
        }
        8 => Call { cmd: RECOVERY, body: b, run: Box::new(|r| class(&r.automatic_error_recovery())) },
        9 => Call { cmd: STOP_MOVE, body: b, run: Box::new(|r| class(&r.stop())) },
        _ => {
            let id = sym::u32v(1);
            p32(&mut b, id);
            Call { cmd: GET_CARTESIAN_LIMIT, body: b, run: Box::new(move |r| class(&r.get_virtual_wall(id as i32))) }
        }
    }
}
/// reply to a service request (the wall request has a long reply)
pub fn reply(cmd: u32, id: u32, status: u8) -> Vec<u8> {
    if cmd == GET_CARTESIAN_LIMIT {
        let mut b = vec![status];
        pfs(&mut b, &[0.1, 0.2, 0.3]);
        pfs(&mut b, &IDENTITY);
        b.push(1);
        robot_msg(cmd, id, &b)
    } else {
        status_response(cmd, id, status)
    }
}
/// number of status values of a command and, per value, the expected outcome
pub fn n_status(cmd: u32) -> u32 {
    match cmd {
        MOVE => 10,
        STOP_MOVE => 5,
        RECOVERY => 6,
        _ => 3,
    }
}

// ---- gripper ---------------------------------------------------------------------------------
pub const G_CONNECT: u16 = 0;
pub const G_HOMING: u16 = 1;
pub const G_GRASP: u16 = 2;
pub const G_MOVE: u16 = 3;
pub const G_STOP: u16 = 4;
pub struct GCall {
    pub cmd: u16,
    pub body: Vec<u8>,
    pub run: Box<dyn FnOnce(&mut Gripper) -> u32>,
}
pub const N_GCALLS: u32 = 7;
pub fn gripper_call(k: u32) -> GCall {
    let mut b = Vec::new();
    match k {
        0 => GCall { cmd: G_HOMING, body: b, run: Box::new(|g| bclass(&g.homing())) },
        1 => GCall { cmd: G_STOP, body: b, run: Box::new(|g| bclass(&g.stop())) },
        2 => {
            let w = sym::fany(1);
            let s = sym::fany(1);
            pf(&mut b, w);
            pf(&mut b, s);
            GCall { cmd: G_MOVE, body: b, run: Box::new(move |g| bclass(&g.move_gripper(w, s))) }
        }
        _ => {
            // grasp, with every combination of given and defaulted tolerances
            let w = sym::fany(1);
            let s = sym::fany(1);
            let f = sym::fany(1);
            let i = sym::fany(1);
            let o = sym::fany(1);
            let ei = if k & 1 == 1 { Some(i) } else { None };
            let eo = if k >= 5 { Some(o) } else { None };
            pfs(&mut b, &[w, ei.unwrap_or(0.005), eo.unwrap_or(0.005), s, f]);
            GCall { cmd: G_GRASP, body: b, run: Box::new(move |g| bclass(&g.grasp(w, s, f, ei, eo))) }
        }
    }
}
