//! C16: the model facade.
use crate::env::{self, Ev, Idle};
use crate::svc::*;
use crate::sym;
use crate::wire::*;
use franka::{Frame, Model, RobotState};
use std::os::raw::c_void;

const PATH: &str = "/models/panda.so";
/// what the library was asked, and what it answers
struct Rec {
    calls: u32,
    which: u32,
    a: [[f64; 16]; 4],
    s: f64,
    out: [f64; 49],
    missing: u32,
}
static mut REC: Rec = Rec { calls: 0, which: u32::MAX, a: [[0.; 16]; 4], s: 0., out: [0.; 49], missing: u32::MAX };
fn rec() -> &'static mut Rec {
    unsafe { &mut *std::ptr::addr_of_mut!(REC) }
}
unsafe fn arg(k: usize, p: *const f64, n: usize) {
    for i in 0..n {
        rec().a[k][i] = *p.add(i);
    }
}
unsafe fn answer(which: u32, p: *mut f64, n: usize) {
    rec().calls += 1;
    rec().which = which;
    for i in 0..n {
        *p.add(i) = rec().out[i];
    }
}
macro_rules! f_out { ($n:ident, $w:expr, $k:expr) => { unsafe extern "C" fn $n(o: *mut f64) { answer($w, o, $k) } } }
macro_rules! f_q { ($n:ident, $w:expr, $k:expr) => { unsafe extern "C" fn $n(q: *const f64, o: *mut f64) { arg(0, q, 7); answer($w, o, $k) } } }
macro_rules! f_ee { ($n:ident, $w:expr, $k:expr) => { unsafe extern "C" fn $n(q: *const f64, t: *const f64, o: *mut f64) { arg(0, q, 7); arg(1, t, 16); answer($w, o, $k) } } }
f_q!(t1, 1, 16); f_q!(t2, 2, 16); f_q!(t3, 3, 16); f_q!(t4, 4, 16); f_q!(t5, 5, 16); f_q!(t6, 6, 16); f_q!(t7, 7, 16); f_q!(t8, 8, 16); f_ee!(t9, 9, 16);
f_out!(b1, 11, 42); f_q!(b2, 12, 42); f_q!(b3, 13, 42); f_q!(b4, 14, 42); f_q!(b5, 15, 42); f_q!(b6, 16, 42); f_q!(b7, 17, 42); f_q!(b8, 18, 42); f_ee!(b9, 19, 42);
f_out!(z1, 21, 42); f_q!(z2, 22, 42); f_q!(z3, 23, 42); f_q!(z4, 24, 42); f_q!(z5, 25, 42); f_q!(z6, 26, 42); f_q!(z7, 27, 42); f_q!(z8, 28, 42); f_ee!(z9, 29, 42);
const MASS: u32 = 31;
const CORIOLIS: u32 = 32;
const GRAVITY: u32 = 33;
unsafe extern "C" fn mass(q: *const f64, i: *const f64, m: f64, c: *const f64, o: *mut f64) {
    arg(0, q, 7);
    arg(1, i, 9);
    arg(2, c, 3);
    rec().s = m;
    answer(MASS, o, 49)
}
unsafe extern "C" fn coriolis(q: *const f64, dq: *const f64, i: *const f64, m: f64, c: *const f64, o: *mut f64) {
    arg(0, q, 7);
    arg(3, dq, 7);
    arg(1, i, 9);
    arg(2, c, 3);
    rec().s = m;
    answer(CORIOLIS, o, 7)
}
unsafe extern "C" fn gravity(q: *const f64, g: *const f64, m: f64, c: *const f64, o: *mut f64) {
    arg(0, q, 7);
    arg(3, g, 3);
    arg(2, c, 3);
    rec().s = m;
    answer(GRAVITY, o, 7)
}
pub const NAMES: u32 = 30;
const TABLE: [(&[u8], usize); 30] = [
    (b"O_T_J1", 0), (b"O_T_J2", 1), (b"O_T_J3", 2), (b"O_T_J4", 3), (b"O_T_J5", 4), (b"O_T_J6", 5), (b"O_T_J7", 6), (b"O_T_J8", 7), (b"O_T_J9", 8),
    (b"Ji_J_J1", 9), (b"Ji_J_J2", 10), (b"Ji_J_J3", 11), (b"Ji_J_J4", 12), (b"Ji_J_J5", 13), (b"Ji_J_J6", 14), (b"Ji_J_J7", 15), (b"Ji_J_J8", 16), (b"Ji_J_J9", 17),
    (b"O_J_J1", 18), (b"O_J_J2", 19), (b"O_J_J3", 20), (b"O_J_J4", 21), (b"O_J_J5", 22), (b"O_J_J6", 23), (b"O_J_J7", 24), (b"O_J_J8", 25), (b"O_J_J9", 26),
    (b"M_NE", 27), (b"c_NE", 28), (b"g_NE", 29),
];
fn entry(i: usize) -> *mut c_void {
    match i {
        0 => t1 as *mut c_void, 1 => t2 as *mut c_void, 2 => t3 as *mut c_void, 3 => t4 as *mut c_void, 4 => t5 as *mut c_void,
        5 => t6 as *mut c_void, 6 => t7 as *mut c_void, 7 => t8 as *mut c_void, 8 => t9 as *mut c_void,
        9 => b1 as *mut c_void, 10 => b2 as *mut c_void, 11 => b3 as *mut c_void, 12 => b4 as *mut c_void, 13 => b5 as *mut c_void,
        14 => b6 as *mut c_void, 15 => b7 as *mut c_void, 16 => b8 as *mut c_void, 17 => b9 as *mut c_void,
        18 => z1 as *mut c_void, 19 => z2 as *mut c_void, 20 => z3 as *mut c_void, 21 => z4 as *mut c_void, 22 => z5 as *mut c_void,
        23 => z6 as *mut c_void, 24 => z7 as *mut c_void, 25 => z8 as *mut c_void, 26 => z9 as *mut c_void,
        27 => mass as *mut c_void, 28 => coriolis as *mut c_void, _ => gravity as *mut c_void,
    }
}
pub fn lookup(name: &[u8]) -> *mut c_void {
    for (n, i) in TABLE.iter() {
        if *n == name {
            if rec().missing == *i as u32 {
                return std::ptr::null_mut();
            }
            return entry(*i);
        }
    }
    std::ptr::null_mut()
}
pub fn file(path: &str) {
    env::net().files.push(env::VFile { path: path.as_bytes().to_vec(), data: vec![1, 2, 3], exists: true, is_dir: false });
}
fn setup() -> (Model, RobotState) {
    let mut r = with_robot(1, |ev| {
        if let Ev::Idle(Idle::Udp) = ev {
            env::udp_deliver(base_state(2));
        }
    });
    let s = match r.read_once() {
        Ok(s) => s,
        Err(_) => sym::hang(),
    };
    std::mem::forget(r);
    file(PATH);
    env::set_dlsym(lookup);
    let m = match Model::new(PATH, None) {
        Ok(m) => m,
        Err(_) => {
            sym::assert(false, 2);
            sym::hang()
        }
    };
    (m, s)
}
fn frame(k: u32) -> Frame {
    match k {
        0 => Frame::Joint1,
        1 => Frame::Joint2,
        2 => Frame::Joint3,
        3 => Frame::Joint4,
        4 => Frame::Joint5,
        5 => Frame::Joint6,
        6 => Frame::Joint7,
        7 => Frame::Flange,
        8 => Frame::EndEffector,
        _ => Frame::Stiffness,
    }
}
fn outputs(n: usize) {
    for i in 0..n {
        rec().out[i] = sym::fany(9);
    }
}
/// every frame, each of pose and Jacobians, from values and from a state
#[no_mangle]
pub extern "C" fn h16_frames() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let what = sym::choice(3, 1);
    let fr = sym::choice(9, 2);
    let from_state = sym::choice(2, 3) == 1;
    let (m, mut s) = setup();
    let q: [f64; 7] = sym::fany_arr(4);
    let t: [f64; 16] = sym::fany_arr(5);
    let k: [f64; 16] = sym::fany_arr(6);
    // everything else in the state is different
    s.q = q;
    s.F_T_EE = t;
    s.EE_T_K = k;
    s.q_d = sym::fany_arr(7);
    s.theta = sym::fany_arr(7);
    s.F_T_NE = sym::fany_arr(7);
    s.NE_T_EE = sym::fany_arr(7);
    s.O_T_EE = sym::fany_arr(7);
    let n = if what == 0 { 16 } else { 42 };
    outputs(n);
    let f = frame(fr);
    let res: Vec<f64> = match (what, from_state) {
        (0, false) => m.pose(&f, &q, &t, &k).to_vec(),
        (0, true) => m.pose_from_state(&f, &s).to_vec(),
        (1, false) => m.body_jacobian(&f, &q, &t, &k).to_vec(),
        (1, true) => m.body_jacobian_from_state(&f, &s).to_vec(),
        (_, false) => m.zero_jacobian(&f, &q, &t, &k).to_vec(),
        (_, true) => m.zero_jacobian_from_state(&f, &s).to_vec(),
    };
    let r = rec();
    sym::assert(r.calls == 1 && r.which == what * 10 + fr + 1, 3);
    if !(what > 0 && fr == 0) {
        sym::assert(sym::same(&r.a[0][0..7], &q), 4);
    }
    if fr == 8 {
        sym::assert(sym::same(&r.a[1], &t), 5);
    }
    sym::assert(sym::same(&res, &r.out[0..n]), 6);
    sym::reach(what + 1);
}
/// the stiffness frame composes flange->EE and EE->K
#[no_mangle]
pub extern "C" fn h16_stiffness() {
    sym::mode(sym::MODE_REAL);
    sym::on_panic(1);
    sym::on_hang(1);
    let what = sym::choice(3, 1);
    let from_state = sym::choice(2, 3) == 1;
    let (m, mut s) = setup();
    let q: [f64; 7] = sym::range_arr(-4., 4., 4);
    let mut t = IDENTITY;
    let mut k = IDENTITY;
    for c in 0..4 {
        for r in 0..3 {
            t[4 * c + r] = sym::range(-2., 2., 5);
            k[4 * c + r] = sym::range(-2., 2., 6);
        }
    }
    s.q = q;
    s.F_T_EE = t;
    s.EE_T_K = k;
    let n = if what == 0 { 16 } else { 42 };
    for i in 0..n {
        rec().out[i] = i as f64 + 0.5;
    }
    let f = Frame::Stiffness;
    let res: Vec<f64> = match (what, from_state) {
        (0, false) => m.pose(&f, &q, &t, &k).to_vec(),
        (0, true) => m.pose_from_state(&f, &s).to_vec(),
        (1, false) => m.body_jacobian(&f, &q, &t, &k).to_vec(),
        (1, true) => m.body_jacobian_from_state(&f, &s).to_vec(),
        (_, false) => m.zero_jacobian(&f, &q, &t, &k).to_vec(),
        (_, true) => m.zero_jacobian_from_state(&f, &s).to_vec(),
    };
    let r = rec();
    sym::assert(r.calls == 1 && r.which == what * 10 + 9, 3);
    let mut ok = true;
    for i in 0..7 {
        ok &= r.a[0][i] == q[i];
    }
    sym::assert(ok, 4);
    for c in 0..4 {
        let mut ok = true;
        for i in 0..4 {
            let mut e = 0.;
            for j in 0..4 {
                e += t[4 * j + i] * k[4 * c + j];
            }
            let d = r.a[1][4 * c + i] - e;
            ok &= d <= 1e-9 && d >= -1e-9;
        }
        sym::assert(ok, 5);
    }
    let mut ok = true;
    for i in 0..n {
        ok &= res[i] == i as f64 + 0.5;
    }
    sym::assert(ok, 6);
    sym::reach(what + 1);
}
/// mass matrix, Coriolis, gravity
#[no_mangle]
pub extern "C" fn h16_dynamics() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let what = sym::choice(4, 1);
    let from_state = sym::choice(2, 2) == 1;
    let (m, mut s) = setup();
    let q: [f64; 7] = sym::fany_arr(4);
    let dq: [f64; 7] = sym::fany_arr(5);
    let i9: [f64; 9] = sym::fany_arr(6);
    let c3: [f64; 3] = sym::fany_arr(6);
    let mt = sym::fany(6);
    let g: [f64; 3] = sym::fany_arr(7);
    let g0: [f64; 3] = sym::fany_arr(7);
    s.q = q;
    s.dq = dq;
    s.I_total = i9;
    s.F_x_Ctotal = c3;
    s.m_total = mt;
    s.O_ddP_O = g0;
    s.I_load = sym::fany_arr(8);
    s.I_ee = sym::fany_arr(8);
    s.F_x_Cload = sym::fany_arr(8);
    s.F_x_Cee = sym::fany_arr(8);
    s.m_load = sym::fany(8);
    s.m_ee = sym::fany(8);
    s.q_d = sym::fany_arr(8);
    s.dq_d = sym::fany_arr(8);
    s.dtheta = sym::fany_arr(8);
    let n = if what == 0 { 49 } else { 7 };
    outputs(n);
    let res: Vec<f64> = match (what, from_state) {
        (0, false) => m.mass(&q, &i9, mt, &c3).to_vec(),
        (0, true) => m.mass_from_state(&s).to_vec(),
        (1, false) => m.coriolis(&q, &dq, &i9, mt, &c3).to_vec(),
        (1, true) => m.coriolis_from_state(&s).to_vec(),
        (2, false) => m.gravity(&q, mt, &c3, &g).to_vec(),
        (2, true) => m.gravity_from_state(&s, &g).to_vec(),
        (_, false) => m.gravity(&q, mt, &c3, None).to_vec(),
        (_, true) => m.gravity_from_state(&s, None).to_vec(),
    };
    let r = rec();
    let w = [MASS, CORIOLIS, GRAVITY, GRAVITY][what as usize];
    sym::assert(r.calls == 1 && r.which == w, 3);
    sym::assert(sym::same(&r.a[0][0..7], &q), 4);
    sym::assert(r.s.to_bits() == mt.to_bits(), 7);
    sym::assert(sym::same(&r.a[2][0..3], &c3), 8);
    if what < 2 {
        sym::assert(sym::same(&r.a[1][0..9], &i9), 9);
    }
    if what == 1 {
        sym::assert(sym::same(&r.a[3][0..7], &dq), 10);
    }
    if what == 2 {
        sym::assert(sym::same(&r.a[3][0..3], &g), 11);
    }
    if what == 3 {
        let e = if from_state { g0 } else { [0., 0., -9.81] };
        sym::assert(sym::same(&r.a[3][0..3], &e), 11);
    }
    sym::assert(sym::same(&res, &r.out[0..n]), 6);
    sym::reach(what + 1);
}
/// a library without one of the functions, or no library
#[no_mangle]
pub extern "C" fn h16_missing() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    env::init(12, Box::new(|_| ()));
    env::set_dlsym(lookup);
    let k = sym::choice(NAMES + 3, 1);
    rec().missing = k;
    if k != NAMES {
        file(PATH);
    }
    if k == NAMES + 1 {
        env::net().dl_ok = false;
    }
    let res = Model::new(PATH, None);
    if k < NAMES + 2 {
        sym::assert(class(&res) == MODEL, 12);
        sym::reach(1);
    } else {
        sym::assert(class(&res) == OK, 2);
        sym::reach(2);
    }
    std::mem::forget(res);
}
