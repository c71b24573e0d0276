//! C15: total mass, center of mass and inertia.
use crate::env::{self, Ev, Idle};
use crate::sym;
use crate::wire::*;
use franka::RobotState;

struct Part {
    m: f64,
    c: [f64; 3],
    i: [f64; 9],
}
fn part(massless: bool, tag: u32) -> Part {
    Part {
        m: if massless { 0. } else { sym::range(1e-3, 20., tag) },
        c: sym::range_arr(-2., 2., tag),
        i: sym::range_arr(-5., 5., tag),
    }
}
fn state(e: &Part, l: &Part, on_read: bool) -> Option<RobotState> {
    let mut s = base_state(5);
    put_f(&mut s, st::M_EE, e.m);
    put_fs(&mut s, st::F_X_CEE, &e.c);
    put_fs(&mut s, st::I_EE, &e.i);
    put_f(&mut s, st::M_LOAD, l.m);
    put_fs(&mut s, st::F_X_CLOAD, &l.c);
    put_fs(&mut s, st::I_LOAD, &l.i);
    let mut r = with_robot(1, move |ev| {
        if let Ev::Idle(Idle::Udp) = ev {
            env::udp_deliver(s.clone());
        }
    });
    let mut got = None;
    if on_read {
        let _ = r.read(|x: &RobotState| {
            got = Some(x.clone());
            false
        });
    } else if let Ok(x) = r.read_once() {
        got = Some(x);
    }
    std::mem::forget(r);
    got
}
fn near(a: f64, b: f64, tol: f64) -> bool {
    let d = a - b;
    (d <= tol) & (d >= -tol)
}
/// entry (r, k) of |c|^2 E - c c^T: inertia of a unit point mass at c about the origin
fn steiner(c: &[f64; 3], r: usize, k: usize) -> f64 {
    let cross = c[r] * c[k];
    if r == k {
        let n = c[0] * c[0] + c[1] * c[1] + c[2] * c[2];
        n - cross
    } else {
        -cross
    }
}
fn entry(e: &Part, l: &Part, c: &[f64; 3], m: f64, r: usize, k: usize) -> f64 {
    let own = |p: &Part| if p.m == 0. { 0. } else { p.i[3 * k + r] };
    own(e) + e.m * steiner(&e.c, r, k) + own(l) + l.m * steiner(&l.c, r, k) - m * steiner(c, r, k)
}
fn check(e: &Part, l: &Part, s: &RobotState) {
    let m = s.m_total;
    sym::assert(near(m, e.m + l.m, 1e-9), 2);
    for i in 0..3 {
        // also when both parts are massless: the center of mass is zero then
        sym::assert(near(s.F_x_Ctotal[i] * (e.m + l.m), e.m * e.c[i] + l.m * l.c[i], 1e-9), 3);
    }
    for k in 0..3 {
        for r in 0..3 {
            sym::assert(near(s.I_total[3 * k + r], entry(e, l, &s.F_x_Ctotal, m, r, k), 1e-9), 4);
        }
    }
}
/// both parts, each possibly massless
#[no_mangle]
pub extern "C" fn h15_combine() {
    sym::mode(sym::MODE_EXACT);
    sym::on_panic(1);
    sym::on_hang(1);
    let case = sym::choice(4, 1);
    let e = part(case & 1 != 0, 2);
    let l = part(case & 2 != 0, 3);
    match state(&e, &l, false) {
        Some(s) => {
            check(&e, &l, &s);
            if case == 3 {
                for i in 0..3 {
                    sym::assert(near(s.F_x_Ctotal[i], 0., 0.), 5);
                }
                for i in 0..9 {
                    sym::assert(near(s.I_total[i], 0., 0.), 5);
                }
            }
            if case == 1 || case == 2 {
                let p = if case == 1 { &l } else { &e };
                for i in 0..3 {
                    sym::assert(near(s.F_x_Ctotal[i], p.c[i], 1e-9), 6);
                }
                for i in 0..9 {
                    sym::assert(near(s.I_total[i], p.i[i], 1e-9), 6);
                }
            }
            sym::reach(case + 1);
        }
        None => sym::assert(false, 1),
    }
    sym::done();
}
/// states of the continuous reading and of a motion combine as well
#[no_mangle]
pub extern "C" fn h15_everywhere() {
    sym::mode(sym::MODE_EXACT);
    sym::on_panic(1);
    sym::on_hang(1);
    let e = part(false, 2);
    let l = part(false, 3);
    match state(&e, &l, true) {
        Some(s) => check(&e, &l, &s),
        None => sym::assert(false, 1),
    }
    sym::reach(1);
    sym::done();
}
/// tiny and huge masses: nothing that counts is lost by rounding
#[no_mangle]
pub extern "C" fn h15_mass() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let zero = sym::choice(2, 1) == 0;
    let m = sym::fany(2);
    sym::assume(m >= 0. && m < 1e6);
    let e = Part { m: if zero { 0. } else { 0.5 }, c: [0.; 3], i: [1., 0., 0., 0., 2., 0., 0., 0., 3.] };
    let l = Part { m, c: [0.; 3], i: [0.5, 0., 0., 0., 0.25, 0., 0., 0., 0.125] };
    match state(&e, &l, false) {
        Some(s) => {
            sym::assert(s.m_total == e.m + l.m, 2);
            for i in 0..9 {
                let own = |p: &Part| if p.m == 0. { 0. } else { p.i[i] };
                sym::assert(near(s.I_total[i], own(&e) + own(&l), 1e-9), 4);
            }
        }
        None => sym::assert(false, 1),
    }
    sym::reach(if zero { 1 } else { 2 });
    sym::done();
}
