//! C14: the point-to-point generator.
use crate::sym;
use franka::{Finishable, MotionGenerator, RobotState};
use std::time::Duration;

const DQ: [f64; 7] = [2., 2., 2., 2., 2.5, 2.5, 2.5];
const DDQ: f64 = 5.;

/// time the slowest joint needs at the limits of the speed factor
fn duration(speed: f64, d: &[f64; 7]) -> f64 {
    let mut m: f64 = 0.;
    for i in 0..7 {
        let a = d[i].abs();
        if a <= 1e-6 {
            continue;
        }
        let acc = DDQ * speed;
        let mut v = DQ[i] * speed;
        let full = 1.5 * v * v / acc;
        if a < full {
            v = (a * acc / 1.5).sqrt();
        }
        let t = 1.5 * v / acc + a / v;
        if t > m {
            m = t;
        }
    }
    m
}
fn near(a: f64, b: f64, tol: f64) -> bool {
    let d = a - b;
    (d <= tol) & (d >= -tol)
}
/// x is between 0 and d, both included
fn between(x: f64, d: f64, tol: f64) -> bool {
    if d >= 0. {
        (x >= -tol) & (x <= d + tol)
    } else {
        (x <= tol) & (x >= d - tol)
    }
}
const CASES: [(f64, [f64; 7]); 10] = [
    (1., [1., 0., 0., 0., 0., 0., 0.]),
    (0.5, [0., -2., 0., 0., 0., 0., 0.]),
    (1., [0., 0., 0.5, 0., 0., 0., 0.]),
    (0.25, [0., 0., 0., -0.125, 0., 0., 0.]),
    (1., [0., 0., 0., 0., 0., 0., 2.]),
    (0.5, [1., -0.5, 0.25, 0., -1.5, 0.125, 2.]),
    (1., [0.75, 0.75, 0.75, -0.75, 0.75, -0.75, 0.75]),
    (0.125, [0., 0.001, 0., 0., 0., 1e-5, 0.]),
    (0.75, [1e-3, 0., 0., 2.5, 0., 0., 5e-7]),
    (1., [0., 0., 0., 0., 1.25, -1e-2, 0.]),
];
struct Run {
    g: MotionGenerator,
    start: [f64; 7],
    d: [f64; 7],
    s: RobotState,
}
impl Run {
    fn new(speed: f64, d: &[f64; 7]) -> Run {
        let mut start = [0.; 7];
        let mut goal = [0.; 7];
        for i in 0..7 {
            start[i] = sym::range(-3., 3., 2);
            goal[i] = start[i] + d[i];
        }
        let mut s = RobotState::default();
        s.q_d = start;
        s.q = [100.; 7];
        Run { g: MotionGenerator::new(speed, &goal), start, d: *d, s }
    }
    /// distances from the start, and whether it is finished
    fn step(&mut self, t: Duration) -> ([f64; 7], bool) {
        let p = self.g.generate_motion(&self.s, &t);
        // where the robot is later on does not matter
        self.s.q_d = [50.; 7];
        let mut x = [0.; 7];
        for i in 0..7 {
            x[i] = p.q[i] - self.start[i];
        }
        (x, p.is_finished())
    }
}
fn arrived(d: &[f64; 7], x: &[f64; 7], tol: f64) -> bool {
    let mut all = true;
    for i in 0..7 {
        all &= near(d[i], x[i], tol);
    }
    all
}
/// every time: start, end, position between start and goal, speed
#[no_mangle]
pub extern "C" fn h14_time() {
    sym::mode(sym::MODE_EXACT);
    sym::on_panic(1);
    let (speed, d) = CASES[sym::choice(10, 1) as usize];
    let mut run = Run::new(speed, &d);
    let (x0, f0) = run.step(Duration::from_millis(0));
    sym::assert(arrived(&[0.; 7], &x0, 1e-9), 2);
    sym::assert(!f0, 3);
    let end = duration(speed, &d);
    let base = sym::choice(6, 3);
    // time before the last two steps
    let (mut t, mut last, mut fin) = (0f64, x0, f0);
    // a control loop hands out a time step of zero only once
    let first = if base == 0 { Duration::new(0, 1) } else { Duration::from_millis(500 * base as u64) };
    let r = run.step(first);
    last = r.0;
    fin = r.1;
    t += first.as_secs_f64();
    sym::assert(fin == (t >= end), 4);
    let n = sym::bv(29, 4) as u32;
    let dt = n as f64 / 1e9;
    for k in 0..2 {
        let (x, f) = if k == 0 { run.step(Duration::new(0, n)) } else { run.step(Duration::from_millis(1)) };
        let dt = if k == 0 { dt } else { 1e-3 };
        t += dt;
        for i in 0..7 {
            sym::assert(between(x[i], d[i], 1e-6), 5);
            // speed
            sym::assert(between(x[i] - last[i], d[i].signum() * (DQ[i] * speed * dt), 1e-6), 6);
        }
        // finished when and only when the time is over, and not before the goal is reached
        sym::assert(!f | (t > end - 1e-6), 4);
        sym::assert(f | (t < end + 1e-6), 7);
        sym::assert(!f | arrived(&d, &x, 1e-6), 8);
        sym::assert(!fin | f, 9);
        sym::reach(if f { 2 } else { 1 });
        last = x;
        fin = f;
    }
    sym::done();
}
/// every distance (one joint moves, given by its top speed or the time at full speed), every start
fn goal(long: bool) {
    sym::mode(sym::MODE_EXACT);
    sym::on_panic(1);
    let j = [0, 4, 5, 6][sym::choice(4, 1) as usize];
    let speed = [1., 0.5, 0.25][sym::choice(3, 5) as usize];
    let (top, acc) = (DQ[j] * speed, DDQ * speed);
    let (dist, end) = if long {
        let u = sym::range(1e-2, 3., 3);
        (top * (1.5 * top / acc + u), 3. * top / acc + u)
    } else {
        let v = sym::range(0.02, 0.99, 3) * top;
        (v * v * 1.5 / acc, 3. * v / acc)
    };
    let neg = sym::choice(2, 4) == 1;
    let mut d = [0.; 7];
    d[j] = if neg { -dist } else { dist };
    let mut run = Run::new(speed, &d);
    let (x0, f0) = run.step(Duration::from_millis(0));
    sym::assert(arrived(&[0.; 7], &x0, 1e-9), 2);
    sym::assert(!f0, 3);
    let mut last = 0.;
    let mut t = 0.;
    let times = [[1u32, 99, 600, 400], [250, 250, 250, 250], [33, 500, 1000, 1000], [10, 1, 1900, 1]][sym::choice(4, 6) as usize];
    for ms in times.iter() {
        let (step, dt) = (Duration::from_millis(*ms as u64), 1e-3 * *ms as f64);
        let (x, f) = run.step(step);
        t += dt;
        let y = if neg { -x[j] } else { x[j] };
        sym::assert((y >= -1e-6) & (y <= dist + 1e-6), 5);
        sym::assert((y - last <= top * dt + 1e-6) & (y - last >= -1e-6), 6);
        sym::assert(!f | (t > end - 1e-6), 4);
        sym::assert(f | (t < end + 1e-6), 7);
        sym::assert(!f | near(y, dist, 1e-6), 8);
        last = y;
        sym::reach(if f { 2 } else { 1 });
    }
    sym::done();
}
#[no_mangle]
pub extern "C" fn h14_long() {
    goal(true)
}
#[no_mangle]
pub extern "C" fn h14_short() {
    goal(false)
}
/// goals that need no motion
#[no_mangle]
pub extern "C" fn h14_near() {
    sym::mode(sym::MODE_EXACT);
    sym::on_panic(1);
    let mut d = [0.; 7];
    if sym::choice(2, 1) == 0 {
        d[sym::choice(7, 2) as usize] = sym::range(-9e-7, 9e-7, 3);
    }
    let mut run = Run::new(0.5, &d);
    let (x, f) = run.step(Duration::from_millis(0));
    sym::assert(f, 10);
    sym::assert(arrived(&d, &x, 1e-6), 8);
    let (x, f) = run.step(Duration::from_millis(1));
    sym::assert(f, 10);
    sym::assert(arrived(&d, &x, 1e-6), 8);
    sym::reach(1);
    sym::done();
}
static mut SENT: Vec<[f64; 7]> = Vec::new();
fn sent() -> &'static mut Vec<[f64; 7]> {
    unsafe { &mut *std::ptr::addr_of_mut!(SENT) }
}
fn record(b: &[u8]) {
    sent().push(crate::lim::q(b));
}
/// the motion as the robot sees it: an ideal robot follows each command
#[no_mangle]
pub extern "C" fn h14_robot() {
    use crate::peer;
    use crate::svc::class;
    use crate::wire::*;
    sym::mode(sym::MODE_EXACT);
    sym::on_panic(1);
    sym::on_hang(1);
    let (speed, d) = match sym::choice(4, 1) {
        0 => (1., [0.; 7]),
        1 => (1., [0., 0., 2e-4, 0., 0., 0., 0.]),
        2 => (0.5, [0., 1e-4, 0., 0., 0., -1.5e-4, 0.]),
        _ => (1., [-5e-5, 0., 0., 0., 1e-4, 0., 4e-4]),
    };
    let mut start = [0.; 7];
    let mut goal = [0.; 7];
    for i in 0..7 {
        start[i] = sym::range(-2., 2., 2);
        goal[i] = start[i] + d[i];
    }
    let mut p = peer::peer();
    p.check = record;
    p.fill = Box::new(move |_, s| {
        let n = sent().len();
        let at = |k: usize| if k > n { start } else { sent()[n - k] };
        let h = 1e-3;
        let (mut q0, mut v, mut a) = (start, [0.; 7], [0.; 7]);
        if n > 0 {
            let (q1, q2) = (at(2), at(3));
            q0 = at(1);
            for i in 0..7 {
                v[i] = (q0[i] - q1[i]) / h;
                a[i] = (q0[i] - q1[i] - q1[i] + q2[i]) / h / h;
            }
        }
        put_fs(s, st::Q_D, &q0);
        put_fs(s, st::DQ_D, &v);
        put_fs(s, st::DDQ_D, &a);
    });
    let (mut r, p) = peer::robot(p);
    let res = r.joint_motion(speed, &goal);
    sym::assert(class(&res) == 0, 11);
    std::mem::forget(res);
    let p = p.borrow();
    sym::assert(p.moves == 1 && p.ctrl_after_move == 0 && p.mg_after_move == 1, 12);
    let c = sent();
    sym::assert(!c.is_empty(), 13);
    let mut last = [0.; 7];
    for k in 0..c.len() {
        for i in 0..7 {
            let x = c[k][i] - start[i];
            sym::assert(between(x, d[i], 1e-6), 5);
            sym::assert(between(x - last[i], d[i].signum() * (DQ[i] * speed * 1e-3), 1e-6), 6);
            last[i] = x;
        }
    }
    sym::assert(arrived(&d, &last, 1e-6), 8);
    sym::assert((c.len() as f64 - 2.) * 1e-3 <= duration(speed, &d) && (c.len() as f64 + 1.) * 1e-3 >= duration(speed, &d), 7);
    sym::reach(1);
    std::mem::forget(r);
    sym::done();
}
