//! C11: no invalid command reaches the robot.
use crate::lim::*;
use crate::peer::cmd;
use crate::sym;
use crate::wire::*;

fn finite(x: f64) -> bool {
    x.to_bits() >> 52 & 0x7ff != 0x7ff
}
fn all_finite(b: &[u8]) -> bool {
    let mut ok = true;
    for i in 0..37 {
        ok &= finite(gf(b, 8 + 8 * i));
    }
    for i in 0..7 {
        ok &= finite(gf(b, cmd::TAU + 8 * i));
    }
    ok
}
fn unit(a: f64, b: f64, c: f64, tol: f64) -> bool {
    within(a * a + b * b + c * c, 1. - tol, 1. + tol)
}
/// what must hold for every command datagram
fn joint_command(b: &[u8]) {
    sym::assert(b.len() == cmd::SIZE, 3);
    sym::assert(all_finite(b), 4);
}
fn cartesian_command(b: &[u8]) {
    joint_command(b);
    let m = pose(b);
    sym::assert((m[3] == 0.) & (m[7] == 0.) & (m[11] == 0.) & (m[15] == 1.), 5);
    for i in 0..3 {
        sym::assert(unit(m[4 * i], m[4 * i + 1], m[4 * i + 2], 1e-4), 6);
        sym::assert(unit(m[i], m[4 + i], m[8 + i], 1e-4), 7);
    }
    elbow_command(b);
}
fn elbow_command(b: &[u8]) {
    let e = elbow(b);
    sym::assert((b[cmd::VALID_ELBOW] == 0) | (e[1] == 1.) | (e[1] == -1.), 8);
}
fn twist_command(b: &[u8]) {
    joint_command(b);
    elbow_command(b);
}
fn checker(kind: u32) -> fn(&[u8]) {
    match kind {
        2 | 6 => cartesian_command,
        3 | 7 => twist_command,
        _ => joint_command,
    }
}
fn config(tag: u32) -> (bool, f64) {
    match sym::choice(4, tag) {
        0 => (false, 1000.),
        1 => (true, 1000.),
        2 => (false, 100.),
        _ => (true, 100.),
    }
}
/// any number that is not finite
fn not_finite(tag: u32) -> f64 {
    f64::from_bits(sym::bv(1, tag) << 63 | 0x7ff << 52 | sym::bv(52, tag))
}
fn states(s: &mut Vec<u8>) {
    put_fs(s, st::ELBOW_C, &[0.5, 1.]);
    put_fs(s, st::Q_D, &[0.5; 7]);
}
/// one value is NaN or infinite: every interface and every place of the value
#[no_mangle]
pub extern "C" fn h11_not_finite() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(0);
    sym::on_hang(1);
    prepare();
    let kind = sym::choice(9, 1);
    let (limit, cutoff) = config(2);
    let mut v = if kind % 4 == 2 { STILL } else { ZERO };
    v.e = Some([0.5, 1.]);
    let bad = not_finite(3);
    let n = match kind {
        8 => 0,
        2 | 6 => 16,
        3 | 7 => 6,
        _ => 7,
    };
    let el = if kind % 4 >= 2 { 2 } else { 0 };
    let k = if kind == 8 {
        n + el + sym::choice(7, 4)
    } else if kind >= 4 {
        // together with torques: one value of the motion, two torques
        [0, n + el, n + el + 6][sym::choice(3, 4) as usize]
    } else {
        sym::choice(n + el, 4)
    } as usize;
    let (n, el) = (n as usize, el as usize);
    if k < n {
        v.m[k] = bad;
    } else if k < n + el {
        let mut e = [0.5, 1.];
        e[k - n] = bad;
        v.e = Some(e);
    } else {
        v.t[k - n - el] = bad;
    }
    let good = if kind % 4 == 2 { STILL } else { ZERO };
    // a good cycle first
    let _ = motion_checked(kind, Some(limit), Some(cutoff), &[good, v, v], |_, s| states(s), checker(kind));
    sym::done();
}
/// any element of a pose, finite
#[no_mangle]
pub extern "C" fn h11_pose() {
    sym::mode(sym::MODE_EXACT);
    sym::on_panic(0);
    sym::on_hang(1);
    prepare();
    let kind = if sym::choice(2, 1) == 0 { 2 } else { 6 };
    let mut v = STILL;
    v.m = crate::h10::ROT[sym::choice(3, 3) as usize];
    let base = v.m;
    let k = sym::choice(16, 4) as usize;
    // a changed rotation only without limiter, which is out of reach with one
    let limit = if k % 4 == 3 || k > 11 { sym::choice(2, 2) == 1 } else { false };
    v.m[k] = sym::range(-1000., 1000., 5);
    let vals = if kind == 2 { vec![v] } else { vec![v, v] };
    let _ = motion_checked(kind, Some(limit), Some(1000.), &vals, move |_, s| put_fs(s, st::O_T_EE_C, &base), cartesian_command);
    sym::reach(1);
    sym::done();
}
/// the elbow
#[no_mangle]
pub extern "C" fn h11_elbow() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(0);
    sym::on_hang(1);
    prepare();
    let kind = match sym::choice(4, 1) {
        0 => 2,
        1 => 3,
        2 => 6,
        _ => 7,
    };
    let (limit, cutoff) = config(2);
    let mut v = if kind % 4 == 2 { STILL } else { ZERO };
    v.e = Some([0.5, sym::fany(3)]);
    let vals = if kind < 4 { vec![v] } else { vec![v, v] };
    let _ = motion_checked(kind, Some(limit), Some(cutoff), &vals, |_, s| states(s), checker(kind));
    sym::reach(1);
    sym::done();
}
/// valid values are accepted
#[no_mangle]
pub extern "C" fn h11_valid() {
    sym::mode(sym::MODE_REAL);
    sym::on_panic(1);
    sym::on_hang(1);
    prepare();
    let kind = sym::choice(9, 1);
    let (limit, cutoff) = config(2);
    let mut v = STILL;
    if kind % 4 == 2 {
        v.m = crate::h10::ROT[if limit { 3 } else { sym::choice(5, 3) as usize }];
        // only the translation without limiter: see C09 for poses with limiter
        for i in 12..15 {
            v.m[i] = sym::range(-1e6, 1e6, 4);
        }
    } else {
        v.m = [0.; 16];
        for i in 0..7 {
            v.m[i] = sym::range(-1e6, 1e6, 4);
        }
    }
    // three independent directions at a time are out of reach of the Cartesian limiter's norms
    if kind % 4 >= 2 && limit {
        let keep = sym::choice(if kind % 4 == 2 { 3 } else { 6 }, 6) as usize;
        let o = if kind % 4 == 2 { 12 } else { 0 };
        for i in 0..if o == 12 { 3 } else { 6 } {
            if i != keep {
                v.m[o + i] = 0.;
            }
        }
    }
    if kind % 4 >= 2 && kind != 8 {
        let flip = if cutoff < 1000. { 1. } else { -1. };
        v.e = if limit { None } else { Some([sym::range(-1e6, 1e6, 4), flip]) };
    }
    v.t = sym::range_arr(-1e6, 1e6, 4);
    let base = if kind % 4 == 2 {
        let mut b = v.m;
        b[12] = 0.;
        b[13] = 0.;
        b[14] = 0.;
        b
    } else {
        IDENTITY
    };
    let vals = if kind < 4 || kind == 8 { vec![v] } else { vec![v, v] };
    let (res, out, _) = motion(kind, Some(limit), Some(cutoff), &vals, move |_, s| {
        states(s);
        put_fs(s, st::O_T_EE_C, &base);
    });
    sym::assert(res == 0, 2);
    sym::assert(!out.is_empty(), 10);
    sym::reach(kind + 1);
    sym::done();
}
