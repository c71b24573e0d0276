//! C05: the stream of states seen by the caller.
use crate::env::{self, Ev, Idle};
use crate::svc::*;
use crate::sym;
use crate::wire::*;
use franka::RobotState;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::Duration;

/// everything sent so far: ids; datagram number k carries the tag k in its first and last fields
type Sent = Rc<RefCell<Vec<u64>>>;

fn send(sent: &Sent, id: u64) {
    let k = sent.borrow().len();
    sent.borrow_mut().push(id);
    let mut s = base_state(id);
    put_f(&mut s, st::O_T_EE, k as f64);
    put_f(&mut s, st::Q, k as f64);
    put_f(&mut s, st::SUCCESS_RATE, k as f64);
    env::udp_deliver(s);
}
/// number of the datagram a state was decoded from; all parts must come from the same one
fn number(s: &RobotState) -> usize {
    let k = s.q[0];
    sym::assert(s.O_T_EE[0] == k && s.control_command_success_rate == k, 2);
    k as usize
}
fn max(v: &[u64]) -> u64 {
    let mut m = v[0];
    for x in v {
        if *x > m {
            m = *x;
        }
    }
    m
}

/// robot state on request: arbitrary datagrams waiting in arbitrary order
#[no_mangle]
pub extern "C" fn h05_read_once() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let first = sym::bv(64, 1);
    sym::assume(first < 1 << 60);
    let sent: Sent = Rc::new(RefCell::new(vec![first]));
    let s2 = sent.clone();
    let mut late = sym::choice(3, 5);
    let mut r = with_robot(first, move |ev| {
        if let Ev::Idle(Idle::Udp) = ev {
            // whatever arrives while the caller waits
            if late > 0 {
                late -= 1;
                let id = sym::bv(64, 4);
                sym::assume(id < 1 << 60);
                send(&s2, id);
                return;
            }
            let m = max(&s2.borrow());
            send(&s2, m + 1);
        }
    });
    let waiting = sym::choice(4, 2);
    for _ in 0..waiting {
        let id = sym::bv(64, 3);
        sym::assume(id < 1 << 60);
        send(&sent, id);
    }
    let before = sent.borrow().clone();
    let mut last = first;
    for round in 0..2 {
        let asked = sent.borrow().len();
        match r.read_once() {
            Ok(s) => {
                let k = number(&s);
                let sent = sent.borrow();
                sym::assert(k >= asked, 9);
                sym::assert(k > 0 && k < sent.len(), 3);
                sym::assert(sent[k] > last, 4);
                for x in before.iter() {
                    sym::assert(sent[k] >= *x, 5);
                }
                sym::assert(s.time == Duration::from_millis(sent[k]), 6);
                last = sent[k];
            }
            Err(_) => sym::assert(false, 7),
        }
        sym::reach(round + 1);
    }
}

/// continuous reading: between two callbacks arbitrary datagrams arrive
#[no_mangle]
pub extern "C" fn h05_read() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let first = 1000;
    let sent: Sent = Rc::new(RefCell::new(vec![first]));
    let s2 = sent.clone();
    let late = Rc::new(Cell::new(0));
    let l2 = late.clone();
    let mut r = with_robot(first, move |ev| {
        if let Ev::Idle(Idle::Udp) = ev {
            if l2.get() > 0 {
                l2.set(l2.get() - 1);
                send(&s2, sym::bv(12, 4));
                return;
            }
            let m = max(&s2.borrow());
            send(&s2, m + 1);
        }
    });
    let mut last = first;
    let mut calls = 0;
    let s3 = sent.clone();
    let mut seen = 1;
    let res = r.read(|s: &RobotState| {
        calls += 1;
        let k = number(s);
        let sent = s3.borrow().clone();
        sym::assert(k > 0 && k < sent.len(), 3);
        sym::assert(sent[k] > last, 4);
        // nothing that was waiting when the update began is newer
        for x in sent[..seen].iter() {
            sym::assert(sent[k] >= *x, 5);
        }
        last = sent[k];
        if calls == 3 {
            sym::reach(1);
            return false;
        }
        let n = sym::choice(if calls == 1 { 4 } else { 3 }, 2);
        for _ in 0..n {
            send(&s3, sym::bv(12, 3));
        }
        late.set(if n <= 1 { sym::choice(3 - n, 5) } else { 0 });
        seen = s3.borrow().len();
        true
    });
    sym::assert(class(&res) == OK, 7);
    sym::assert(calls == 3, 8);
}

/// states handed to a motion callback
#[no_mangle]
pub extern "C" fn h05_control() {
    use crate::peer;
    use franka::robot::control_types::*;
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let torque = sym::choice(2, 1) == 1;
    let mut p = peer::peer();
    let sent: Sent = Rc::new(RefCell::new(vec![1]));
    let running: Rc<RefCell<(u8, u8)>> = Rc::new(RefCell::new((1, 0)));
    if torque {
        *running.borrow_mut() = (2, 2);
    }
    let s2 = sent.clone();
    let late = Rc::new(Cell::new(0));
    let l2 = late.clone();
    p.next_id = Box::new(move |_| {
        if l2.get() > 0 {
            l2.set(l2.get() - 1);
            let id = sym::bv(9, 4);
            s2.borrow_mut().push(id);
            return id;
        }
        let m = max(&s2.borrow());
        s2.borrow_mut().push(m + 1);
        m + 1
    });
    let s3 = sent.clone();
    p.fill = Box::new(move |_, b| {
        let k = s3.borrow().len() - 1;
        put_f(b, st::O_T_EE, k as f64);
        put_f(b, st::Q, k as f64);
        put_f(b, st::SUCCESS_RATE, k as f64);
    });
    let (mut r, p) = peer::robot(p);
    let s4 = sent.clone();
    let mut last = 1;
    let mut calls = 0;
    let mut seen = 0;
    let mut step = |s: &RobotState| {
        calls += 1;
        let k = number(s);
        let sent = s4.borrow().clone();
        sym::assert(k > 0 && k < sent.len(), 3);
        sym::assert(sent[k] > last, 4);
        for x in sent[..seen].iter() {
            sym::assert(sent[k] >= *x, 5);
        }
        last = sent[k];
        let n = if calls < 3 { sym::choice(3, 2) } else { 0 };
        if n == 0 && calls < 3 {
            late.set(sym::choice(2, 5));
        }
        for _ in 0..n {
            let id = sym::bv(9, 3);
            let k = s4.borrow().len();
            s4.borrow_mut().push(id);
            let mut b = base_state(id);
            put_f(&mut b, st::O_T_EE, k as f64);
            put_f(&mut b, st::Q, k as f64);
            put_f(&mut b, st::SUCCESS_RATE, k as f64);
            b[st::MG_MODE] = running.borrow().0;
            b[st::CTRL_MODE] = running.borrow().1;
            b[st::ROBOT_MODE] = 2;
            env::udp_deliver(b);
        }
        seen = s4.borrow().len();
        calls == 3
    };
    let res = if torque {
        r.control_torques(
            |s: &RobotState, _: &Duration| {
                let t = Torques::new([0.; 7]);
                if step(s) { t.motion_finished() } else { t }
            },
            false,
            1000.,
        )
    } else {
        r.control_joint_positions(
            |s: &RobotState, _: &Duration| {
                let t = JointPositions::new([0.; 7]);
                if step(s) { t.motion_finished() } else { t }
            },
            None,
            false,
            1000.,
        )
    };
    sym::assert(class(&res) == OK, 7);
    let _ = p;
    sym::reach(1);
}

/// gripper state on request
#[no_mangle]
pub extern "C" fn h05_gripper() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let n = Rc::new(RefCell::new(0u32));
    let n2 = n.clone();
    let put = move |n: &Rc<RefCell<u32>>| {
        *n.borrow_mut() += 1;
        let k = *n.borrow();
        let mut b = Vec::new();
        p32(&mut b, 10 + k);
        pf(&mut b, k as f64);
        pf(&mut b, k as f64);
        p8(&mut b, (k & 1) as u8);
        p16(&mut b, k as u16);
        env::udp_deliver(b);
    };
    let mut g = with_gripper(move |ev| {
        if let Ev::Idle(Idle::Udp) = ev {
            put(&n2);
        }
    });
    for _ in 0..2 {
        let waiting = sym::choice(4, 2);
        for _ in 0..waiting {
            put(&n);
        }
        let before = *n.borrow();
        match g.read_once() {
            Ok(s) => {
                let k = s.width;
                sym::assert(s.max_width == k, 2);
                sym::assert(s.is_grasped == (k as u32 & 1 == 1), 2);
                sym::assert(s.temperature == k as u16, 2);
                sym::assert(s.time == Duration::from_millis(10 + k as u64), 6);
                // nothing that was waiting is newer
                sym::assert(k as u32 >= before && k as u32 <= *n.borrow() && k > 0., 5);
            }
            Err(_) => sym::assert(false, 7),
        }
    }
    sym::reach(1);
}
