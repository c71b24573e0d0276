//! C17: downloading and loading the model.
use crate::env::{self, Ev, Idle};
use crate::svc::*;
use crate::sym;
use crate::wire::*;

const PATH: &str = "/tmp/model.so";
const LOAD: u32 = 13;
struct Srv {
    status: u8,
    lib: Vec<u8>,
    cut: usize,
    close: bool,
    rest: Vec<u8>,
    request_ok: bool,
    requests: u32,
    gap: u32,
}
impl Srv {
    fn on(&mut self, ev: Ev) {
        match ev {
            Ev::Request(b) => {
                self.requests += 1;
                if robot_cmd(b) != LOAD {
                    env::tcp_deliver(&reply(robot_cmd(b), robot_id(b), 0));
                    return;
                }
                self.request_ok = b.len() == 14 && g32(b, 8) == 14 && b[12] == 0 && b[13] == 0;
                let mut body = vec![self.status];
                if self.status == 0 {
                    body.extend_from_slice(&self.lib);
                }
                let m = robot_msg(LOAD, robot_id(b), &body);
                let cut = usize::min(self.cut, m.len());
                self.rest = m[cut..].to_vec();
                if cut > 0 {
                    env::tcp_deliver(&m[..cut]);
                }
                if self.close {
                    env::tcp_close();
                }
            }
            Ev::Idle(Idle::Tcp) => {
                if self.gap > 0 {
                    self.gap -= 1;
                } else if !self.rest.is_empty() && !self.close {
                    let r = std::mem::take(&mut self.rest);
                    env::tcp_deliver(&r);
                }
            }
            Ev::Idle(Idle::Udp) => env::udp_deliver(base_state(7)),
            _ => {}
        }
    }
}
fn stored() -> Option<Vec<u8>> {
    for f in env::net().files.iter() {
        if f.path == PATH.as_bytes() && f.exists {
            return Some(f.data.clone());
        }
    }
    None
}
/// number of existing files besides the model
fn strays() -> u32 {
    let mut n = 0;
    for f in env::net().files.iter() {
        if f.path != PATH.as_bytes() && f.exists {
            n += 1;
        }
    }
    n
}
fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(sym::u8v(1));
    }
    v
}
fn robot(s: Srv) -> (franka::Robot, std::rc::Rc<std::cell::RefCell<Srv>>) {
    let s = std::rc::Rc::new(std::cell::RefCell::new(s));
    let t = s.clone();
    let r = with_robot(1, move |ev| t.borrow_mut().on(ev));
    env::set_dlsym(crate::h16::lookup);
    (r, s)
}
fn srv(status: u8, lib: Vec<u8>) -> Srv {
    Srv { status, lib, cut: usize::MAX, close: false, rest: Vec::new(), request_ok: false, requests: 0, gap: 0 }
}
/// library contents of 1 to 12 bytes, written in pieces of any size, the reply cut anywhere
#[no_mangle]
pub extern "C" fn h17_download() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let persistent = sym::choice(2, 2) == 1;
    let lib = bytes(match sym::choice(3, 3) {
        0 => 1,
        1 => 5,
        _ => 12,
    });
    let mut s = srv(0, lib.clone());
    // either the reply is cut somewhere, or the file is written in pieces
    let cut = sym::choice(2, 4) == 1;
    if cut {
        s.cut = sym::choice(13 + lib.len() as u32, 4) as usize;
        s.gap = sym::choice(2, 4);
    }
    let (mut r, s) = robot(s);
    if !cut {
        env::net().short_write = 1 + sym::choice(12, 5) as usize;
    }
    let m = r.load_model(persistent);
    sym::assert(m.is_ok(), 2);
    sym::assert(s.borrow().requests == 1 && s.borrow().request_ok, 3);
    let n = env::net();
    sym::assert(n.dl_opened == 1, 4);
    sym::assert(n.dl_data.len() == lib.len(), 5);
    if n.dl_data.len() == lib.len() {
        sym::assert(same_bytes(&n.dl_data, &lib), 5);
    }
    let left = stored();
    sym::assert(left.is_some() == persistent, 6);
    sym::assert(strays() == 0, 6);
    if let Some(d) = left {
        sym::assert(d.len() == lib.len() && same_bytes(&d, &lib), 5);
        sym::reach(1);
    } else {
        sym::reach(2);
    }
    // the connection and the model can be used afterwards
    sym::assert(class(&r.set_joint_impedance([1.; 7])) == OK, 7);
    // a second load uses what is stored
    let m2 = r.load_model(true);
    sym::assert(m2.is_ok(), 2);
    sym::assert(s.borrow().requests == if persistent { 2 } else { 3 }, 3);
    sym::assert(same_bytes(&env::net().dl_data, &lib), 5);
    std::mem::forget((m, m2, r));
    sym::done();
}
/// a library that is already there
#[no_mangle]
pub extern "C" fn h17_existing() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let persistent = sym::choice(2, 2) == 1;
    let good = sym::choice(2, 2) == 1;
    let (mut r, s) = robot(srv(0, vec![9, 9]));
    let old = bytes(6);
    env::net().files.push(env::VFile { path: PATH.as_bytes().to_vec(), data: old.clone(), exists: true, is_dir: false });
    env::net().dl_ok = good;
    let m = r.load_model(persistent);
    sym::assert(s.borrow().requests == 0, 3);
    if good {
        sym::assert(m.is_ok(), 2);
        sym::assert(same_bytes(&env::net().dl_data, &old), 5);
        let left = stored();
        sym::assert(left.is_some() == persistent, 6);
        if let Some(d) = left {
            sym::assert(same_bytes(&d, &old), 5);
            sym::reach(1);
        } else {
            sym::reach(2);
        }
    } else {
        sym::assert(class(&m) == MODEL, 8);
        sym::reach(3);
    }
    std::mem::forget((m, r));
    sym::done();
}
/// everything that can go wrong
#[no_mangle]
pub extern "C" fn h17_failures() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    let persistent = sym::choice(2, 2) == 1;
    let kind = sym::choice(6, 3);
    let lib = bytes(6);
    let mut s = srv(0, lib.clone());
    match kind {
        0 => s.status = 1,
        1 => {
            s.cut = sym::choice(19, 4) as usize;
            s.close = true;
        }
        _ => {}
    }
    let (mut r, s) = robot(s);
    match kind {
        2 => env::net().open_fail = true,
        3 => {
            env::net().disk_full = sym::choice(6, 4) as usize;
            if sym::choice(2, 4) == 1 {
                env::net().short_write = 2;
            }
        }
        4 => env::net().dl_ok = false,
        5 => env::net().tcp_send_fail = true,
        _ => {}
    }
    let m = r.load_model(persistent);
    let want = match kind {
        1 | 5 => NETWORK,
        _ => MODEL,
    };
    sym::assert(class(&m) == want, 8);
    sym::assert(env::net().dl_opened == 0, 4);
    if kind < 3 || kind == 5 {
        sym::assert(stored().is_none() && strays() == 0, 6);
    }
    if kind == 0 {
        sym::reach(1);
        // the robot may deliver it later
        s.borrow_mut().status = 0;
        let m2 = r.load_model(persistent);
        sym::assert(m2.is_ok(), 2);
        sym::assert(same_bytes(&env::net().dl_data, &lib), 5);
        std::mem::forget(m2);
    } else {
        sym::reach(1 + kind);
    }
    std::mem::forget((m, r));
    sym::done();
}
/// a library larger than the receive buffer
#[no_mangle]
pub extern "C" fn h17_large() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(1);
    sym::on_hang(1);
    const N: usize = 150_000;
    let mut lib = vec![0x5au8; N];
    for i in [0usize, 1, 65_535, 65_536, 69_987, 69_988, 70_000, 139_987, N - 1].iter() {
        lib[*i] = sym::u8v(1);
    }
    let (mut r, _) = robot(srv(0, lib.clone()));
    let m = r.load_model(true);
    sym::assert(m.is_ok(), 2);
    let d = stored().unwrap_or_default();
    sym::assert(d.len() == N && env::net().dl_data.len() == N, 5);
    if d.len() == N {
        sym::assert(same_bytes(&d, &lib), 5);
    }
    sym::reach(1);
    std::mem::forget((m, r));
    sym::done();
}
