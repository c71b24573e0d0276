//! Independent description of the wire formats (offsets written down from the protocol, not taken
//! from the library's types) and of a well-behaved peer.
#![allow(dead_code)]
use crate::env::{self, Ev, Idle};

pub fn p8(v: &mut Vec<u8>, x: u8) {
    v.push(x);
}
pub fn p16(v: &mut Vec<u8>, x: u16) {
    v.extend_from_slice(&x.to_le_bytes());
}
pub fn p32(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&x.to_le_bytes());
}
pub fn p64(v: &mut Vec<u8>, x: u64) {
    v.extend_from_slice(&x.to_le_bytes());
}
pub fn pf(v: &mut Vec<u8>, x: f64) {
    p64(v, x.to_bits());
}
pub fn pfs(v: &mut Vec<u8>, x: &[f64]) {
    for a in x {
        pf(v, *a);
    }
}
pub fn g16(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
pub fn g32(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])
}
pub fn g64(b: &[u8], o: usize) -> u64 {
    let mut a = [0u8; 8];
    a.copy_from_slice(&b[o..o + 8]);
    u64::from_le_bytes(a)
}
pub fn gf(b: &[u8], o: usize) -> f64 {
    f64::from_bits(g64(b, o))
}
pub fn gfs<const N: usize>(b: &[u8], o: usize) -> [f64; N] {
    let mut a = [0.0; N];
    for i in 0..N {
        a[i] = gf(b, o + 8 * i);
    }
    a
}

// ---- robot, TCP ----------------------------------------------------------------------------------
pub const CONNECT: u32 = 0;
pub const MOVE: u32 = 1;
pub const STOP_MOVE: u32 = 2;
pub const GET_CARTESIAN_LIMIT: u32 = 3;
pub const SET_COLLISION: u32 = 4;
pub const SET_JOINT_IMPEDANCE: u32 = 5;
pub const SET_CARTESIAN_IMPEDANCE: u32 = 6;
pub const SET_GUIDING_MODE: u32 = 7;
pub const SET_EE_TO_K: u32 = 8;
pub const SET_NE_TO_EE: u32 = 9;
pub const SET_LOAD: u32 = 10;
pub const SET_FILTERS: u32 = 11;
pub const RECOVERY: u32 = 12;
pub const LOAD_MODEL: u32 = 13;

pub fn robot_msg(cmd: u32, id: u32, body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(12 + body.len());
    p32(&mut v, cmd);
    p32(&mut v, id);
    p32(&mut v, 12 + body.len() as u32);
    v.extend_from_slice(body);
    v
}
pub fn robot_cmd(r: &[u8]) -> u32 {
    g32(r, 0)
}
pub fn robot_id(r: &[u8]) -> u32 {
    g32(r, 4)
}
pub fn connect_response(id: u32, status: u8, version: u16) -> Vec<u8> {
    let mut b = Vec::new();
    p8(&mut b, status);
    p16(&mut b, version);
    robot_msg(CONNECT, id, &b)
}
pub fn status_response(cmd: u32, id: u32, status: u8) -> Vec<u8> {
    robot_msg(cmd, id, &[status])
}

// ---- robot state ---------------------------------------------------------------------------------
pub mod st {
    //! byte offsets in the state datagram
    pub const ID: usize = 0;
    pub const O_T_EE: usize = 8;
    pub const O_T_EE_D: usize = O_T_EE + 128;
    pub const F_T_EE: usize = O_T_EE_D + 128;
    pub const EE_T_K: usize = F_T_EE + 128;
    pub const F_T_NE: usize = EE_T_K + 128;
    pub const NE_T_EE: usize = F_T_NE + 128;
    pub const M_EE: usize = NE_T_EE + 128;
    pub const I_EE: usize = M_EE + 8;
    pub const F_X_CEE: usize = I_EE + 72;
    pub const M_LOAD: usize = F_X_CEE + 24;
    pub const I_LOAD: usize = M_LOAD + 8;
    pub const F_X_CLOAD: usize = I_LOAD + 72;
    pub const ELBOW: usize = F_X_CLOAD + 24;
    pub const ELBOW_D: usize = ELBOW + 16;
    pub const TAU_J: usize = ELBOW_D + 16;
    pub const TAU_J_D: usize = TAU_J + 56;
    pub const DTAU_J: usize = TAU_J_D + 56;
    pub const Q: usize = DTAU_J + 56;
    pub const Q_D: usize = Q + 56;
    pub const DQ: usize = Q_D + 56;
    pub const DQ_D: usize = DQ + 56;
    pub const DDQ_D: usize = DQ_D + 56;
    pub const JOINT_CONTACT: usize = DDQ_D + 56;
    pub const CART_CONTACT: usize = JOINT_CONTACT + 56;
    pub const JOINT_COLLISION: usize = CART_CONTACT + 48;
    pub const CART_COLLISION: usize = JOINT_COLLISION + 56;
    pub const TAU_EXT: usize = CART_COLLISION + 48;
    pub const O_F_EXT: usize = TAU_EXT + 56;
    pub const K_F_EXT: usize = O_F_EXT + 48;
    pub const O_DP_EE_D: usize = K_F_EXT + 48;
    pub const O_DDP_O: usize = O_DP_EE_D + 48;
    pub const ELBOW_C: usize = O_DDP_O + 24;
    pub const DELBOW_C: usize = ELBOW_C + 16;
    pub const DDELBOW_C: usize = DELBOW_C + 16;
    pub const O_T_EE_C: usize = DDELBOW_C + 16;
    pub const O_DP_EE_C: usize = O_T_EE_C + 128;
    pub const O_DDP_EE_C: usize = O_DP_EE_C + 48;
    pub const THETA: usize = O_DDP_EE_C + 48;
    pub const DTHETA: usize = THETA + 56;
    pub const MG_MODE: usize = DTHETA + 56;
    pub const CTRL_MODE: usize = MG_MODE + 1;
    pub const ERRORS: usize = CTRL_MODE + 1;
    pub const REFLEX: usize = ERRORS + 41;
    pub const ROBOT_MODE: usize = REFLEX + 41;
    pub const SUCCESS_RATE: usize = ROBOT_MODE + 1;
    pub const SIZE: usize = SUCCESS_RATE + 8;
}
pub const IDENTITY: [f64; 16] = [
    1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.,
];
pub fn put_f(v: &mut [u8], o: usize, x: f64) {
    v[o..o + 8].copy_from_slice(&x.to_bits().to_le_bytes());
}
pub fn put_fs(v: &mut [u8], o: usize, x: &[f64]) {
    for (i, a) in x.iter().enumerate() {
        put_f(v, o + 8 * i, *a);
    }
}
pub fn put_u64(v: &mut [u8], o: usize, x: u64) {
    v[o..o + 8].copy_from_slice(&x.to_le_bytes());
}
/// neutral idle state with valid transforms
pub fn base_state(id: u64) -> Vec<u8> {
    let mut v = vec![0u8; st::SIZE];
    put_u64(&mut v, st::ID, id);
    for o in [st::O_T_EE, st::O_T_EE_D, st::F_T_EE, st::EE_T_K, st::F_T_NE, st::NE_T_EE, st::O_T_EE_C].iter() {
        put_fs(&mut v, *o, &IDENTITY);
    }
    v[st::ROBOT_MODE] = 1;
    v[st::CTRL_MODE] = 3;
    put_f(&mut v, st::SUCCESS_RATE, 1.0);
    v
}
pub const IDLE: usize = 0;

/// Minimal peer: accepts the connection and sends one idle state with the given id.
/// Everything else is passed to `f`.
pub fn with_robot(first_id: u64, f: impl FnMut(Ev) + 'static) -> franka::Robot {
    with_robot_cfg(first_id, franka::RealtimeConfig::Ignore, None, f)
}
pub fn with_robot_cfg(
    first_id: u64,
    rt: franka::RealtimeConfig,
    log: Option<usize>,
    mut f: impl FnMut(Ev) + 'static,
) -> franka::Robot {
    let mut connected = false;
    env::init(
        12,
        Box::new(move |ev| {
            if !connected {
                match ev {
                    Ev::Request(r) => {
                        if robot_cmd(r) == CONNECT {
                            env::tcp_deliver(&connect_response(robot_id(r), 0, 5));
                        }
                    }
                    Ev::Idle(Idle::Udp) => {
                        connected = true;
                        env::udp_deliver(base_state(first_id));
                    }
                    _ => {}
                }
            } else {
                f(ev)
            }
        }),
    );
    match franka::Robot::new("10.0.0.7", rt, log) {
        Ok(r) => r,
        Err(_) => crate::sym::hang(),
    }
}

// ---- gripper, TCP --------------------------------------------------------------------------------
pub fn gripper_msg(cmd: u16, id: u32, body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(10 + body.len());
    p16(&mut v, cmd);
    p32(&mut v, id);
    p32(&mut v, 10 + body.len() as u32);
    v.extend_from_slice(body);
    v
}
pub fn gripper_cmd(r: &[u8]) -> u16 {
    g16(r, 0)
}
pub fn gripper_id(r: &[u8]) -> u32 {
    g32(r, 2)
}
pub fn gripper_status(cmd: u16, id: u32, status: u16) -> Vec<u8> {
    gripper_msg(cmd, id, &status.to_le_bytes())
}
pub fn gripper_connect_response(id: u32, status: u16, version: u16) -> Vec<u8> {
    let mut b = Vec::new();
    p16(&mut b, status);
    p16(&mut b, version);
    gripper_msg(0, id, &b)
}
/// Peer that accepts the gripper connection; everything else is passed to `f`.
pub fn with_gripper(mut f: impl FnMut(Ev) + 'static) -> franka::Gripper {
    let mut connected = false;
    env::init(
        10,
        Box::new(move |ev| {
            if !connected {
                if let Ev::Request(r) = ev {
                    if gripper_cmd(r) == 0 {
                        connected = true;
                        env::tcp_deliver(&gripper_connect_response(gripper_id(r), 0, 3));
                    }
                }
            } else {
                f(ev)
            }
        }),
    );
    match franka::Gripper::new("10.0.0.7") {
        Ok(r) => r,
        Err(_) => crate::sym::hang(),
    }
}
