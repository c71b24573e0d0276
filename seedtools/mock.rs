//! A scripted robot (or gripper) on the loopback interface.
#![allow(dead_code)]
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::thread::{spawn, JoinHandle};
use std::time::Duration;

pub struct Conn {
    pub tcp: TcpStream,
    pub udp: UdpSocket,
    pub client: SocketAddr,
    pub gripper: bool,
    pub id: u64,
}
impl Conn {
    /// next request, None when the client is gone or quiet for two seconds
    pub fn request(&mut self) -> Option<Vec<u8>> {
        let h = if self.gripper { 10 } else { 12 };
        let mut b = vec![0u8; h];
        self.tcp.read_exact(&mut b).ok()?;
        let n = g32(&b, h - 4) as usize;
        let mut rest = vec![0u8; n - h];
        self.tcp.read_exact(&mut rest).ok()?;
        b.extend(rest);
        Some(b)
    }
    pub fn send(&mut self, b: &[u8]) {
        let _ = self.tcp.write_all(b);
        let _ = self.tcp.flush();
    }
    pub fn status(&mut self, request: &[u8], s: u8) {
        let m = status_response(robot_cmd(request), robot_id(request), s);
        self.send(&m);
    }
    pub fn gstatus(&mut self, request: &[u8], s: u16) {
        let m = gripper_status(gripper_cmd(request), gripper_id(request), s);
        self.send(&m);
    }
    pub fn datagram(&self, b: &[u8]) {
        let _ = self.udp.send_to(b, self.client);
    }
    /// state with the next id, modes and whatever `f` fills in
    pub fn state(&mut self, mg: u8, cm: u8, rm: u8, f: impl FnOnce(&mut Vec<u8>)) {
        self.id += 1;
        let mut s = base_state(self.id);
        s[st::MG_MODE] = mg;
        s[st::CTRL_MODE] = cm;
        s[st::ROBOT_MODE] = rm;
        f(&mut s);
        self.datagram(&s);
    }
    /// next command datagram
    pub fn command(&self) -> Option<Vec<u8>> {
        let mut b = vec![0u8; 2000];
        let n = self.udp.recv(&mut b).ok()?;
        b.truncate(n);
        Some(b)
    }
    /// sends running states until a command arrives
    pub fn first_command(&mut self, mg: u8, cm: u8, f: impl Fn(&mut Vec<u8>)) -> Vec<u8> {
        self.udp.set_read_timeout(Some(Duration::from_millis(100))).unwrap();
        for _ in 0..30 {
            self.state(mg, cm, 2, &f);
            if let Some(b) = self.command() {
                self.udp.set_read_timeout(Some(Duration::from_secs(2))).unwrap();
                return b;
            }
        }
        panic!("no command");
    }
    /// accept a motion: request id, motion generator and controller mode
    pub fn accept_motion(&mut self) -> (u32, u8, u8) {
        let r = self.request().expect("move request");
        assert_eq!(robot_cmd(&r), MOVE);
        self.status(&r, 1);
        (robot_id(&r), g32(&r, 16) as u8 + 1, g32(&r, 12) as u8)
    }
    /// the motion ends: final reply and an idle state
    pub fn end_motion(&mut self, id: u32, status: u8) {
        let m = status_response(MOVE, id, status);
        self.send(&m);
        self.state(0, 3, 1, |_| ());
    }
}
/// waits for one connection, does the handshake and runs the script
pub fn serve(gripper: bool, version: u16, script: impl FnOnce(Conn) + Send + 'static) -> JoinHandle<()> {
    let l = TcpListener::bind(("127.0.0.1", if gripper { 1338 } else { 1337 })).expect("port");
    spawn(move || {
        let (tcp, from) = l.accept().unwrap();
        tcp.set_nodelay(true).unwrap();
        tcp.set_read_timeout(Some(Duration::from_secs(2))).unwrap();
        let udp = UdpSocket::bind("127.0.0.1:0").unwrap();
        udp.set_read_timeout(Some(Duration::from_secs(2))).unwrap();
        let mut c = Conn { tcp, udp, client: from, gripper, id: 0 };
        let r = c.request().unwrap();
        let h = if gripper { 10 } else { 12 };
        c.client.set_port(g16(&r, h + 2));
        if gripper {
            let m = gripper_connect_response(gripper_id(&r), 0, version);
            c.send(&m);
        } else {
            let m = connect_response(robot_id(&r), 0, version);
            c.send(&m);
            c.state(0, 3, 1, |_| ());
        }
        script(c)
    })
}
/// ends the program with a failure after that many seconds
pub fn watchdog(secs: u64) {
    spawn(move || {
        std::thread::sleep(Duration::from_secs(secs));
        eprintln!("hang");
        std::process::exit(3);
    });
}
pub fn robot() -> franka::Robot {
    franka::Robot::new("127.0.0.1", franka::RealtimeConfig::Ignore, None).expect("connect")
}
pub mod cmd {
    //! byte offsets in the command datagram
    pub const ID: usize = 0;
    pub const Q: usize = 8;
    pub const DQ: usize = Q + 56;
    pub const POSE: usize = DQ + 56;
    pub const VEL: usize = POSE + 128;
    pub const ELBOW: usize = VEL + 48;
    pub const VALID_ELBOW: usize = ELBOW + 16;
    pub const FINISHED: usize = VALID_ELBOW + 1;
    pub const TAU: usize = FINISHED + 1;
    pub const SIZE: usize = TAU + 56;
}

pub fn p8(v: &mut Vec<u8>, x: u8) {
    v.push(x);
}
pub fn p16(v: &mut Vec<u8>, x: u16) {
    v.extend_from_slice(&x.to_le_bytes());
}
pub fn p32(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&x.to_le_bytes());
}
pub fn p64(v: &mut Vec<u8>, x: u64) {
    v.extend_from_slice(&x.to_le_bytes());
}
pub fn pf(v: &mut Vec<u8>, x: f64) {
    p64(v, x.to_bits());
}
pub fn pfs(v: &mut Vec<u8>, x: &[f64]) {
    for a in x {
        pf(v, *a);
    }
}
pub fn g16(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
pub fn g32(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])
}
pub fn g64(b: &[u8], o: usize) -> u64 {
    let mut a = [0u8; 8];
    a.copy_from_slice(&b[o..o + 8]);
    u64::from_le_bytes(a)
}
pub fn gf(b: &[u8], o: usize) -> f64 {
    f64::from_bits(g64(b, o))
}
pub fn gfs<const N: usize>(b: &[u8], o: usize) -> [f64; N] {
    let mut a = [0.0; N];
    for i in 0..N {
        a[i] = gf(b, o + 8 * i);
    }
    a
}

// ---- robot, TCP ----------------------------------------------------------------------------------
pub const CONNECT: u32 = 0;
pub const MOVE: u32 = 1;
pub const STOP_MOVE: u32 = 2;
pub const GET_CARTESIAN_LIMIT: u32 = 3;
pub const SET_COLLISION: u32 = 4;
pub const SET_JOINT_IMPEDANCE: u32 = 5;
pub const SET_CARTESIAN_IMPEDANCE: u32 = 6;
pub const SET_GUIDING_MODE: u32 = 7;
pub const SET_EE_TO_K: u32 = 8;
pub const SET_NE_TO_EE: u32 = 9;
pub const SET_LOAD: u32 = 10;
pub const SET_FILTERS: u32 = 11;
pub const RECOVERY: u32 = 12;
pub const LOAD_MODEL: u32 = 13;

pub fn robot_msg(cmd: u32, id: u32, body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(12 + body.len());
    p32(&mut v, cmd);
    p32(&mut v, id);
    p32(&mut v, 12 + body.len() as u32);
    v.extend_from_slice(body);
    v
}
pub fn robot_cmd(r: &[u8]) -> u32 {
    g32(r, 0)
}
pub fn robot_id(r: &[u8]) -> u32 {
    g32(r, 4)
}
pub fn connect_response(id: u32, status: u8, version: u16) -> Vec<u8> {
    let mut b = Vec::new();
    p8(&mut b, status);
    p16(&mut b, version);
    robot_msg(CONNECT, id, &b)
}
pub fn status_response(cmd: u32, id: u32, status: u8) -> Vec<u8> {
    robot_msg(cmd, id, &[status])
}

// ---- robot state ---------------------------------------------------------------------------------
pub mod st {
    //! byte offsets in the state datagram
    pub const ID: usize = 0;
    pub const O_T_EE: usize = 8;
    pub const O_T_EE_D: usize = O_T_EE + 128;
    pub const F_T_EE: usize = O_T_EE_D + 128;
    pub const EE_T_K: usize = F_T_EE + 128;
    pub const F_T_NE: usize = EE_T_K + 128;
    pub const NE_T_EE: usize = F_T_NE + 128;
    pub const M_EE: usize = NE_T_EE + 128;
    pub const I_EE: usize = M_EE + 8;
    pub const F_X_CEE: usize = I_EE + 72;
    pub const M_LOAD: usize = F_X_CEE + 24;
    pub const I_LOAD: usize = M_LOAD + 8;
    pub const F_X_CLOAD: usize = I_LOAD + 72;
    pub const ELBOW: usize = F_X_CLOAD + 24;
    pub const ELBOW_D: usize = ELBOW + 16;
    pub const TAU_J: usize = ELBOW_D + 16;
    pub const TAU_J_D: usize = TAU_J + 56;
    pub const DTAU_J: usize = TAU_J_D + 56;
    pub const Q: usize = DTAU_J + 56;
    pub const Q_D: usize = Q + 56;
    pub const DQ: usize = Q_D + 56;
    pub const DQ_D: usize = DQ + 56;
    pub const DDQ_D: usize = DQ_D + 56;
    pub const JOINT_CONTACT: usize = DDQ_D + 56;
    pub const CART_CONTACT: usize = JOINT_CONTACT + 56;
    pub const JOINT_COLLISION: usize = CART_CONTACT + 48;
    pub const CART_COLLISION: usize = JOINT_COLLISION + 56;
    pub const TAU_EXT: usize = CART_COLLISION + 48;
    pub const O_F_EXT: usize = TAU_EXT + 56;
    pub const K_F_EXT: usize = O_F_EXT + 48;
    pub const O_DP_EE_D: usize = K_F_EXT + 48;
    pub const O_DDP_O: usize = O_DP_EE_D + 48;
    pub const ELBOW_C: usize = O_DDP_O + 24;
    pub const DELBOW_C: usize = ELBOW_C + 16;
    pub const DDELBOW_C: usize = DELBOW_C + 16;
    pub const O_T_EE_C: usize = DDELBOW_C + 16;
    pub const O_DP_EE_C: usize = O_T_EE_C + 128;
    pub const O_DDP_EE_C: usize = O_DP_EE_C + 48;
    pub const THETA: usize = O_DDP_EE_C + 48;
    pub const DTHETA: usize = THETA + 56;
    pub const MG_MODE: usize = DTHETA + 56;
    pub const CTRL_MODE: usize = MG_MODE + 1;
    pub const ERRORS: usize = CTRL_MODE + 1;
    pub const REFLEX: usize = ERRORS + 41;
    pub const ROBOT_MODE: usize = REFLEX + 41;
    pub const SUCCESS_RATE: usize = ROBOT_MODE + 1;
    pub const SIZE: usize = SUCCESS_RATE + 8;
}
pub const IDENTITY: [f64; 16] = [
    1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.,
];
pub fn put_f(v: &mut [u8], o: usize, x: f64) {
    v[o..o + 8].copy_from_slice(&x.to_bits().to_le_bytes());
}
pub fn put_fs(v: &mut [u8], o: usize, x: &[f64]) {
    for (i, a) in x.iter().enumerate() {
        put_f(v, o + 8 * i, *a);
    }
}
pub fn put_u64(v: &mut [u8], o: usize, x: u64) {
    v[o..o + 8].copy_from_slice(&x.to_le_bytes());
}
/// neutral idle state with valid transforms
pub fn base_state(id: u64) -> Vec<u8> {
    let mut v = vec![0u8; st::SIZE];
    put_u64(&mut v, st::ID, id);
    for o in [st::O_T_EE, st::O_T_EE_D, st::F_T_EE, st::EE_T_K, st::F_T_NE, st::NE_T_EE, st::O_T_EE_C].iter() {
        put_fs(&mut v, *o, &IDENTITY);
    }
    v[st::ROBOT_MODE] = 1;
    v[st::CTRL_MODE] = 3;
    put_f(&mut v, st::SUCCESS_RATE, 1.0);
    v
}
// ---- gripper, TCP --------------------------------------------------------------------------------
pub fn gripper_msg(cmd: u16, id: u32, body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(10 + body.len());
    p16(&mut v, cmd);
    p32(&mut v, id);
    p32(&mut v, 10 + body.len() as u32);
    v.extend_from_slice(body);
    v
}
pub fn gripper_cmd(r: &[u8]) -> u16 {
    g16(r, 0)
}
pub fn gripper_id(r: &[u8]) -> u32 {
    g32(r, 2)
}
pub fn gripper_status(cmd: u16, id: u32, status: u16) -> Vec<u8> {
    gripper_msg(cmd, id, &status.to_le_bytes())
}
pub fn gripper_connect_response(id: u32, status: u16, version: u16) -> Vec<u8> {
    let mut b = Vec::new();
    p16(&mut b, status);
    p16(&mut b, version);
    gripper_msg(0, id, &b)
}
