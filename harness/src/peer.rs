//! A robot that runs motions: accepts Move, streams states, reacts to commands.
#![allow(dead_code)]
use crate::env::{self, Ev, Idle};
use crate::sym;
use crate::wire::*;
use franka::{RealtimeConfig, Robot};
use std::cell::RefCell;
use std::rc::Rc;

pub mod cmd {
    //! byte offsets in the command datagram
    pub const ID: usize = 0;
    pub const Q: usize = 8;
    pub const DQ: usize = Q + 56;
    pub const POSE: usize = DQ + 56;
    pub const VEL: usize = POSE + 128;
    pub const ELBOW: usize = VEL + 48;
    pub const VALID_ELBOW: usize = ELBOW + 16;
    pub const FINISHED: usize = VALID_ELBOW + 1;
    pub const TAU: usize = FINISHED + 1;
    pub const SIZE: usize = TAU + 56;
}
pub const REPLY_NONE: u8 = 255;

pub struct Peer {
    /// id of the last state sent
    pub id: u64,
    /// ids of the states sent, in order
    pub ids: Vec<u64>,
    pub mg: u8,
    pub cm: u8,
    pub rm: u8,
    pub move_id: u32,
    pub moves: u32,
    pub stops: u32,
    pub others: u32,
    /// datagrams received, with the id of the newest state sent before
    pub cmds: Vec<(Vec<u8>, u64)>,
    /// per command, the number of the newest state of the motion
    pub cmd_state: Vec<u32>,
    pub dest_ok: bool,
    /// reply to Move
    pub move_status: u8,
    /// states with the old modes sent before the motion shows up as running
    pub start_lag: u32,
    /// commands with the finished flag until the motion ends
    pub finish_after: u32,
    pub finish_status: u8,
    pub finished_seen: u32,
    /// robot stops the motion by itself after this many commands (u32::MAX: never)
    pub abort_after: u32,
    pub abort_status: u8,
    pub abort_rm: u8,
    pub stop_status: u8,
    /// reply to Move when stopped by StopMove
    pub preempt_reply: u8,
    /// states still running after StopMove
    pub stop_lag: u32,
    /// no further states after this many (u32::MAX: never)
    pub silent_after: u32,
    pub states: u32,
    pub ctrl_after_move: u8,
    pub mg_after_move: u8,
    pub running: bool,
    /// report a Cartesian reflex once the motion is over
    pub idle_reflex: bool,
    pub stopped: bool,
    /// next state id
    pub next_id: Box<dyn FnMut(u64) -> u64>,
    /// fills in the state number n (counted from the start of the motion)
    pub fill: Box<dyn FnMut(u32, &mut Vec<u8>)>,
    pub motion_states: u32,
    /// looks at each datagram as it arrives
    pub check: fn(&[u8]),
    /// 0: the modes change together; 1: the motion generator first; 2: the controller first;
    /// 3 (abort only): the robot mode first
    pub start_part: u8,
    pub end_part: u8,
    pub abort_part: u8,
    /// modes of the following states, and the final reply that comes with the last one
    pub pending: Vec<(u8, u8, u8)>,
    pub pending_reply: u8,
}
pub type P = Rc<RefCell<Peer>>;

pub fn peer() -> Peer {
    Peer {
        id: 1,
        ids: Vec::new(),
        mg: 0,
        cm: 3,
        rm: 1,
        move_id: 0,
        moves: 0,
        stops: 0,
        others: 0,
        cmds: Vec::new(),
        cmd_state: Vec::new(),
        dest_ok: true,
        move_status: 1,
        start_lag: 0,
        finish_after: 1,
        finish_status: 0,
        finished_seen: 0,
        abort_after: u32::MAX,
        abort_status: 6,
        abort_rm: 4,
        stop_status: 0,
        preempt_reply: 2,
        stop_lag: 0,
        silent_after: u32::MAX,
        states: 0,
        ctrl_after_move: 0,
        mg_after_move: 0,
        running: false,
        idle_reflex: false,
        stopped: false,
        next_id: Box::new(|x| x + 1),
        fill: Box::new(|_, _| ()),
        motion_states: 0,
        check: |_| (),
        start_part: 0,
        end_part: 0,
        abort_part: 0,
        pending: Vec::new(),
        pending_reply: REPLY_NONE,
    }
}
impl Peer {
    /// the motion ends: modes change at once or in two steps, the reply comes when it has ended
    fn end(&mut self, part: u8, rm: u8, reply: u8) {
        let (mg, cm) = (self.mg, self.cm);
        self.pending_reply = reply;
        match part {
            // only an external controller keeps the motion alive
            1 if cm == 2 => {
                self.mg = 0;
                self.pending = vec![(0, cm, self.rm), (0, 3, rm)];
            }
            2 => {
                self.cm = 3;
                self.pending = vec![(mg, 3, self.rm), (0, 3, rm)];
            }
            _ => {
                self.idle();
                self.rm = rm;
                self.reply_end();
            }
        }
    }
    fn reply_end(&mut self) {
        if self.pending_reply != REPLY_NONE {
            env::tcp_deliver(&status_response(MOVE, self.move_id, self.pending_reply));
            self.pending_reply = REPLY_NONE;
        }
    }
    fn idle(&mut self) {
        self.mg = 0;
        self.cm = 3;
        self.running = false;
    }
    pub fn on_event(&mut self, ev: Ev) {
        self.on(ev)
    }
    fn on(&mut self, ev: Ev) {
        match ev {
            Ev::Request(b) => {
                let id = robot_id(b);
                match robot_cmd(b) {
                    MOVE => {
                        self.moves += 1;
                        self.move_id = id;
                        env::tcp_deliver(&status_response(MOVE, id, self.move_status));
                        if self.move_status == 1 {
                            // wire numbers: Move controller 0,1,2 -> state 0,1,2; generator 0..3 -> 1..4
                            self.ctrl_after_move = g32(b, 12) as u8;
                            self.mg_after_move = g32(b, 16) as u8 + 1;
                            self.running = true;
                            self.stopped = false;
                            self.finished_seen = 0;
                            self.motion_states = 0;
                            if self.start_lag == 0 {
                                self.start();
                            }
                        }
                    }
                    STOP_MOVE => {
                        self.stops += 1;
                        let was = self.running;
                        self.stopped = true;
                        env::tcp_deliver(&status_response(STOP_MOVE, id, self.stop_status));
                        if self.stop_status == 0 && was {
                            if self.end_part != 0 {
                                self.end(self.end_part, 1, self.preempt_reply);
                            } else {
                                if self.preempt_reply != REPLY_NONE {
                                    env::tcp_deliver(&status_response(MOVE, self.move_id, self.preempt_reply));
                                }
                                if self.stop_lag == 0 {
                                    self.idle();
                                    self.rm = 1;
                                }
                            }
                        }
                    }
                    c => {
                        self.others += 1;
                        env::tcp_deliver(&crate::svc::reply(c, id, 0));
                    }
                }
            }
            Ev::Command(b) => {
                (self.check)(b);
                let n = env::net();
                self.dest_ok &= n.last_dest_ip == 0x0a00_0007 && n.last_dest_port == n.peer_port;
                self.cmds.push((b.to_vec(), self.id));
                self.cmd_state.push(self.motion_states.wrapping_sub(1));
                if self.running && self.pending.is_empty() && self.cmds.len() as u32 >= self.abort_after {
                    // the reply comes with the first sign of the abort
                    env::tcp_deliver(&status_response(MOVE, self.move_id, self.abort_status));
                    let (mg, cm, rm) = (self.mg, self.cm, self.rm);
                    match self.abort_part {
                        0 => {
                            self.idle();
                            self.rm = self.abort_rm;
                        }
                        1 => self.pending = vec![(0, cm, rm), (0, 3, self.abort_rm)],
                        2 => self.pending = vec![(mg, 3, rm), (0, 3, self.abort_rm)],
                        _ => self.pending = vec![(mg, cm, self.abort_rm), (0, 3, self.abort_rm)],
                    }
                }
                if self.running && b.len() == cmd::SIZE && b[cmd::FINISHED] != 0 {
                    self.finished_seen += 1;
                    if self.finished_seen == self.finish_after {
                        self.end(self.end_part, 1, self.finish_status);
                    }
                }
            }
            Ev::Idle(Idle::Udp) => {
                if self.states >= self.silent_after {
                    return;
                }
                self.states += 1;
                if self.running && self.start_lag > 0 {
                    self.start_lag -= 1;
                    if self.start_lag == 0 {
                        self.start();
                    }
                }
                if self.stopped && self.running && self.stop_lag > 0 {
                    self.stop_lag -= 1;
                    if self.stop_lag == 0 {
                        self.idle();
                        self.rm = 1;
                    }
                }
                if !self.pending.is_empty() {
                    let (mg, cm, rm) = self.pending.remove(0);
                    self.mg = mg;
                    self.cm = cm;
                    self.rm = rm;
                    if mg == 0 && cm == 3 {
                        self.running = false;
                        self.reply_end();
                    }
                }
                let s = self.state();
                env::udp_deliver(s);
            }
            _ => {}
        }
    }
    fn start(&mut self) {
        let (mg, cm) = (self.mg, self.cm);
        self.mg = self.mg_after_move;
        self.cm = self.ctrl_after_move;
        self.rm = 2;
        if self.start_part != 0 {
            self.pending = vec![(self.mg, self.cm, 2)];
            if self.start_part == 1 {
                self.pending.insert(0, (self.mg, cm, 2));
            } else {
                self.pending.insert(0, (mg, self.cm, 2));
            }
        }
    }
    fn state(&mut self) -> Vec<u8> {
        self.id = (self.next_id)(self.id);
        self.ids.push(self.id);
        let mut s = base_state(self.id);
        s[st::MG_MODE] = self.mg;
        s[st::CTRL_MODE] = self.cm;
        s[st::ROBOT_MODE] = self.rm;
        if self.idle_reflex && !self.running {
            s[st::REFLEX + 7] = 1;
        }
        if self.running && self.mg != 0 {
            let n = self.motion_states;
            self.motion_states += 1;
            (self.fill)(n, &mut s);
        }
        s
    }
}
/// connected robot whose peer is `p`
pub fn robot_with(p: Peer, rt: RealtimeConfig, log: Option<usize>) -> (Robot, P) {
    let first = p.id;
    let p: P = Rc::new(RefCell::new(p));
    let p2 = p.clone();
    let r = with_robot_cfg(first, rt, log, move |ev| p2.borrow_mut().on(ev));
    (r, p)
}
pub fn robot(p: Peer) -> (Robot, P) {
    robot_with(p, RealtimeConfig::Ignore, None)
}
/// strictly increasing, otherwise arbitrary ids of that many bits for the first k states
pub fn any_ids(mut k: u32, bits: u32) -> Box<dyn FnMut(u64) -> u64> {
    Box::new(move |last| {
        if k == 0 {
            return last + 1;
        }
        k -= 1;
        let n = sym::bv(bits, 77);
        sym::assume(n > last);
        n
    })
}

// ---- motions with fixed commands ------------------------------------------------------------
use franka::exception::FrankaResult;
use franka::robot::control_types::*;
use franka::RobotState;
use std::time::Duration;
pub const KINDS: u32 = 13;
/// 0..3 motion only; 4..7 the same with torques; 8 torques only; 9..12 with torques, the torque
/// callback decides when to stop.  `step` tells whether the value is the last one.
pub fn generator(kind: u32) -> u32 {
    match kind {
        8 => 1,
        k if k > 8 => k - 9,
        k => k % 4,
    }
}
pub fn run(
    r: &mut Robot,
    kind: u32,
    limit: bool,
    cutoff: f64,
    step: impl FnMut(&RobotState, &Duration) -> bool,
) -> FrankaResult<()> {
    let step = RefCell::new(step);
    let drive = |torque: bool, s: &RobotState, d: &Duration| -> bool {
        if torque == (kind >= 8) {
            (step.borrow_mut())(s, d)
        } else {
            false
        }
    };
    let ta = |s: &RobotState, d: &Duration| {
        let o = Torques::new([0.; 7]);
        if drive(true, s, d) { o.motion_finished() } else { o }
    };
    let jp = |s: &RobotState, d: &Duration| {
        let o = JointPositions::new(s.q_d);
        if drive(false, s, d) { o.motion_finished() } else { o }
    };
    let jv = |s: &RobotState, d: &Duration| {
        let o = JointVelocities::new([0.; 7]);
        if drive(false, s, d) { o.motion_finished() } else { o }
    };
    let cp = |s: &RobotState, d: &Duration| {
        let o = CartesianPose::new(s.O_T_EE_c, None);
        if drive(false, s, d) { o.motion_finished() } else { o }
    };
    let cv = |s: &RobotState, d: &Duration| {
        let o = CartesianVelocities::new([0.; 6], None);
        if drive(false, s, d) { o.motion_finished() } else { o }
    };
    match kind {
        0 => r.control_joint_positions(jp, None, limit, cutoff),
        1 => r.control_joint_velocities(jv, ControllerMode::CartesianImpedance, limit, cutoff),
        2 => r.control_cartesian_pose(cp, None, limit, cutoff),
        3 => r.control_cartesian_velocities(cv, None, limit, cutoff),
        4 | 9 => r.control_torques_and_joint_positions(ta, jp, limit, cutoff),
        5 | 10 => r.control_torques_and_joint_velocities(ta, jv, limit, cutoff),
        6 | 11 => r.control_torques_and_cartesian_pose(ta, cp, limit, cutoff),
        7 | 12 => r.control_torques_and_cartesian_velocities(ta, cv, limit, cutoff),
        _ => r.control_torques(ta, limit, cutoff),
    }
}
