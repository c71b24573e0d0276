//! C02: decoding of the state datagrams.
use crate::env::{self, Ev, Idle};
use crate::sym;
use crate::wire::*;
use franka::robot::error::FrankaError as E;
use franka::RobotState;
use std::time::Duration;

pub const ERRORS: [E; 41] = [
    E::JointPositionLimitsViolation,
    E::CartesianPositionLimitsViolation,
    E::SelfCollisionAvoidanceViolation,
    E::JointVelocityViolation,
    E::CartesianVelocityViolation,
    E::ForceControlSafetyViolation,
    E::JointReflex,
    E::CartesianReflex,
    E::MaxGoalPoseDeviationViolation,
    E::MaxPathPoseDeviationViolation,
    E::CartesianVelocityProfileSafetyViolation,
    E::JointPositionMotionGeneratorStartPoseInvalid,
    E::JointMotionGeneratorPositionLimitsViolation,
    E::JointMotionGeneratorVelocityLimitsViolation,
    E::JointMotionGeneratorVelocityDiscontinuity,
    E::JointMotionGeneratorAccelerationDiscontinuity,
    E::CartesianPositionMotionGeneratorStartPoseInvalid,
    E::CartesianMotionGeneratorElbowLimitViolation,
    E::CartesianMotionGeneratorVelocityLimitsViolation,
    E::CartesianMotionGeneratorVelocityDiscontinuity,
    E::CartesianMotionGeneratorAccelerationDiscontinuity,
    E::CartesianMotionGeneratorElbowSignInconsistent,
    E::CartesianMotionGeneratorStartElbowInvalid,
    E::ForceControllerDesiredForceToleranceViolation,
    E::StartElbowSignInconsistent,
    E::CommunicationConstraintsViolation,
    E::PowerLimitViolation,
    E::CartesianMotionGeneratorJointPositionLimitsViolation,
    E::CartesianMotionGeneratorJointVelocityLimitsViolation,
    E::CartesianMotionGeneratorJointVelocityDiscontinuity,
    E::CartesianMotionGeneratorJointAccelerationDiscontinuity,
    E::CartesianPositionMotionGeneratorInvalidFrame,
    E::ControllerTorqueDiscontinuity,
    E::JointP2PInsufficientTorqueForPlanning,
    E::TauJRangeViolation,
    E::InstabilityDetection,
    E::JointMoveInWrongDirection,
    E::CartesianSplineViolation,
    E::JointViaPlanLimitViolation,
    E::BaseAccelerationInitializationTimeout,
    E::BaseAccelerationInvalidReading,
];

/// what a reader gets when the peer answers with datagram `d`
pub fn read_state(first: u64, d: Vec<u8>) -> Option<RobotState> {
    let mut d = Some(d);
    let mut r = with_robot(first, move |ev| {
        if let Ev::Idle(Idle::Udp) = ev {
            if let Some(x) = d.take() {
                env::udp_deliver(x);
            }
        }
    });
    r.read_once().ok()
}
pub fn mode_no(s: &RobotState) -> u8 {
    s.robot_mode as u8
}

#[no_mangle]
pub extern "C" fn h02_fields() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(90);
    sym::on_hang(90);
    let mut d = base_state(0);
    let id = sym::bv(64, 1);
    sym::assume(id > 3);
    put_u64(&mut d, st::ID, id);
    // every floating point field arbitrary; the two masses concrete here (see the load harnesses)
    let mut o = st::O_T_EE;
    while o < st::MG_MODE {
        if o != st::M_EE && o != st::M_LOAD {
            put_f(&mut d, o, sym::fany(2));
        }
        o += 8;
    }
    put_f(&mut d, st::M_EE, 0.5);
    put_f(&mut d, st::M_LOAD, 0.25);
    put_f(&mut d, st::SUCCESS_RATE, sym::fany(3));
    let w = d.clone();
    let s = match read_state(3, d) {
        Some(s) => s,
        None => {
            sym::assert(false, 91);
            return;
        }
    };
    let f = |x: &[f64], o: usize, a: u32| {
        let mut ok = true;
        for i in 0..x.len() {
            ok &= x[i].to_bits() == g64(&w, o + 8 * i);
        }
        sym::assert(ok, a);
    };
    f(&s.O_T_EE, st::O_T_EE, 1);
    f(&s.O_T_EE_d, st::O_T_EE_D, 2);
    f(&s.F_T_EE, st::F_T_EE, 3);
    f(&s.EE_T_K, st::EE_T_K, 4);
    f(&s.F_T_NE, st::F_T_NE, 5);
    f(&s.NE_T_EE, st::NE_T_EE, 6);
    f(&[s.m_ee], st::M_EE, 7);
    f(&s.I_ee, st::I_EE, 8);
    f(&s.F_x_Cee, st::F_X_CEE, 9);
    f(&[s.m_load], st::M_LOAD, 10);
    f(&s.I_load, st::I_LOAD, 11);
    f(&s.F_x_Cload, st::F_X_CLOAD, 12);
    f(&s.elbow, st::ELBOW, 13);
    f(&s.elbow_d, st::ELBOW_D, 14);
    f(&s.tau_J, st::TAU_J, 15);
    f(&s.tau_J_d, st::TAU_J_D, 16);
    f(&s.dtau_J, st::DTAU_J, 17);
    f(&s.q, st::Q, 18);
    f(&s.q_d, st::Q_D, 19);
    f(&s.dq, st::DQ, 20);
    f(&s.dq_d, st::DQ_D, 21);
    f(&s.ddq_d, st::DDQ_D, 22);
    f(&s.joint_contact, st::JOINT_CONTACT, 23);
    f(&s.cartesian_contact, st::CART_CONTACT, 24);
    f(&s.joint_collision, st::JOINT_COLLISION, 25);
    f(&s.cartesian_collision, st::CART_COLLISION, 26);
    f(&s.tau_ext_hat_filtered, st::TAU_EXT, 27);
    f(&s.O_F_ext_hat_K, st::O_F_EXT, 28);
    f(&s.K_F_ext_hat_K, st::K_F_EXT, 29);
    f(&s.O_dP_EE_d, st::O_DP_EE_D, 30);
    f(&s.O_ddP_O, st::O_DDP_O, 31);
    f(&s.elbow_c, st::ELBOW_C, 32);
    f(&s.delbow_c, st::DELBOW_C, 33);
    f(&s.ddelbow_c, st::DDELBOW_C, 34);
    f(&s.O_T_EE_c, st::O_T_EE_C, 35);
    f(&s.O_dP_EE_c, st::O_DP_EE_C, 36);
    f(&s.O_ddP_EE_c, st::O_DDP_EE_C, 37);
    f(&s.theta, st::THETA, 38);
    f(&s.dtheta, st::DTHETA, 39);
    f(&[s.control_command_success_rate], st::SUCCESS_RATE, 40);
    sym::assert(s.time == Duration::from_millis(id), 41);
    sym::assert(mode_no(&s) == 1, 42);
    sym::assert(s.current_errors.franka_errors.is_empty(), 43);
    sym::assert(s.last_motion_errors.franka_errors.is_empty(), 44);
    sym::reach(1);
}

#[no_mangle]
pub extern "C" fn h02_modes() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(90);
    sym::on_hang(90);
    let mut d = base_state(7);
    let rm = sym::u8v(1);
    sym::assume(rm < 7);
    let mg = sym::u8v(1);
    sym::assume(mg < 5);
    let cm = sym::u8v(1);
    sym::assume(cm < 4);
    d[st::ROBOT_MODE] = rm;
    d[st::MG_MODE] = mg;
    d[st::CTRL_MODE] = cm;
    match read_state(1, d) {
        Some(s) => {
            sym::assert(mode_no(&s) == rm, 42);
            sym::reach(1);
        }
        None => sym::assert(false, 91),
    }
}

fn listed(list: &[E], flags: &[u8]) -> bool {
    let mut j = 0;
    let mut ok = true;
    for i in 0..41 {
        if flags[i] != 0 {
            if j < list.len() {
                ok &= list[j] == ERRORS[i];
                j += 1;
            } else {
                return false;
            }
        }
    }
    ok && j == list.len()
}

/// flag k arbitrary against a background of all-clear or all-set flags, in both lists
#[no_mangle]
pub extern "C" fn h02_errors() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(90);
    sym::on_hang(90);
    let k = sym::choice(41, 1) as usize;
    let bg = sym::choice(2, 1) as u8;
    let mut d = base_state(7);
    for i in 0..41 {
        d[st::ERRORS + i] = bg;
        d[st::REFLEX + i] = 1 - bg;
    }
    d[st::ERRORS + k] = sym::bv(1, 2) as u8;
    d[st::REFLEX + (k + 13) % 41] = sym::bv(1, 2) as u8;
    let w = d.clone();
    match read_state(1, d) {
        Some(s) => {
            sym::assert(listed(&s.current_errors.franka_errors, &w[st::ERRORS..st::ERRORS + 41]), 43);
            sym::assert(listed(&s.last_motion_errors.franka_errors, &w[st::REFLEX..st::REFLEX + 41]), 44);
            sym::assert(s.current_errors.contains(ERRORS[k]) == (w[st::ERRORS + k] != 0), 45);
            let l = (k + 13) % 41;
            sym::assert(s.last_motion_errors.contains(ERRORS[l]) == (w[st::REFLEX + l] != 0), 46);
            sym::reach(1);
        }
        None => sym::assert(false, 91),
    }
}

/// printed form of an error list: every set error quoted, brackets balanced
#[no_mangle]
pub extern "C" fn h02_display() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(90);
    let k = sym::choice(41, 1) as usize;
    let n = sym::choice(4, 1) as usize;
    let mut v = Vec::new();
    let mut e = String::from("[");
    for i in 0..n {
        let x = ERRORS[(k + 7 * i) % 41];
        if i > 0 {
            e.push_str(", ");
        }
        e.push('"');
        e.push_str(&format!("{:?}", x));
        e.push('"');
        v.push(x);
    }
    e.push(']');
    let l = franka::robot::errors::FrankaErrors { franka_errors: v };
    sym::assert(l.to_string() == e, 47);
    sym::reach(n as u32 + 1);
}

pub fn gripper_state(id: u32, w: f64, mw: f64, grasped: u8, temp: u16) -> Vec<u8> {
    let mut d = Vec::new();
    p32(&mut d, id);
    pf(&mut d, w);
    pf(&mut d, mw);
    p8(&mut d, grasped);
    p16(&mut d, temp);
    d
}
#[no_mangle]
pub extern "C" fn h02_gripper() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(90);
    sym::on_hang(90);
    let id = sym::u32v(1);
    let w = sym::fany(1);
    let mw = sym::fany(1);
    let gr = sym::bv(1, 1) as u8;
    let temp = sym::u16v(1);
    let old = sym::choice(3, 1);
    let mut g = with_gripper(move |ev| {
        if let Ev::Idle(Idle::Udp) = ev {
            env::udp_deliver(gripper_state(id, w, mw, gr, temp));
        }
    });
    // states that were waiting before the call are not what the caller gets
    for i in 0..old {
        env::udp_deliver(gripper_state(i, 9.0, 8.0, 0, 7));
    }
    match g.read_once() {
        Ok(s) => {
            sym::assert(s.width.to_bits() == w.to_bits(), 51);
            sym::assert(s.max_width.to_bits() == mw.to_bits(), 52);
            sym::assert(s.is_grasped as u8 == gr, 53);
            sym::assert(s.temperature == temp, 54);
            sym::assert(s.time == Duration::from_millis(id as u64), 55);
            sym::reach(1);
        }
        Err(_) => sym::assert(false, 91),
    }
}

/// a datagram of the wrong length is never decoded as a state
#[no_mangle]
pub extern "C" fn h02_length() {
    sym::mode(sym::MODE_FP);
    sym::on_panic(90);
    let n = sym::choice(4, 1);
    let len = match n {
        0 => 0,
        1 => 1,
        2 => st::SIZE / 2,
        _ => st::SIZE - 1,
    };
    let mut d = base_state(9);
    d.truncate(len);
    let s = read_state(1, d);
    sym::assert(s.is_none(), 92);
    sym::reach(1);
}
