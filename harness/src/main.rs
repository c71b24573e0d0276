#![allow(suspicious_runtime_symbol_definitions, invalid_runtime_symbol_definitions)]
#![allow(non_snake_case)]
mod env;
mod lim;
mod peer;
mod sym;
mod wire;
mod svc;
mod h01;
mod h02;
mod h03;
mod h04;
mod h05;
mod h06;
mod h07;
mod h08;
mod h09;
mod h10;
mod h11;
mod h12;
mod h13;
mod h14;
mod h15;
mod h16;
mod h17;
mod h18;
mod h19;
mod h20;
mod h21;
mod h22;

pub type H = extern "C" fn();
macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        #[used]
        pub static HARNESSES: &[(&str, H)] = &[$((stringify!($f), $m::$f as H)),*];
    };
}
table! {
    h01::h01_services,
    h01::h01_gripper,
    h01::h01_history,
    h01::h01_default_behavior,
    h01::h01_move,
    h02::h02_fields,
    h02::h02_modes,
    h02::h02_errors,
    h02::h02_display,
    h02::h02_gripper,
    h02::h02_length,
    h03::h03_services,
    h03::h03_messages,
    h03::h03_wall,
    h03::h03_gripper,
    h03::h03_default_behavior,
    h04::h04_split,
    h04::h04_split_wall,
    h04::h04_split_connect,
    h04::h04_split_gripper,
    h04::h04_foreign,
    h04::h04_motion_tail,
    h04::h04_started_and_ended,
    h05::h05_read_once,
    h05::h05_read,
    h05::h05_control,
    h05::h05_gripper,
    h06::h06_content,
    h07::h07_torques,
    h07::h07_default,
    h08::h08_velocities,
    h08::h08_positions,
    h08::h08_default,
    h09::h09_axis,
    h09::h09_space,
    h09::h09_pose,
    h09::h09_elbow,
    h10::h10_joints,
    h10::h10_cartesian,
    h10::h10_slerp,
    h10::h10_off,
    h10::h10_invalid,
    h10::h10_function,
    h11::h11_not_finite,
    h11::h11_pose,
    h11::h11_elbow,
    h11::h11_valid,
    h12::h12_motion,
    h12::h12_gradual,
    h12::h12_time,
    h12::h12_end,
    h12::h12_busy,
    h12::h12_refused,
    h13::h13_log,
    h13::h13_zero,
    h14::h14_time,
    h14::h14_long,
    h14::h14_short,
    h14::h14_near,
    h14::h14_robot,
    h15::h15_combine,
    h15::h15_everywhere,
    h15::h15_mass,
    h16::h16_frames,
    h16::h16_stiffness,
    h16::h16_dynamics,
    h16::h16_missing,
    h17::h17_download,
    h17::h17_existing,
    h17::h17_failures,
    h17::h17_large,
    h18::h18_connect,
    h18::h18_message,
    h19::h19_realtime,
    h20::h20_values,
    h20::h20_translation,
    h21::h21_services,
    h21::h21_gripper,
    h21::h21_connect,
    h21::h21_silent,
    h21::h21_motion,
    h21::h21_start,
    h22::h22_abort,
    h22::h22_local,
    h22::h22_gradual,
    h22::h22_silent,
}

#[cfg(feature = "replay")]
fn main() {
    use std::io::Read;
    let name = std::env::args().nth(1).unwrap_or_default();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let vals: Vec<u64> = s.split_whitespace().map(|x| x.parse().unwrap()).collect();
    unsafe {
        sym::raw::VALS = vals;
    }
    std::panic::set_hook(Box::new(|i| {
        use std::sync::atomic::Ordering;
        let id = sym::raw::ONPANIC.load(Ordering::SeqCst);
        eprintln!("{}", i);
        if id != 0 {
            println!("VIOLATED {} panic", id);
            sym::raw::finish(10);
        }
        println!("END panic");
        sym::raw::finish(0);
    }));
    for (n, f) in HARNESSES {
        if *n == name {
            f();
            println!("END done");
            sym::raw::finish(0);
        }
    }
    println!("NO SUCH HARNESS");
    sym::raw::finish(2);
}
#[cfg(not(feature = "replay"))]
fn main() {
    for (n, f) in HARNESSES {
        if n.len() == std::env::args().count() {
            f();
        }
    }
}
