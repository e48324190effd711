//! The library simulator in a build that counts every basic block it executes,
//! those of core and alloc included: the clock of a simulated processor (C26)

#[allow(dead_code)]
#[path = "../../dsim/src/main.rs"]
mod simulator;

static mut STEPS: u64 = 0;

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    unsafe { STEPS += 1 }
}

fn clock() -> u64 {
    unsafe { STEPS }
}

fn main() {
    dsim::exec::CLOCK.with(|c| c.set(Some(clock)));
    simulator::main();
}
