pub mod exec;
pub mod model;
pub mod reffont;
pub mod rng;
pub mod shrink;
pub mod text;
pub mod trace;
pub mod world;

use reffont::Ref;
use rng::Digest;
use std::panic::{catch_unwind, AssertUnwindSafe};
use trace::Trace;

pub enum Outcome {
    Held,
    Violated(exec::Violation),
    /// The harness itself panicked
    Broken(String),
}

/// Check one trace, turning library panics into violations
pub fn outcome(rf: &Ref, t: &Trace, p: &mut model::Probes, digests: &mut Vec<u64>) -> Outcome {
    exec::IN_LIB.with(|c| c.set(false));
    let r = catch_unwind(AssertUnwindSafe(|| exec::check(rf, t, p, digests)));
    match r {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(v)) => Outcome::Violated(v),
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            if exec::IN_LIB.with(|c| c.get()) {
                exec::IN_LIB.with(|c| c.set(false));
                Outcome::Violated(exec::Violation { class: "panic".into(), at: exec::AT.with(|a| a.get()), msg })
            } else {
                Outcome::Broken(msg)
            }
        }
    }
}

pub fn digest_of(v: &[u64]) -> u64 {
    let mut d = Digest::new();
    for x in v {
        d.add(*x);
    }
    d.0
}

/// Exports for the 32-bit WebAssembly build, called by wsim
#[cfg(target_arch = "wasm32")]
mod wasm {
    use super::*;
    static mut REF: Option<(Ref, text::Atoms)> = None;
    static mut OUT: Vec<u64> = Vec::new();

    #[no_mangle]
    pub extern "C" fn dsim_alloc(n: usize) -> *mut u8 {
        let mut v = vec![0u8; n];
        let p = v.as_mut_ptr();
        std::mem::forget(v);
        p
    }
    #[no_mangle]
    pub unsafe extern "C" fn dsim_ref(p: *const u8, n: usize) {
        let rf = Ref::parse(std::slice::from_raw_parts(p, n));
        let atoms = text::Atoms::new(&rf);
        REF = Some((rf, atoms));
    }
    #[allow(static_mut_refs)]
    unsafe fn go(t: &Trace) -> u32 {
        OUT.clear();
        let (rf, _) = REF.as_ref().unwrap();
        let mut p = model::Probes::default();
        match exec::check(rf, t, &mut p, &mut OUT) {
            Ok(()) => 0,
            Err(_) => 1,
        }
    }
    /// Generate and execute one run; 0 held, 1 violated; digests in OUT
    #[no_mangle]
    #[allow(static_mut_refs)]
    pub unsafe extern "C" fn dsim_run(prop: u32, seed_lo: u32, seed_hi: u32, run: u32) -> u32 {
        let t = {
            let (rf, atoms) = REF.as_ref().unwrap();
            let seed = seed_lo as u64 | (seed_hi as u64) << 32;
            world::generate(&world::Gen { rf, atoms }, &format!("C{:02}", prop), seed, run as u64).0
        };
        go(&t)
    }
    #[no_mangle]
    pub unsafe extern "C" fn dsim_trace(p: *const u8, n: usize) -> u32 {
        let s = std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap();
        go(&Trace::parse(s).unwrap())
    }
    #[no_mangle]
    #[allow(static_mut_refs)]
    pub unsafe extern "C" fn dsim_out_ptr() -> *const u64 {
        OUT.as_ptr()
    }
    #[no_mangle]
    #[allow(static_mut_refs)]
    pub unsafe extern "C" fn dsim_out_len() -> usize {
        OUT.len()
    }
    #[no_mangle]
    #[allow(static_mut_refs)]
    pub unsafe extern "C" fn dsim_at() -> usize {
        exec::AT.with(|a| a.get())
    }
    #[no_mangle]
    pub unsafe extern "C" fn dsim_in_lib() -> u32 {
        exec::IN_LIB.with(|a| a.get()) as u32
    }
}
