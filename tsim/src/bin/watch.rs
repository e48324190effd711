//! The library simulator in the instrumented build: sees every store into the frame buffer (C20)

#[allow(dead_code)]
#[path = "../../../dsim/src/main.rs"]
mod simulator;

#[repr(C)]
#[derive(Clone, Copy)]
struct Seen {
    word: u32,
    val: u32,
}
extern "C" {
    fn watch_begin(fb: *const u32, words: u64);
    fn watch_end(s: *mut *const Seen, full: *mut u32) -> u32;
}

fn begin(fb: *const u32, words: usize) {
    unsafe { watch_begin(fb, words as u64) }
}
fn end() -> (Vec<(u32, u32)>, bool) {
    let (mut s, mut full) = (std::ptr::null(), 0);
    unsafe {
        let n = watch_end(&mut s, &mut full);
        (std::slice::from_raw_parts(s, n as usize).iter().map(|s| (s.word, s.val)).collect(), full == 0)
    }
}
static WATCH: dsim::exec::Watch = dsim::exec::Watch { begin, end };

fn main() {
    dsim::exec::WATCH.with(|w| w.set(Some(&WATCH)));
    simulator::main();
}
