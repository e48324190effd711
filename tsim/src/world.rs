//! What the painters do and how the machine behaves, from one seed.

use crate::sim::{client, when, Rates, Trace};
use dsim::reffont::Ref;
use dsim::rng::Rng;
use dsim::text::Atoms;
use dsim::trace::{Act, Op};

fn rect(r: &mut Rng) -> [u64; 4] {
    match r.below(8) {
        0 => [0, 0, 336, 536],
        1 => {
            // nearly or quite outside, or empty
            let x = r.range(0, 340);
            let y = r.range(0, 540);
            [x, y, x + r.range(0, 40), y + r.range(0, 40)]
        }
        2 | 3 => {
            // narrow
            let x = r.range(0, 300);
            let y = r.range(0, 480);
            [x, y, (x + r.range(8, 60)).min(336), (y + r.range(10, 80)).min(536)]
        }
        _ => {
            let x = r.range(0, 200);
            let y = r.range(0, 400);
            [x, y, r.range(x + 30, 336), r.range(y + 30, 536)]
        }
    }
}

pub fn generate(rf: &Ref, atoms: &Atoms, seed: u64) -> Trace {
    let mut r = Rng::new(seed);
    let n = match r.below(10) {
        0..=4 => 2,
        5..=7 => 3,
        8 => 4,
        _ => r.usize(5, 6),
    };
    // Interrupt handlers: the last painters of some runs
    let handlers = if r.pct(35) { r.usize(1, n - 1) } else { 0 };
    let prio: Vec<u32> = (0..n).map(|i| if i >= n - handlers { (i - (n - handlers) + 1) as u32 } else { 0 }).collect();
    let one = |r: &mut Rng, xs: &[u32]| xs[r.below(xs.len() as u64) as usize];
    let rates = Rates {
        weak: r.pct(50) as u32,
        shared: one(&mut r, &[32768, 16384, 8192, 2048, 1024]),
        any: one(&mut r, &[0, 8, 64, 512, 4096]),
        drain: one(&mut r, &[1024, 4096, 16384]),
        stop: if r.pct(25) { one(&mut r, &[256, 1024, 4096]) } else { 0 },
        edge: one(&mut r, &[8192, 32768, 60000]),
    };
    // A few short pieces of text that the painters of the run share, so that
    // they are often at the same thing; and windows and styles that some share
    let mix = Atoms::mix(&mut r);
    let pieces: Vec<Vec<char>> = (0..r.usize(1, 5))
        .map(|_| {
            let n = r.usize(1, 3);
            atoms.text(rf, &mut r, &mix, n)
        })
        .collect();
    let windows: Vec<[u64; 4]> = (0..r.usize(1, 3)).map(|_| rect(&mut r)).collect();
    let styles: Vec<u64> = (0..r.usize(1, 3)).map(|_| if r.pct(90) { r.below(5) } else { r.u64() >> 40 }).collect();
    let window = |r: &mut Rng| if r.pct(60) { *r.pick(&windows) } else { rect(r) };
    let seek = |r: &mut Rng| [r.range(0, 340), r.range(0, 540), r.range(0, 34)];
    let clients = (0..n)
        .map(|_| {
            let cur = if r.pct(30) { Some(seek(&mut r)) } else { None };
            client(window(&mut r), *r.pick(&styles), cur)
        })
        .collect();
    let mut acts = vec![];
    let long = r.pct(6);
    for cl in 0..n {
        let calls = r.usize(1, if long { 3 } else { 6 });
        for id in 0..calls {
            let op = match r.below(100) {
                0..=69 => {
                    let mut text: Vec<char> = vec![];
                    for _ in 0..r.usize(1, if long { 30 } else { 4 }) {
                        text.extend(r.pick(&pieces));
                    }
                    if r.pct(10) {
                        text.extend(atoms.text(rf, &mut r, &mix, 2));
                    }
                    // Hash collisions (the known finding) are not generated
                    use dsim::reffont::F;
                    while [F::Small, F::Regular, F::Bold].iter().any(|f| rf.text_collides(*f, &text)) {
                        let n = text.len() / 2;
                        text.truncate(n);
                    }
                    Op::Paint { cl, text }
                }
                70..=76 => Op::Clear { cl },
                77..=78 => Op::ClearRaw { lit: r.pct(50), regs: window(&mut r) },
                79 if r.pct(20) => Op::Demo { k: r.below(3) },
                79..=84 => Op::Style { cl, reg: *r.pick(&styles) },
                85..=89 => Op::Clip { cl, regs: window(&mut r) },
                90..=93 => Op::Seek { cl, cur: seek(&mut r) },
                94..=95 => Op::Home { cl },
                _ => Op::Restart { cl },
            };
            acts.push(Act { t: when(cl, id), op, note: "" });
        }
    }
    let base = dsim::trace::Trace { prop: "C19".into(), seed, clients, fb0: (r.below(7), r.u64()), knob: 0, acts };
    Trace { base, prio, rates, events: vec![] }
}
