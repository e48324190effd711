//! dsim shard  REF PROP SEED FIRST LAST STEP OUT   run FIRST, FIRST+STEP, ... <LAST
//! dsim gen    REF PROP SEED RUN                   print the trace of one run
//! dsim replay REF FILE                            execute the traces of a file; 1 = violated
//! dsim shrink REF FILE CLASS                      print a smaller trace with the same violation
//! dsim digest REF PROP SEED FIRST LAST STEP       one state digest per run
//! dsim digestfile REF FILE                        one state digest per act
//! dsim states FILE                                the same, of one execution, no reference fonts needed
//! dsim demofb REF OUT                             the frame buffer of the wasm demo, drawn natively
//! dsim collisions REF                             known hash collisions (see known_findings.txt)

use dsim::model::{Probes, PROBE_NAMES};
use dsim::reffont::Ref;
use dsim::rng::Digest;
use dsim::text::Atoms;
use dsim::trace::{Op, Trace};
use dsim::world::{generate, Faults, Gen, FAULT_NAMES};
use dsim::{digest_of, exec, outcome, shrink, Outcome};
use std::collections::HashSet;
use std::io::Write;

fn num(s: &str) -> u64 {
    s.parse().expect("number")
}

/// Traces of a replay file: more than one when the violation needs the runs before it
fn bundle(path: &str) -> Vec<Trace> {
    let s = std::fs::read_to_string(path).expect("replay file");
    let mut v: Vec<String> = vec![];
    for l in s.lines() {
        if l.starts_with("dsim-trace") {
            v.push(String::new());
        }
        if let Some(x) = v.last_mut() {
            x.push_str(l);
            x.push('\n');
        }
    }
    v.iter().map(|s| Trace::parse(s).expect("malformed trace")).collect()
}

fn esc(s: &str) -> String {
    s.chars().map(|c| if c == '\n' || c == '\t' { ' ' } else { c }).collect()
}

pub fn main() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        LOC.with(|c| *c.borrow_mut() = at);
    }));
    let a: Vec<String> = std::env::args().collect();
    let cmd = a[1].as_str();
    if cmd == "states" {
        // No reference fonts: this runs in an interpreter
        let panicked = |t: &Trace| std::panic::catch_unwind(|| exec::states(t, |d| println!("{:016x}", d))).is_err();
        for (n, t) in bundle(&a[2]).iter().enumerate() {
            println!("# {}{}", n, if panicked(t) { " panic" } else { "" });
        }
        return;
    }
    let rf = Ref::parse(&std::fs::read(&a[2]).expect("reference fonts"));
    let atoms = Atoms::new(&rf);
    let g = Gen { rf: &rf, atoms: &atoms };
    let out = std::io::stdout();
    match cmd {
        "shard" => {
            let (prop, seed, first, last, step) = (&a[3], num(&a[4]), num(&a[5]), num(&a[6]), num(&a[7]));
            let mut faults = Faults::default();
            let mut fired_runs = vec![0u64; FAULT_NAMES.len()];
            let mut p = Probes::default();
            let (mut runs, mut acts, mut sim_us, mut calls, mut chars) = (0u64, 0u64, 0u64, 0u64, 0u64);
            let mut hist = HashSet::new();
            let mut orders = HashSet::new();
            let mut states = HashSet::new();
            let mut samples = vec![];
            let mut run = first;
            // Cuts a batch short on a slow machine; no effect on any run
            let limit = a.get(9).map_or(u64::MAX, |x| num(x));
            let t0 = std::time::Instant::now();
            while run < last && t0.elapsed().as_secs() < limit {
                let (t, f) = generate(&g, prop, seed, run);
                if runs % 8 == 0 {
                    let mut o = out.lock();
                    let _ = writeln!(o, "R {}", run);
                    let _ = o.flush();
                }
                let mut d = vec![];
                match outcome(&rf, &t, &mut p, &mut d) {
                    Outcome::Held => {}
                    Outcome::Violated(v) => {
                        println!("V {}\t{}\t{}\t{}", run, v.class, v.at, esc(&msg(&v)));
                        break;
                    }
                    Outcome::Broken(m) => {
                        println!("H {} harness panic: {} at {}", run, esc(&m), LOC.with(|c| c.borrow().clone()));
                        std::process::exit(3);
                    }
                }
                runs += 1;
                acts += t.acts.len() as u64;
                sim_us += t.acts.last().map_or(0, |a| a.t);
                let mut h = Digest::new();
                let mut o = Digest::new();
                let mut effective = 0;
                for a in &t.acts {
                    h.bytes(a.op.show().as_bytes());
                    o.add(a.op.client().map_or(99, |c| c as u64) << 4 | kind(&a.op));
                    if exec::effective(a) {
                        effective += 1;
                    }
                    if let Op::Paint { text, .. } | Op::PaintRaw { text, .. } = &a.op {
                        chars += text.len() as u64;
                    }
                }
                calls += effective;
                // Non-trivial: at least two calls that reach the display
                if effective >= 2 {
                    hist.insert(h.0);
                    orders.insert(o.0);
                }
                for s in &d {
                    if states.len() < 2_000_000 {
                        states.insert(*s);
                    }
                }
                for i in 0..FAULT_NAMES.len() {
                    if f.0[i] > 0 {
                        fired_runs[i] += 1;
                    }
                }
                faults.merge(&f);
                if samples.len() < 1 && effective >= 3 && t.acts.len() < 14 {
                    samples.push(t.show());
                }
                run += step;
            }
            let mut s = format!("S {{\"runs\":{},\"acts\":{},\"calls\":{},\"chars\":{},\"sim_us\":{}", runs, acts, calls, chars, sim_us);
            for (name, v, names) in [("faults", &faults.0[..], &FAULT_NAMES[..]), ("fault_runs", &fired_runs[..], &FAULT_NAMES[..]), ("probes", &p.0[..], &PROBE_NAMES[..])] {
                s += &format!(",\"{}\":{{{}}}", name, names.iter().zip(v).map(|(n, v)| format!("\"{}\":{}", n, v)).collect::<Vec<_>>().join(","));
            }
            let seen: Vec<String> = exec::SEEN.iter().map(|x| x.load(std::sync::atomic::Ordering::Relaxed).to_string()).collect();
            s += &format!(",\"stores\":{{\"seen\":{},\"changing\":{},\"calls_with_too_many\":{},\"calls_with_unseen\":{}}}", seen[0], seen[1], seen[2], seen[3]);
            s += "}";
            println!("{}", s);
            for t in samples {
                println!("T {}", t.replace('\\', "\\\\").replace('\n', "\\n"));
            }
            let mut bin = vec![];
            for set in [&hist, &orders, &states] {
                bin.extend((set.len() as u64).to_le_bytes());
                for x in set.iter() {
                    bin.extend(x.to_le_bytes());
                }
            }
            std::fs::write(&a[8], bin).expect("write distinct sets");
        }
        "gen" => print!("{}", generate(&g, &a[3], num(&a[4]), num(&a[5])).0.show()),
        "replay" => {
            let mut code = 0;
            for (k, t) in bundle(&a[3]).iter().enumerate() {
                match outcome(&rf, t, &mut Probes::default(), &mut vec![]) {
                    Outcome::Held => println!("trace {} held", k),
                    Outcome::Violated(v) => {
                        println!("V {}\t{}\t{}\t{}", k, v.class, v.at, esc(&msg(&v)));
                        code = 1;
                        break;
                    }
                    Outcome::Broken(m) => {
                        println!("H {} harness panic: {} at {}", k, esc(&m), LOC.with(|c| c.borrow().clone()));
                        std::process::exit(3);
                    }
                }
            }
            std::process::exit(code);
        }
        "shrink" => {
            let b = bundle(&a[3]);
            let class = a[4].clone();
            let t0 = std::time::Instant::now();
            let mut fails = |t: &Trace| {
                // A time limit on minimising only: it never decides a verdict
                t0.elapsed().as_secs() < 40 && matches!(outcome(&rf, t, &mut Probes::default(), &mut vec![]), Outcome::Violated(v) if v.class == class)
            };
            print!("{}", shrink::shrink(&rf, &b[b.len() - 1], 20_000, &mut fails).show());
        }
        "digest" => {
            let (prop, seed, first, last, step) = (&a[3], num(&a[4]), num(&a[5]), num(&a[6]), num(&a[7]));
            let mut run = first;
            let mut o = std::io::BufWriter::new(out.lock());
            while run < last {
                let t = generate(&g, prop, seed, run).0;
                let mut d = vec![];
                let mut h = Digest::new();
                h.bytes(t.show().as_bytes());
                let v = match outcome(&rf, &t, &mut Probes::default(), &mut d) {
                    Outcome::Held => "held".to_string(),
                    Outcome::Violated(v) => v.class,
                    Outcome::Broken(m) => panic!("{}", m),
                };
                let _ = writeln!(o, "{} {:016x} {:016x} {}", run, h.0, digest_of(&d), v);
                run += step;
            }
        }
        "digestfile" => {
            for t in bundle(&a[3]) {
                let mut d = vec![];
                let _ = outcome(&rf, &t, &mut Probes::default(), &mut d);
                for x in d {
                    println!("{:016x}", x);
                }
            }
        }
        "texts" => {
            // FILE has lines "text for": does the library take `text` for the cluster `for`?
            use dsim::model::{self, Cur, Rect, N};
            use dsim::reffont::F;
            use blitstr::{paint_str, ClipRect, Cursor, GlyphStyle};
            let hex = |s: &str| -> Vec<char> { s.split('.').map(|h| char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap()).collect() };
            for l in std::fs::read_to_string(&a[3]).expect("texts").lines() {
                let f: Vec<&str> = l.split_whitespace().collect();
                let (text, of) = (hex(f[0]), hex(f[1]));
                let mut verdict = "right";
                for (style, latin) in [(0, F::Small), (1, F::Regular), (2, F::Bold)] {
                    if !rf.text_collides(latin, &text) {
                        continue;
                    }
                    let mut fb = Box::new([0u32; N]);
                    let mut c = Cursor::new(10, 10, 0);
                    paint_str(&mut fb, ClipRect::full_screen(), &mut c, GlyphStyle::from(style as usize), &text.iter().collect::<String>());
                    let model = |t: &[char]| {
                        let mut m = vec![0u32; N];
                        let mut c = Cur { x: 10, y: 10, lh: 0 };
                        model::paint(&rf, &mut m, Rect { x0: 0, y0: 0, x1: 336, y1: 536 }, &mut c, style, t, &mut Probes::default());
                        (m, c)
                    };
                    let real = (fb.to_vec(), exec::cur_of(&c));
                    if real == model(&text) {
                    } else if real == model(&of) {
                        verdict = "taken";
                    } else {
                        verdict = "other";
                        break;
                    }
                }
                println!("{} {}", l, verdict);
            }
        }
        "collisions" => {
            // Every two-code-point text that a hash-only lookup takes for a cluster it is not
            use dsim::reffont::{murmur3, F};
            for (name, f) in [("emoji", F::Emoji), ("regular", F::Regular), ("small", F::Small), ("bold", F::Bold), ("hanzi", F::Hanzi)] {
                let font = rf.font(f);
                for b in &font.blocks {
                    if b.lens[0] < 2 {
                        continue;
                    }
                    for x in (b.lo..=b.hi).filter_map(char::from_u32) {
                        for y in (0..0x110000).filter_map(char::from_u32) {
                            let h = murmur3(&[x, y], font.seed);
                            if b.hashes.contains(&h) && !font.map.contains_key(&[x, y][..]) {
                                let of = font.clusters.iter().find(|(c, _)| murmur3(c, font.seed) == h).unwrap();
                                println!("{} {:x}.{:x} taken for {}", name, x as u32, y as u32, of.0.iter().map(|c| format!("{:x}", *c as u32)).collect::<Vec<_>>().join("."));
                            }
                        }
                    }
                }
            }
        }
        "demofb" => {
            let mut fb = Box::new(blitstr::new_fr_buf());
            blitstr::demo::sample_text(&mut fb);
            blitstr::demo::goose_poem(&mut fb);
            std::fs::write(&a[3], fb.iter().flat_map(|w| w.to_le_bytes()).collect::<Vec<u8>>()).expect("write");
        }
        _ => panic!("unknown command"),
    }
}

fn msg(v: &exec::Violation) -> String {
    if v.class == "panic" {
        format!("{} at {}", v.msg, LOC.with(|c| c.borrow().clone()))
    } else {
        v.msg.clone()
    }
}

thread_local! {
    static LOC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

fn kind(op: &Op) -> u64 {
    match op {
        Op::Paint { .. } => 1,
        Op::Style { .. } => 2,
        Op::Clip { .. } => 3,
        Op::Seek { .. } => 4,
        Op::Home { .. } => 5,
        Op::Clear { .. } => 6,
        Op::Restart { .. } => 7,
        Op::ClearRaw { .. } => 8,
        Op::PaintRaw { id, .. } => 9 | (id + 1) << 20,
        Op::Demo { .. } => 10,
        Op::Dirt { .. } => 11,
    }
}
